-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* Every operation is a function of its arguments: the first answer to an  *)
(* argument fixes all later ones, whatever happened in between (other      *)
(* calls, failed calls, other memory contents, another integer-width       *)
(* configuration), and a call leaves what it was given unchanged.          *)
(*   memo   arguments -> answer given                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES memo
UInit == memo = << >>
Call(a, r, untouched) ==
  /\ untouched
  /\ IF a \in DOMAIN memo THEN r = memo[a] /\ UNCHANGED memo
                          ELSE memo' = (a :> r) @@ memo
(* a call made to fail by an injected fault answers nothing *)
Disturb == UNCHANGED memo
=============================================================================
