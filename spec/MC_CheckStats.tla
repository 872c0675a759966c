---------------------------- MODULE MC_CheckStats ----------------------------
(* Every clustering the Nng machine can end in is accepted by CheckOK when *)
(* its primary points are assigned; CheckOK is exactly the conjunction of  *)
(* the C01/C02 outcome predicates on all labellings of four points.        *)
EXTENDS CheckStats
CONSTANTS NPts
VARIABLES x0, k0, l0
mvars == <<x0, k0, l0, phase, g, seeds, asg, con, lab, nxt, res>>
Types == {<<<<>>, <<>>>>} \cup {<<tc, [p \in 1..NPts |-> IF p \in S THEN 1 ELSE 2]>> : tc \in {<<1, 0>>, <<1, 1>>, <<0, 2>>}, S \in SUBSET (1..NPts)}
Init == /\ \E ty \in Types, sz \in {2, 3}, el \in {<<>>, <<1>>, <<2, 3>>} :
             x0 = [n |-> NPts, size |-> sz, tc |-> ty[1], tl |-> ty[2], elig |-> el, prim |-> el # <<>>]
        /\ k0 \in 1..2 /\ l0 \in [1..NPts -> -1..2]
        /\ phase = "done" /\ g = <<>> /\ seeds = <<>> /\ asg = {} /\ con = {} /\ lab = <<>> /\ nxt = 1 /\ res = OK
Spec == Init /\ [][FALSE]_mvars
PrimOK == ~x0.prim \/ \A p \in Elig(x0) : l0[p] # -1
I_Check == CheckOK(x0, k0, l0) <=> (PrimOK /\ P_C01(x0, OK, k0, l0) /\ (NumTypes(x0) >= 2 => \A c \in 0..(k0 - 1) : \A t \in 1..2 : Cardinality({p \in Members(l0, c) : x0.tl[p] = t}) >= x0.tc[t]))
(* the statistics of any labelling are consistent with each other: with D = 1 every average of pairs is 0 or 1 *)
D1 == [a \in 1..NPts |-> [b \in 1..NPts |-> IF a = b THEN 0 ELSE 1]]
I_Stats == (ValidLabels(k0, l0) /\ Populated(k0, l0) # {}) =>
   LET C == [c \in Populated(k0, l0) |-> Clu(D1, l0, c)] IN
   \A c \in Populated(k0, l0) : C[c].sum = C[c].pairs /\ C[c].pairs = (C[c].size * (C[c].size - 1)) \div 2
(* the fixed-point arithmetic agrees with exact fractions *)
I_Fix == \A q \in 1..7 : \A p \in 0..9 :
   /\ FMul(Fix(p, 1), q) = Fix(p * q, 1) /\ FDiv(Fix(p, 1), q) = Fix(p, q)
   /\ (q <= 4 => FNear(FMul(Fix(p, q), q), <<p, 0, 0>>)) /\ FNear(FAdd(Fix(p, q), Fix(1, q)), Fix(p + 1, q))
   /\ ~FNear(Fix(p, q), FAdd(Fix(p, q), <<0, 0, 6>>)) /\ ~FNear(Fix(p, q), FAdd(Fix(p, q), <<0, 1, 0>>)) /\ ~FNear(Fix(p, q), Fix(p + 1, q))
=============================================================================
