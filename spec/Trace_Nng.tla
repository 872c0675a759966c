----------------------------- MODULE Trace_Nng -----------------------------
(***************************************************************************)
(* Recorded runs of scc_sc_clustering against the machine Nng.  Every case *)
(* of the file is one initial state.  The recorded labels (up to renaming) *)
(* guide the machine; seeds and tie decisions are not recorded and are     *)
(* inferred by TLC.  Mode "strict" uses the seed method's own order        *)
(* (Seed / Consider), mode "free" any order (AnySeed).                     *)
(* Mode "free" is only needed for cases no strict behaviour explains, so  *)
(* the checks first run with MODES = "strict", then the rest with both.   *)
(* A case record: x (instance, see NngGeom), ec, k, lab, crash             *)
(***************************************************************************)
EXTENDS Nng, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP
NC    == Len(Cases)

VARIABLES ci, mode
tvars == <<ci, mode, phase, g, seeds, asg, con, lab, nxt, res>>

(* registers: what the explored behaviours of a case establish *)
Slot(c, a) == 10 * c + a
S_END == 0  S_ALL == 1  S_4 == 2  S_5 == 3  S_8 == 4  F_END == 5  F_4 == 6  F_5 == 7  F_8 == 8  PRED == 9
ASSUME \A c \in 1..NC : \A a \in 0..9 : TLCSet(Slot(c, a), FALSE)
Mark(c, a) == TLCSet(Slot(c, a), TRUE)
Got(c, a)  == TLCGet(Slot(c, a))

C == Cases[ci]
X == C.x
OnlyPredicate == Prop \in {"C01", "C02", "C03"}
Modes == IF OnlyPredicate THEN {"pred"} ELSE IF Prop = "C06" THEN {"free"} ELSE IF Prop = "C07" THEN {"strict"} ELSE IF IOEnv.MODES = "strict" THEN {"strict"} ELSE {"strict", "free"}

TInit == /\ ci \in 1..NC /\ mode \in Modes /\ Cases[ci].crash = 0
         /\ IF mode = "pred"
            THEN phase = "call" /\ g = <<>> /\ seeds = <<>> /\ asg = {} /\ con = {} /\ lab = <<>> /\ nxt = 1 /\ res = -1
            ELSE Start(Cases[ci].x)

(* ---- outcome predicates ---- *)
Judge == /\ mode = "pred" /\ phase = "call"
         /\ CASE Prop = "C01" -> P_C01(X, C.ec, C.k, C.lab) = TRUE
              [] Prop = "C02" -> P_C02(X, C.ec, C.k, C.lab) = TRUE
              [] Prop = "C03" -> (CertD(X) /\ P_C03(X, C.ec, C.k, C.lab)) = TRUE
         /\ Mark(ci, PRED)
         /\ phase' = "done" /\ res' = C.ec /\ UNCHANGED <<ci, mode, g, seeds, asg, con, lab, nxt>>

(* ---- the machine, guided by the recorded labels ---- *)
Used == {lab[s] : s \in RangeOf(seeds)}
SeedFits(v) == LET l == C.lab[v] IN l # -1 /\ l \notin Used /\ \A p \in g[v] : C.lab[p] = l

TSearch == /\ mode # "pred" /\ (CertOK(X) = TRUE) /\ Search(X)
           /\ UNCHANGED <<ci, mode>>
           /\ phase' = "done" => res' = C.ec
TSeedS  == /\ mode = "strict" /\ C.ec \in {OK, NO_SOLUTION}
           /\ \E v \in Pts(X) :
                \/ C.ec = OK /\ SeedFits(v) /\ Seed(X, v, C.lab[v])
                \/ C.ec = OK /\ v \notin Free(g, asg) /\ Consider(X, v, 0)
                \/ C.ec = OK /\ v \in Free(g, asg) /\ SeedFits(v) /\ Consider(X, v, C.lab[v])
                \* no labels to go by: only an estimated radius of zero can end in NO_SOLUTION
                \/ C.ec = NO_SOLUTION /\ NeedsEst(X) /\ (Seed(X, v, Len(seeds)) \/ Consider(X, v, Len(seeds)))
           /\ UNCHANGED <<ci, mode>>
NextLabel == CHOOSE l \in {C.lab[p] : p \in Pts(X)} \ ({-1} \cup Used) :
               \A m \in {C.lab[p] : p \in Pts(X)} \ ({-1} \cup Used) : l <= m
TSeedF  == /\ mode = "free"
           /\ \/ /\ C.ec = OK /\ {C.lab[p] : p \in Pts(X)} \ ({-1} \cup Used) # {}
                 /\ \E v \in {p \in Pts(X) : C.lab[p] = NextLabel} : SeedFits(v) /\ AnySeed(X, v, C.lab[v])
              \/ /\ C.ec = NO_SOLUTION /\ NeedsEst(X)
                 /\ \E v \in Pts(X) : AnySeed(X, v, Len(seeds))
           /\ UNCHANGED <<ci, mode>>
TEnd    == /\ EndSeeding(X) /\ UNCHANGED <<ci, mode>>
           /\ phase' = "done" => res' = C.ec
           /\ phase' = "leftover" => C.ec = OK /\ C.k = Len(seeds)
(* one leftover at a time, with the recorded label *)
TLeft   == /\ nxt <= X.n /\ Leftover(X, C.lab[nxt]) /\ UNCHANGED <<ci, mode>>
TReturn == Return(X) /\ UNCHANGED <<ci, mode>>

Out == Pts(X) \ asg
(* what a behaviour establishes, noted when it is reached *)
Note ==
  /\ (mode = "strict" /\ (phase = "leftover" \/ (phase = "done" /\ res = C.ec))) => Mark(ci, S_END)
  /\ (mode = "free"   /\ (phase = "leftover" \/ (phase = "done" /\ res = C.ec))) => Mark(ci, F_END)
  /\ (mode = "strict" /\ phase = "done" /\ res = C.ec) => Mark(ci, S_ALL) /\ (res # OK => Mark(ci, S_4) /\ Mark(ci, S_5) /\ Mark(ci, S_8))
  /\ (mode = "free" /\ phase = "done" /\ res # OK /\ res = C.ec) => Mark(ci, F_4) /\ Mark(ci, F_5) /\ Mark(ci, F_8)
  /\ (phase = "leftover" /\ nxt = 1) =>
       LET a4 == Prop = "C04" /\ \A p \in Out : CoverageOK(X, g, asg, seeds, p, C.lab[p])
           a5 == Prop = "C05" /\ \A p \in Out : RadiusOK(X, g, asg, seeds, C.lab, p, C.lab[p])
           a8 == Prop = "C08" /\ \A p \in Out : ClosestOK(X, g, asg, seeds, C.lab, p, C.lab[p])
       IN /\ a4 => Mark(ci, IF mode = "strict" THEN S_4 ELSE F_4)
          /\ a5 => Mark(ci, IF mode = "strict" THEN S_5 ELSE F_5)
          /\ a8 => Mark(ci, IF mode = "strict" THEN S_8 ELSE F_8)

Enough == CASE Prop = "C06" -> Got(ci, F_END) [] Prop = "C07" -> Got(ci, S_END)
            [] Prop = "C04" -> Got(ci, S_4)   [] Prop = "C05" -> Got(ci, S_5) [] Prop = "C08" -> Got(ci, S_8)
            [] Prop = "C25" -> Got(ci, S_ALL)
            [] OTHER -> Got(ci, PRED)
TNext == \/ Judge
         \/ ~Enough /\ (TSearch \/ TSeedS \/ TSeedF \/ TEnd \/ TLeft \/ TReturn)
TSpec == TInit /\ [][TNext]_tvars

(* order of seeds and the leftover labels are determined by the rest *)
TView == <<ci, mode, phase, asg, RangeOf(seeds), con, nxt, res>>

Verdict(c) ==
  /\ Cases[c].crash = 0
  /\ CASE OnlyPredicate -> Got(c, PRED)
       [] Prop = "C06" -> Got(c, F_END)
       [] Prop = "C07" -> Got(c, S_END)
       [] Prop = "C25" -> Got(c, S_ALL)
       [] Prop = "C04" -> IF Got(c, S_END) THEN Got(c, S_4) ELSE Got(c, F_4)
       [] Prop = "C05" -> IF Got(c, S_END) THEN Got(c, S_5) ELSE Got(c, F_5)
       [] Prop = "C08" -> IF Got(c, S_END) THEN Got(c, S_8) ELSE Got(c, F_8)
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~Verdict(c)}>>)
=============================================================================
