----------------------------- MODULE Trace_Hier -----------------------------
(* Recorded runs of scc_hierarchical_clustering.  C10 and C11 judge the    *)
(* outcome; C12 looks for a behaviour of the splitting machine that ends   *)
(* in exactly the recorded clusters (tie-free instances).                  *)
EXTENDS Hier, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP
NC    == Len(Cases)
VARIABLES ci
tvars == <<ci, pend, fin, work>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci]
H == C.h
TInit == /\ ci \in 1..NC /\ Cases[ci].crash = 0
         /\ IF Prop = "C12" THEN (CertOK(Cases[ci].h) = TRUE) /\ Cases[ci].ec = OK /\ HStart(Cases[ci].h) ELSE pend = {} /\ fin = {} /\ work = Idle
Labels(S) == {C.lab[p] : p \in S}
(* a cluster to work on, in a fixed order *)
Cur == CHOOSE S \in pend : \A T \in pend : (CHOOSE m \in S : \A q \in S : m <= q) <= (CHOOSE m \in T : \A q \in T : m <= q)
TStep ==
  /\ Prop = "C12" /\ UNCHANGED ci
  /\ \/ /\ pend # {} /\ work = Idle
        /\ LET S == Cur IN
           \/ Keep(H, S) /\ Cardinality(Labels(S)) = 1 /\ Labels(S) \cap Labels(Pts(H) \ S) = {}
           \/ Cardinality(S) >= 2 * H.size /\ \E c \in Mutual(H, S) : Open(H, S, c)
     \/ Hand(H)
     \/ Close(H) /\ Labels(work.A) \cap Labels(work.B) = {}
Note ==
  CASE Prop = "C10" -> (C.ec = OK /\ H_C10(H, C.k, C.lab)) => TLCSet(ci, TRUE)
    [] Prop = "C11" -> (C.ec = OK /\ H_C11(H, C.k, C.lab)) => TLCSet(ci, TRUE)
    [] Prop = "C12" -> (pend = {} /\ work = Idle /\ \A p \in Pts(H) : C.lab[p] = -1 <=> p \notin UNION fin) => TLCSet(ci, TRUE)
TNext == ~TLCGet(ci) /\ TStep
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
