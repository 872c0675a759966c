--------------------------- MODULE Trace_Provider ---------------------------
(* Recorded provider-call logs of public calls against the contract.       *)
EXTENDS Provider, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
VARIABLES ci, l
tvars == <<objs, done, ci, l>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci]
TInit == ci \in 1..NC /\ l = 1 /\ PInit
TNext == /\ C.crash = 0 /\ UNCHANGED ci
         /\ \/ l <= Len(C.log) /\ C.log[l].n = C.n /\ Event(C.log[l]) /\ l' = l + 1
            \/ l = Len(C.log) + 1 /\ CallReturns /\ TLCSet(ci, TRUE) /\ l' = l
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
