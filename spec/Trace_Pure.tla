----------------------------- MODULE Trace_Pure -----------------------------
(* Recorded histories: calls of several processes and configurations in     *)
(* sequence; a call is [a, r, same] or a disturbance (a = 0).               *)
EXTENDS Pure, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
VARIABLES ci, l
tvars == <<memo, ci, l>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci].calls
TInit == ci \in 1..NC /\ l = 1 /\ UInit
TNext == /\ UNCHANGED ci /\ l' = l + 1
         /\ \/ l <= Len(C) /\ C[l].a # 0 /\ Call(C[l].a, C[l].r, C[l].same = 1)
            \/ l <= Len(C) /\ C[l].a = 0 /\ Disturb
            \/ l = Len(C) + 1 /\ TLCSet(ci, TRUE) /\ UNCHANGED memo
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
