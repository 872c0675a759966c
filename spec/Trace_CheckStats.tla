-------------------------- MODULE Trace_CheckStats --------------------------
(* Recorded calls of scc_check_clustering / scc_get_clustering_stats.      *)
EXTENDS CheckStats, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
VARIABLE ci
tvars == <<ci, phase, g, seeds, asg, con, lab, nxt, res>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci]
TInit == /\ ci \in 1..NC /\ phase = "call" /\ g = <<>> /\ seeds = <<>> /\ asg = {} /\ con = {} /\ lab = <<>> /\ nxt = 1 /\ res = -1
JudgeCheck == /\ C.op = "check" /\ C.ec = OK
              /\ (C.ok = 1) <=> CheckOK(C.x, C.k, C.lab)
              /\ C.made => (C.ok = 1 \/ (C.x.prim /\ \E p \in Elig(C.x) : C.lab[p] = -1))
JudgeStats == /\ C.op = "stats" /\ C.ec = OK
              /\ StatsOK(C.D, Len(C.lab), C.k, C.lab, C.st)
TNext == /\ phase = "call" /\ C.crash = 0 /\ C.same = 1 /\ (JudgeCheck \/ JudgeStats) = TRUE
         /\ TLCSet(ci, TRUE) /\ phase' = "done" /\ UNCHANGED <<ci, g, seeds, asg, con, lab, nxt, res>>
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
