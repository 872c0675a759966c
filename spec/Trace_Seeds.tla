----------------------------- MODULE Trace_Seeds -----------------------------
(* Seed search on arbitrary loop-free graphs: the recorded seeds, in their    *)
(* recorded order, must be a run of the seeding machine of Nng.               *)
(* A case: v, adj (heads per vertex), sm, ec, same, leak, seeds, crash        *)
EXTENDS Nng, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
VARIABLE ci
tvars == <<ci, phase, g, seeds, asg, con, lab, nxt, res>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci]
X == [n |-> C.v, sm |-> C.sm]
TInit == /\ ci \in 1..NC /\ Cases[ci].crash = 0
         /\ phase = "seeding" /\ seeds = <<>> /\ asg = {} /\ con = {} /\ nxt = 1 /\ res = -1
         /\ g = [v \in 1..Cases[ci].v |-> RangeOf(Cases[ci].adj[v])]
         /\ lab = [v \in 1..Cases[ci].v |-> -1]
More == Len(seeds) < Len(C.seeds)
Fits(v) == More /\ v = C.seeds[Len(seeds) + 1]
TStep == /\ C.ec = OK /\ C.same = 1 /\ C.leak = 0
         /\ \E v \in Pts(X) : \/ Fits(v) /\ Seed(X, v, Len(seeds))
                              \/ v \in Free(g, asg) /\ Fits(v) /\ Consider(X, v, Len(seeds))
                              \/ v \notin Free(g, asg) /\ Consider(X, v, 0)
         /\ UNCHANGED ci
TEnd  == /\ ~More /\ Free(g, asg) = {} /\ phase = "seeding"
         /\ phase' = "done" /\ TLCSet(ci, TRUE) /\ UNCHANGED <<ci, g, seeds, asg, con, lab, nxt, res>>
TNext == ~TLCGet(ci) /\ (TStep \/ TEnd)
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
