----------------------------- MODULE Trace_Dist -----------------------------
(* Recorded sessions with the built-in provider: [x, steps].                *)
EXTENDS Dist, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
VARIABLES ci, l
tvars == <<xs, obj, ci, l>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci].steps
S == C[l]
AllClosed(o) == \A i \in DOMAIN o : o[i] = Closed
(* a search may fail when memory runs out; it then leaves nothing behind (so must a failed dinn: lost) *)
Failed == /\ l <= Len(C) /\ S.crash = 0 /\ S.ok = 0 /\ S.same = 1
          /\ S.op = "dsnn" /\ S.hit = 1 /\ S.live = C[l - 1].live /\ UNCHANGED <<xs, obj>>
Step ==
  /\ l <= Len(C) /\ S.crash = 0 /\ S.ok = 1 /\ S.same = 1
  /\ CASE S.op = "dset"  -> S.num = Len(xs) /\ S.chk = 1 /\ UNCHANGED <<xs, obj>>
       [] S.op = "dmat"  -> Query(MatrixOK(xs, S.q, S.d))
       [] S.op = "drows" -> Query(RowsOK(xs, S.q, S.c, S.d))
       [] S.op = "dinn"  -> S.lost = 0 /\ Open(S.id, "nn", S.c)
       [] S.op = "dimax" -> Open(S.id, "max", S.c)
       [] S.op = "dcnn"  -> Shut(S.id, "nn")
       [] S.op = "dcmax" -> Shut(S.id, "max")
       [] S.op = "dsnn"  -> /\ obj[S.id].kind = "nn"
                            /\ Query(SearchOK(xs, S.q, obj[S.id].sp, S.k, S.rr, S.num, S.nn))
                            /\ (S.wq = 1) => S.oq = OkQueries(xs, S.q, obj[S.id].sp, S.k, S.rr)
       [] S.op = "dgmax" -> obj[S.id].kind = "max" /\ Query(FarOK(xs, S.q, obj[S.id].sp, S.mi, S.d))
  /\ AllClosed(obj') => S.live = C[1].live        \* nothing is held once all objects are closed
TInit == ci \in 1..NC /\ l = 1 /\ DInit(Cases[ci].x)
TNext == /\ UNCHANGED ci /\ l' = l + 1
         /\ \/ Step \/ Failed
            \/ l = Len(C) + 1 /\ TLCSet(ci, TRUE) /\ UNCHANGED <<xs, obj>>
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
