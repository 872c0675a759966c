---------------------------- MODULE Trace_Batch ----------------------------
(* Recorded runs with seed method BATCHES, one instance run with several   *)
(* batch sizes: each run must be a behaviour of the one-by-one machine,    *)
(* and all runs must give the same partition.                              *)
EXTENDS Batch, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
VARIABLES ci, ri
tvars == <<ci, ri, cur, basg, blab, bk>>
Slot(c, r) == 100 * c + r
ASSUME \A c \in 1..NC : \A r \in 1..Len(Cases[c].runs) : TLCSet(Slot(c, r), FALSE)
X == Cases[ci].x
R == Cases[ci].runs[ri]
TInit == /\ ci \in 1..NC /\ ri \in 1..Len(Cases[ci].runs) /\ Cases[ci].runs[ri].crash = 0
         /\ ((ri = 1 => CertOK(Cases[ci].x)) = TRUE) /\ BStart(Cases[ci].x)
Step == /\ cur <= X.n /\ cur' = cur + 1 /\ UNCHANGED <<ci, ri>>
        /\ IF R.ec # OK THEN ~Founds(X, cur) /\ UNCHANGED <<basg, blab, bk>>
           ELSE \/ /\ R.lab[cur] # -1 /\ R.lab[cur] \notin {blab[p] : p \in basg}
                   /\ \A p \in RangeOf(WithSelf(NearK(X, cur), cur)) : R.lab[p] = R.lab[cur]
                   /\ Found(X, cur, R.lab[cur])
                \* a later cluster may claim the point; then the preliminary label is not observable
                \/ \E l \in {blab[p] : p \in basg} : Join(X, cur, l) /\ (R.lab[cur] \in {blab[p] : p \in basg} => l = R.lab[cur] \/ R.lab[cur] \notin {blab[q] : q \in RangeOf(NearK(X, cur)) \cap basg})
                \/ Pass(X, cur)
End  == /\ cur = X.n + 1 /\ cur' = cur + 1 /\ UNCHANGED <<ci, ri, basg, blab, bk>>
        /\ IF R.ec = OK THEN bk >= 1 /\ R.k = bk /\ \A p \in Pts(X) : blab[p] = R.lab[p]
           ELSE R.ec = NO_SOLUTION /\ bk = 0 /\ R.k = 0
        /\ TLCSet(Slot(ci, ri), TRUE)
TNext == ~TLCGet(Slot(ci, ri)) /\ (Step \/ End)
TSpec == TInit /\ [][TNext]_tvars
Verdict(c) ==
  /\ \A r \in 1..Len(Cases[c].runs) : Cases[c].runs[r].crash = 0 /\ TLCGet(Slot(c, r))
  /\ \A r \in 2..Len(Cases[c].runs) : SamePartition(Cases[c].runs[1].lab, Cases[c].runs[r].lab)
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~Verdict(c)}>>)
=============================================================================
