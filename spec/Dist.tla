-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* The built-in distance provider as a state machine: a data set of integer*)
(* points, search objects that are opened over a sequence of search points *)
(* and closed, and queries.  Distances are compared as squared integers;   *)
(* a radius is given as rr = 2*radius^2 (so that values between two        *)
(* possible distances can be expressed), -1 = no radius.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
RangeOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSq(_, _, _)
SumSq(p, q, i) == IF i = 0 THEN 0 ELSE (p[i] - q[i]) * (p[i] - q[i]) + SumSq(p, q, i - 1)
D2(x, a, b) == SumSq(x[a], x[b], Len(x[a]))
In(rr, d2)  == rr = -1 \/ 2 * d2 <= rr

(* ---- what a query promises ---- *)
(* nn lists k distinct search points of query a: ascending, none closer left out, all within the radius *)
NNOK(x, a, Sp, k, rr, nn) ==
  LET d == [s \in RangeOf(Sp) |-> D2(x, a, s)] IN
  /\ Len(nn) = k /\ Cardinality(RangeOf(nn)) = k /\ RangeOf(nn) \subseteq RangeOf(Sp)
  /\ \A i \in 1..(k - 1) : d[nn[i]] <= d[nn[i + 1]]
  /\ \A s \in RangeOf(Sp) \ RangeOf(nn) : d[s] >= d[nn[k]]
  /\ In(rr, d[nn[k]])
HasK(x, a, Sp, k, rr) == Cardinality({s \in RangeOf(Sp) : In(rr, D2(x, a, s))}) >= k
OkQueries(x, Q, Sp, k, rr) == SelectSeq(Q, LAMBDA a : HasK(x, a, Sp, k, rr))
SearchOK(x, Q, Sp, k, rr, num, nn) ==
  LET okq == OkQueries(x, Q, Sp, k, rr) IN
  /\ num = Len(okq) /\ Len(nn) = k * num
  /\ \A i \in 1..num : NNOK(x, okq[i], Sp, k, rr, SubSeq(nn, (i - 1) * k + 1, i * k))
FarOK(x, Q, Sp, mi, d) ==
  /\ Len(mi) = Len(Q) /\ Len(d) = Len(Q)
  /\ \A i \in DOMAIN Q : /\ mi[i] \in RangeOf(Sp) /\ d[i] = D2(x, Q[i], mi[i])
                         /\ \A s \in RangeOf(Sp) : D2(x, Q[i], s) <= d[i]
RowsOK(x, Q, Co, d) ==
  /\ Len(d) = Len(Q) * Len(Co)
  /\ \A i \in DOMAIN Q, j \in DOMAIN Co : d[(i - 1) * Len(Co) + j] = D2(x, Q[i], Co[j])
RECURSIVE Upper(_, _, _)
Upper(x, Q, i) == IF i >= Len(Q) THEN <<>> ELSE [j \in 1..(Len(Q) - i) |-> D2(x, Q[i], Q[i + j])] \o Upper(x, Q, i + 1)
MatrixOK(x, Q, d) == d = Upper(x, Q, 1)

(* ---- how the code searches: an insertion-sorted list of the k best so far ---- *)
Insert(L, d, s) ==   \* after all entries not farther
  LET p == Cardinality({i \in DOMAIN L : L[i][1] <= d}) IN SubSeq(L, 1, p) \o <<<<d, s>>>> \o SubSeq(L, p + 1, Len(L))
RECURSIVE Best(_, _, _, _, _)
Best(d, i, k, rr, L) ==      \* d: distances of the search points in search order
  IF i > Len(d) THEN L
  ELSE IF Len(L) < k THEN Best(d, i + 1, k, rr, IF In(rr, d[i]) THEN Insert(L, d[i], i) ELSE L)
  ELSE IF d[i] >= L[k][1] THEN Best(d, i + 1, k, rr, L)
  ELSE Best(d, i + 1, k, rr, SubSeq(Insert(L, d[i], i), 1, k))

VARIABLES xs,    \* the points
          obj    \* open objects: id -> [kind, search points]
Closed == [kind |-> "none", sp |-> <<>>]
DInit(x)         == xs = x /\ obj = [i \in 0..5 |-> Closed]
Open(id, kd, sp) == obj[id] = Closed /\ sp # <<>> /\ obj' = [obj EXCEPT ![id] = [kind |-> kd, sp |-> sp]] /\ UNCHANGED xs
Shut(id, kd)     == obj[id].kind = kd /\ obj' = [obj EXCEPT ![id] = Closed] /\ UNCHANGED xs
Query(P)         == P = TRUE /\ UNCHANGED <<xs, obj>>
=============================================================================
