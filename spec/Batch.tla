------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Seed method BATCHES.  The abstract machine looks at the points one at a *)
(* time in index order; the batched machine (MC_Batch) fetches groups of   *)
(* batch_size points and searches before it processes them.                *)
(***************************************************************************)
EXTENDS NngGeom
VARIABLES cur,    \* next point to look at
          basg,   \* points that belong to a cluster for good
          blab,   \* labels, preliminary for points not in basg; -1 none
          bk      \* number of clusters
bvars == <<cur, basg, blab, bk>>

BStart(x) == cur = 1 /\ basg = {} /\ bk = 0 /\ blab = [p \in Pts(x) |-> -1]

NearK(x, v)  == Near(x, v, Pts(x), x.size)
HasNN(x, v)  == v \in Elig(x) /\ Reaches(x, v, NearK(x, v), x.size)
Founds(x, v) == HasNN(x, v) /\ v \notin basg /\ RangeOf(NearK(x, v)) \cap basg = {}
Joins(x, v)  == HasNN(x, v) /\ v \notin basg /\ ~Founds(x, v) /\ x.pum = ANY_NEIGHBOR

(* v founds a cluster labelled l *)
Found(x, v, l) ==
  /\ Founds(x, v)
  /\ LET C == RangeOf(WithSelf(NearK(x, v), v))
     IN basg' = basg \cup C /\ blab' = [p \in DOMAIN blab |-> IF p \in C THEN l ELSE blab[p]]
  /\ bk' = bk + 1
(* v gets, for now, the label of one of its neighbours that has a cluster *)
Join(x, v, l) ==
  /\ Joins(x, v)
  /\ l \in {blab[q] : q \in RangeOf(NearK(x, v)) \cap basg}
  /\ blab' = [blab EXCEPT ![v] = l] /\ UNCHANGED <<basg, bk>>
Pass(x, v) == ~Founds(x, v) /\ ~Joins(x, v) /\ UNCHANGED <<basg, blab, bk>>

(* the same as a function, with the nearest assigned neighbour as the choice *)
RECURSIVE Greedy(_, _, _, _, _)
Greedy(x, v, A, L, k) ==
  IF v > x.n THEN [lab |-> L, k |-> k]
  ELSE IF v \in A \/ ~HasNN(x, v) THEN Greedy(x, v + 1, A, L, k)
  ELSE LET N == NearK(x, v) IN
       IF RangeOf(N) \cap A = {}
       THEN LET C == RangeOf(WithSelf(N, v))
            IN Greedy(x, v + 1, A \cup C, [p \in DOMAIN L |-> IF p \in C THEN k ELSE L[p]], k + 1)
       ELSE IF x.pum # ANY_NEIGHBOR THEN Greedy(x, v + 1, A, L, k)
       ELSE LET q == SelectSeq(N, LAMBDA p : p \in A)[1] IN Greedy(x, v + 1, A, [L EXCEPT ![v] = L[q]], k)
GreedyResult(x) == Greedy(x, 1, {}, [p \in Pts(x) |-> -1], 0)

SamePartition(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A p \in DOMAIN a : (a[p] = -1) <=> (b[p] = -1)
  /\ \A p, q \in DOMAIN a : (a[p] = a[q]) <=> (b[p] = b[q])
=============================================================================
