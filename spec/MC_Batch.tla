------------------------------ MODULE MC_Batch ------------------------------
(* The batched machine, for every batch size, gives the one-by-one result. *)
EXTENDS Batch
CONSTANTS NPts, DMax
VARIABLES inst, bsz, batch, at
vars == <<inst, bsz, batch, at, cur, basg, blab, bk>>
N == NPts
Pairs == {pr \in (1..N) \X (1..N) : pr[1] > pr[2]}
Mat(f) == [a \in 1..N |-> [b \in 1..N |-> IF a = b THEN 0 ELSE IF a > b THEN f[<<a, b>>] ELSE f[<<b, a>>]]]
RECURSIVE Sorted(_, _, _, _)
Sorted(D, pr, v, S) == IF S = {} THEN <<>> ELSE
  LET m == CHOOSE a \in S : \A b \in S : D[v][a] < D[v][b] \/ (D[v][a] = D[v][b] /\ pr[a] <= pr[b])
  IN <<m>> \o Sorted(D, pr, v, S \ {m})
EligSet == {[i \in 1..N |-> i], <<1, 2>>, [i \in 1..(N - 1) |-> i + 1], <<N>>}
Init == /\ \E f \in [Pairs -> 0..DMax], rev \in BOOLEAN, sz \in {2, 3}, el \in EligSet, pu \in {IGNORE, ANY_NEIGHBOR}, rs \in {-1, 1} :
             LET D == Mat(f)  pr == [p \in 1..N |-> IF rev THEN N + 1 - p ELSE p] IN
             inst = [n |-> N, size |-> sz, D |-> D, prio |-> pr, ord |-> [v \in 1..N |-> Sorted(D, pr, v, 1..N)],
                     elig |-> el, tc |-> <<>>, tl |-> <<>>, rs |-> rs, sm |-> BATCHES, pum |-> pu, sum |-> IGNORE, rp |-> rs, rq |-> rs]
        /\ bsz \in 1..N /\ batch = <<>> /\ at = 1 /\ BStart(inst)

(* the next eligible points that are unassigned when the batch is put together *)
Fetch == /\ at > Len(batch) /\ cur <= N
         /\ LET todo == SelectSeq([i \in 1..(N - cur + 1) |-> cur + i - 1], LAMBDA p : p \in Elig(inst) /\ p \notin basg)
                got  == SubSeq(todo, 1, Min2(bsz, Len(todo)))
            IN /\ cur' = IF Len(todo) <= bsz THEN N + 1 ELSE got[bsz] + 1
               /\ batch' = SelectSeq(got, LAMBDA p : HasNN(inst, p))     \* the search drops the others
         /\ at' = 1 /\ UNCHANGED <<inst, bsz, basg, blab, bk>>
First(v) == SelectSeq(NearK(inst, v), LAMBDA p : p \in basg)[1]
Process == /\ at <= Len(batch)
           /\ LET v == batch[at] IN
              IF v \in basg THEN UNCHANGED <<basg, blab, bk>>
              ELSE Found(inst, v, bk) \/ (Joins(inst, v) /\ Join(inst, v, blab[First(v)])) \/ Pass(inst, v)
           /\ at' = at + 1 /\ UNCHANGED <<inst, bsz, batch, cur>>
Next == Fetch \/ Process
Spec == Init /\ [][Next]_vars
Done == cur > N /\ at > Len(batch)
I_Same == Done => blab = GreedyResult(inst).lab /\ bk = GreedyResult(inst).k
I_Sizes == Done => \A c \in 0..(bk - 1) : Cardinality({p \in 1..N : blab[p] = c}) >= inst.size
=============================================================================
