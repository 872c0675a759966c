------------------------------ MODULE MC_Hier ------------------------------
EXTENDS Hier
CONSTANTS NPts, DMax
VARIABLES h
vars == <<h, pend, fin, work>>
N == NPts
Pairs == {pr \in (1..N) \X (1..N) : pr[1] > pr[2]}
Mat(f) == [a \in 1..N |-> [b \in 1..N |-> IF a = b THEN 0 ELSE IF a > b THEN f[<<a, b>>] ELSE f[<<b, a>>]]]
RECURSIVE Sorted(_, _, _, _)
Sorted(D, pr, v, S) == IF S = {} THEN <<>> ELSE
  LET m == CHOOSE a \in S : \A b \in S : D[v][a] < D[v][b] \/ (D[v][a] = D[v][b] /\ pr[a] <= pr[b])
  IN <<m>> \o Sorted(D, pr, v, S \ {m})
(* input clusterings: empty; one cluster; an unassigned point; an empty label *)
Inputs == {<<0, [p \in 1..N |-> -1]>>, <<1, [p \in 1..N |-> 0]>>,
           <<2, [p \in 1..N |-> IF p = 2 THEN -1 ELSE 1]>>, <<2, [p \in 1..N |-> IF p = 1 THEN 0 ELSE 1]>>}
Init == /\ \E f \in [Pairs -> 0..DMax], ba \in BOOLEAN, in \in Inputs :
             LET D == Mat(f)  pr == [p \in 1..N |-> p] IN
             h = [n |-> N, size |-> 2, batch |-> ba, D |-> D, prio |-> pr, ord |-> [v \in 1..N |-> Sorted(D, pr, v, 1..N)],
                  k0 |-> in[1], lab0 |-> in[2]]
        /\ HStart(h)
Next == /\ UNCHANGED h
        /\ \/ \E S \in pend : Keep(h, S) \/ \E c \in Mutual(h, S) : Open(h, S, c)
           \/ Hand(h) \/ Close(h)
Spec == Init /\ [][Next]_vars
(* labels of the final clusters in any fixed order *)
RECURSIVE Number(_, _, _)
Number(F, k, L) == IF F = {} THEN L ELSE
  LET S == CHOOSE S \in F : TRUE IN Number(F \ {S}, k + 1, [p \in DOMAIN L |-> IF p \in S THEN k ELSE L[p]])
Done == pend = {} /\ work = Idle
OutL == Number(fin, 0, [p \in 1..N |-> -1])
I_C10 == (Done /\ h.k0 = 0) => H_C10(h, Cardinality(fin), OutL)
I_C11 == (Done /\ h.k0 > 0) => H_C11(h, Cardinality(fin), OutL)
(* every split is possible and makes progress *)
I_Split ==
  /\ work = Idle => \A S \in pend : Cardinality(S) >= 2 * h.size => Mutual(h, S) # {}
  /\ work # Idle => /\ work.A \cap work.B = {} /\ (work.A \cup work.B) \cap work.R = {}
                    /\ Cardinality(work.A) >= h.size /\ Cardinality(work.B) >= h.size /\ work.a \in work.A /\ work.b \in work.B
(* no point is ever lost or taken twice *)
I_Whole == LET All == pend \cup fin \cup (IF work = Idle THEN {} ELSE {work.A, work.B, work.R} \ {{}})
           IN UNION All = UNION InputClusters(h) /\ \A S, T \in All : S # T => S \cap T = {}
=============================================================================
