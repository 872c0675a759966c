------------------------------- MODULE MC_Dist -------------------------------
(* The search algorithm meets the promise for every vector of distances.     *)
EXTENDS Dist
CONSTANTS M, DMAX
VARIABLES d, k, rr
vs == <<xs, obj, d, k, rr>>
\* points on a line: query at 0, search points at distance sqrt(d) cannot be integer in general, so the promise is restated on d
Init == /\ k \in 1..M /\ rr \in {-1} \cup 0..(2 * DMAX + 1) /\ d = <<>>
        /\ xs = <<>> /\ obj = <<>>
Next == /\ Len(d) < M /\ \E v \in 0..DMAX : d' = Append(d, v)
        /\ UNCHANGED <<k, rr, xs, obj>>
Spec == Init /\ [][Next]_vs
Got == Best(d, 1, k, rr, <<>>)
Within == {i \in DOMAIN d : In(rr, d[i])}
Right == (Len(d) >= k) =>
  /\ (Cardinality(Within) >= k) <=> (Len(Got) = k)
  /\ Len(Got) = k =>
       /\ Cardinality({Got[i][2] : i \in 1..k}) = k
       /\ \A i \in 1..k : Got[i][1] = d[Got[i][2]] /\ Got[i][2] \in Within
       /\ \A i \in 1..(k - 1) : Got[i][1] <= Got[i + 1][1]
       /\ \A j \in DOMAIN d : (\A i \in 1..k : Got[i][2] # j) => d[j] >= Got[k][1]
  /\ Len(Got) < k => {Got[i][2] : i \in DOMAIN Got} = Within
=============================================================================
