-------------------------------- MODULE Hier --------------------------------
(***************************************************************************)
(* scc_hierarchical_clustering: clusters of at least 2*size points are     *)
(* split in two until none is left.  Instance record h:                    *)
(*   n, size, batch (BOOLEAN), D, prio, ord as in NngGeom                  *)
(*   lab0  the labels of the input clustering (-1 unassigned), k0 its      *)
(*         number of clusters; k0 = 0: an empty clustering, all points are *)
(*         one cluster                                                     *)
(***************************************************************************)
EXTENDS NngGeom
VARIABLES pend,   \* clusters not looked at yet (sets of points)
          fin,    \* clusters that are final
          work    \* the split in progress: centres a, b, their parts A, B, and the rest R
hvars == <<pend, fin, work>>
Idle == <<>>

InputClusters(h) == IF h.k0 = 0 THEN {Pts(h)}
                    ELSE {{p \in Pts(h) : h.lab0[p] = c} : c \in 0..(h.k0 - 1)} \ {{}}
HStart(h) == pend = InputClusters(h) /\ fin = {} /\ work = Idle

RECURSIVE LastIn(_, _, _)
LastIn(q, i, S) == IF q[i] \in S THEN q[i] ELSE LastIn(q, i - 1, S)
(* pairs of which each is a farthest point of the other *)
Mutual(h, S) == LET F == TLCEval([a \in S |-> h.D[a][LastIn(h.ord[a], h.n, S)]])
                IN {c \in S \X S : c[1] < c[2] /\ h.D[c[1]][c[2]] = F[c[1]] /\ h.D[c[1]][c[2]] = F[c[2]]}
(* the k nearest points of v among R *)
Take(h, v, R, k) == SubSeq(SelectSeq(h.ord[v], LAMBDA p : p \in R), 1, k)
LastD(h, v, T)   == h.D[v][T[Len(T)]]

(* first turn: the centre whose (size-1)-th nearest point is farther chooses first, then the other *)
Opened(h, S, a, b) ==
  LET R  == S \ {a, b}
      k  == h.size - 1
      ta == Take(h, a, R, k)
      tb == Take(h, b, R, k)
  IN IF LastD(h, a, ta) >= LastD(h, b, tb)
     THEN LET R1 == R \ RangeOf(ta)  t2 == Take(h, b, R1, k)
          IN [a |-> a, b |-> b, A |-> {a} \cup RangeOf(ta), B |-> {b} \cup RangeOf(t2), R |-> R1 \ RangeOf(t2)]
     ELSE LET R1 == R \ RangeOf(tb)  t2 == Take(h, a, R1, k)
          IN [a |-> a, b |-> b, A |-> {a} \cup RangeOf(t2), B |-> {b} \cup RangeOf(tb), R |-> R1 \ RangeOf(t2)]
Open(h, S, c) ==
  /\ work = Idle /\ S \in pend /\ Cardinality(S) >= 2 * h.size /\ c \in Mutual(h, S)
  /\ work' = Opened(h, S, c[1], c[2]) /\ pend' = pend \ {S} /\ UNCHANGED fin
(* the next group goes to the centre that is closer to the last point of it *)
Hand(h) ==
  /\ work # Idle /\ work.R # {}
  /\ LET k  == IF h.batch THEN Min2(h.size, Cardinality(work.R)) ELSE 1
         ta == Take(h, work.a, work.R, k)
         tb == Take(h, work.b, work.R, k)
     IN work' = IF LastD(h, work.a, ta) <= LastD(h, work.b, tb)
                THEN [work EXCEPT !.A = @ \cup RangeOf(ta), !.R = @ \ RangeOf(ta)]
                ELSE [work EXCEPT !.B = @ \cup RangeOf(tb), !.R = @ \ RangeOf(tb)]
  /\ UNCHANGED <<pend, fin>>
Close(h) ==
  /\ work # Idle /\ work.R = {}
  /\ pend' = pend \cup {work.A, work.B} /\ work' = Idle /\ UNCHANGED fin
Keep(h, S) ==
  /\ work = Idle /\ S \in pend /\ Cardinality(S) < 2 * h.size
  /\ pend' = pend \ {S} /\ fin' = fin \cup {S} /\ UNCHANGED work

(* ---- properties over an outcome: labels L with K clusters ---- *)
Clus(L, K) == {{p \in DOMAIN L : L[p] = c} : c \in 0..(K - 1)}
H_C10(h, K, L) ==       \* empty input
  /\ K >= 1 /\ \A p \in DOMAIN L : L[p] \in 0..(K - 1)
  /\ \A c \in 0..(K - 1) : Cardinality({p \in DOMAIN L : L[p] = c}) \in h.size..(2 * h.size - 1)
H_C11(h, K, L) ==       \* existing input
  /\ \A p \in DOMAIN L : (L[p] = -1) <=> (h.lab0[p] = -1)
  /\ \A p \in DOMAIN L : L[p] \in -1..(K - 1)
  /\ \A c \in 0..(K - 1) :
       LET S == {p \in DOMAIN L : L[p] = c} IN
       /\ S # {}
       /\ LET o == h.lab0[CHOOSE p \in S : TRUE]
              n0 == Cardinality({p \in DOMAIN L : h.lab0[p] = o})
          IN /\ \A p \in S : h.lab0[p] = o
             /\ IF n0 < 2 * h.size THEN Cardinality(S) = n0
                ELSE Cardinality(S) \in h.size..(2 * h.size - 1)
=============================================================================
