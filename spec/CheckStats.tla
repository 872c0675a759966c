----------------------------- MODULE CheckStats -----------------------------
(***************************************************************************)
(* scc_check_clustering and scc_get_clustering_stats as functions of a     *)
(* clustering (K clusters, labels L, -1 = unassigned).                     *)
(***************************************************************************)
EXTENDS Nng, SequencesExt, Functions
Abs(a) == IF a < 0 THEN -a ELSE a
(* ---- check: x has n, size, elig (all points when no primary set), prim (BOOLEAN), tc, tl ---- *)
ValidLabels(K, L) == \A p \in DOMAIN L : L[p] \in -1..(K - 1)
CheckOK(x, K, L) ==
  /\ ValidLabels(K, L)
  /\ x.prim => \A p \in Elig(x) : L[p] # -1
  /\ \A c \in 0..(K - 1) :
       /\ Cardinality(Members(L, c)) >= x.size
       /\ NumTypes(x) >= 2 => \A t \in 1..NumTypes(x) : Cardinality({p \in Members(L, c) : x.tl[p] = t}) >= x.tc[t]

(* ---- statistics; distances are D (integers) ---- *)
PairsOf(S) == {pr \in S \X S : pr[1] < pr[2]}
NumPairs(S) == (Cardinality(S) * (Cardinality(S) - 1)) \div 2
Populated(K, L) == {c \in 0..(K - 1) : Members(L, c) # {}}
MinOf(S) == CHOOSE m \in S : \A q \in S : m <= q
MaxOf(S) == CHOOSE m \in S : \A q \in S : m >= q
RECURSIVE SumRun(_, _, _)
SumRun(f, a, b) == IF a > b THEN 0 ELSE IF b - a < 6 THEN f[a] + SumRun(f, a + 1, b) ELSE LET m == (a + b) \div 2 IN SumRun(f, a, m) + SumRun(f, m + 1, b)
(* per populated cluster: size, number of pairs, sum, min, max of its pair distances *)
Clu(D, L, c) ==
  LET S == Members(L, c)  q == SetToSeq(S)  n == Len(q)
      V == UNION {{D[q[i]][q[j]] : j \in (i + 1)..n} : i \in 1..(n - 1)}
      row == [i \in 1..n |-> SumRun([j \in (i + 1)..n |-> D[q[i]][q[j]]], i + 1, n)]
  IN [size |-> n, pairs |-> NumPairs(S), sum |-> SumRun(row, 1, n),
      min |-> IF n < 2 THEN 0 ELSE MinOf(V), max |-> IF n < 2 THEN 0 ELSE MaxOf(V)]
(* Reals as fixed-point numbers <<i, f1, f2>> = i + f1/2^15 + f2/2^30 (TLC integers have 32 bits) *)
FB == 32768
Fix(num, den) == LET r == (num % den) * FB IN <<num \div den, r \div den, ((r % den) * FB) \div den>>
FAdd(a, b) == LET z == a[3] + b[3]  y == a[2] + b[2] + z \div FB IN <<a[1] + b[1] + y \div FB, y % FB, z % FB>>
FMul(a, m) == LET z == a[3] * m  y == a[2] * m + z \div FB IN <<a[1] * m + y \div FB, y % FB, z % FB>>
FDiv(a, m) == LET y == (a[1] % m) * FB + a[2]  z == (y % m) * FB + a[3] IN <<a[1] \div m, y \div m, z \div m>>
FNear(v, a) == LET h == v[1] - a[1]  m == h * FB + v[2] - a[2] IN Abs(h) <= 1 /\ Abs(m) <= 1 /\ Abs(m * FB + v[3] - a[3]) <= 4
FSum(f, S) == FoldFunctionOnSet(FAdd, <<0, 0, 0>>, f, S)
FZero == <<0, 0, 0>>
Largest == <<-9, 0, 0>>             \* the largest representable value
StatsOK(D, n, K, L, st) ==
  LET Pop  == Populated(K, L)
      C    == [c \in Pop |-> Clu(D, L, c)]
      tot(f(_)) == SumOver([c \in Pop |-> f(C[c])], Pop)
      np   == Cardinality(Pop)
      na   == Cardinality({p \in DOMAIN L : L[p] # -1})
      mean(r) == IF r.pairs = 0 THEN FZero ELSE Fix(r.sum, r.pairs)
      means    == [c \in Pop |-> mean(C[c])]
      wmeans   == [c \in Pop |-> FMul(mean(C[c]), C[c].size)]
  IN /\ st.n = n /\ st.as = na /\ st.k = K /\ st.pop = np
     /\ IF np = 0
        THEN /\ st.min = -9 /\ st.max = 0 /\ st.mind = Largest
             /\ \A v \in {st.avg, st.sum, st.maxd, st.amin, st.amax, st.aw, st.au} : v = FZero
        ELSE /\ st.min = MinOf({C[c].size : c \in Pop}) /\ st.max = MaxOf({C[c].size : c \in Pop})
             /\ FNear(st.avg, Fix(na, np))
             /\ st.sum = <<tot(LAMBDA r : r.sum), 0, 0>>
             /\ st.mind = <<MinOf({C[c].min : c \in Pop}), 0, 0>>
             /\ st.maxd = <<MaxOf({C[c].max : c \in Pop}), 0, 0>>
             /\ FNear(st.amin, Fix(tot(LAMBDA r : r.min), np))
             /\ FNear(st.amax, Fix(tot(LAMBDA r : r.max), np))
             /\ FNear(st.au, FDiv(FSum(means, Pop), np))
             /\ FNear(st.aw, FDiv(FSum(wmeans, Pop), na))
=============================================================================
