------------------------------ MODULE NngLine ------------------------------
(***************************************************************************)
(* The outcome of scc_sc_clustering on thousands of points, for points on  *)
(* a line, where neighbourhoods are windows of the sorted order and every  *)
(* condition can be evaluated in time linear in n.  It states declaratively*)
(* what the machine Nng reaches step by step; MC_Line checks that it holds *)
(* of every outcome of Nng.                                                *)
(* An instance x, in ranks 1..n of the sorted order:                       *)
(*   xs  coordinate by rank      pt, rk  rank -> point, point -> rank      *)
(*   el  point -> 1 if eligible  tl, tc  types                             *)
(*   size, rs, sm, pum, sum, rp, rq as in NngGeom                          *)
(* A certificate (computed from the recorded labels, verified here):       *)
(*   sd  label -> rank of its seed       own  rank -> rank of the seed     *)
(*   so  seeds by ascending point index       whose window it is in, or 0  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
LMax(a, b) == IF a > b THEN a ELSE b

LineOK(x) == /\ Len(x.xs) = x.n /\ Len(x.pt) = x.n /\ Len(x.rk) = x.n
             /\ \A r \in 1..(x.n - 1) : x.xs[r] < x.xs[r + 1]
             /\ \A r \in 1..x.n : x.rk[x.pt[r]] = r
Dr(x, a, b) == Abs(x.xs[a] - x.xs[b])

(* the size nearest ranks of r are a window around it *)
RECURSIVE Grow(_, _, _, _)
Grow(x, r, a, b) ==
  IF b - a + 1 = x.size THEN <<a, b>>
  ELSE IF a = 1 THEN Grow(x, r, a, b + 1)
  ELSE IF b = x.n THEN Grow(x, r, a - 1, b)
  ELSE IF Dr(x, a - 1, r) < Dr(x, b + 1, r) THEN Grow(x, r, a - 1, b) ELSE Grow(x, r, a, b + 1)
Span(x, r, w) == LMax(Dr(x, w[1], r), Dr(x, w[2], r))
NoTie(x, r, w) == /\ w[1] = 1 \/ Dr(x, w[1] - 1, r) > Span(x, r, w)
                  /\ w[2] = x.n \/ Dr(x, w[2] + 1, r) > Span(x, r, w)
None == <<1, 0>>
Window(x, r) == LET w == Grow(x, r, r, r) IN
  IF x.el[x.pt[r]] = 0 \/ (x.rs # -1 /\ Span(x, r, w) > x.rs) THEN None ELSE w
Windows(x) == [r \in 1..x.n |-> Window(x, r)]
TieFreeLine(x) == \A r \in 1..x.n : NoTie(x, r, Grow(x, r, r, r))
Is(W, r) == W[r] # None
Rng(w)   == w[1]..w[2]

LKey(x, W, r) ==
  CASE x.sm = 0 -> x.pt[r]
    [] x.sm = 2 -> Cardinality({u \in LMax(1, r - x.size)..(IF r + x.size > x.n THEN x.n ELSE r + x.size) : u # r /\ Is(W, u) /\ r \in Rng(W[u])})
    [] x.sm = 4 -> Cardinality({u \in LMax(1, r - 2 * x.size)..(IF r + 2 * x.size > x.n THEN x.n ELSE r + 2 * x.size) :
                                 u # r /\ Is(W, u) /\ W[u][1] <= W[r][2] /\ W[r][1] <= W[u][2]})
    [] OTHER -> 0
(* labels by rank *)
Lr(x, L, r) == L[x.pt[r]]

(* the certificate describes disjoint neighbourhoods, one per cluster *)
SeedsFit(x, W, c) ==
  /\ Len(c.sd) = c.k
  /\ \A l \in 1..c.k : c.sd[l] \in 1..x.n /\ Is(W, c.sd[l]) /\ \A q \in Rng(W[c.sd[l]]) : Lr(x, c.lab, q) = l - 1 /\ c.own[q] = c.sd[l]
  /\ \A r \in 1..x.n : c.own[r] # 0 => Lr(x, c.lab, r) \in 0..(c.k - 1) /\ c.own[r] = c.sd[Lr(x, c.lab, r) + 1] /\ r \in Rng(W[c.own[r]])
(* no further eligible point has a neighbourhood disjoint from all of them *)
Packed(x, W, c)  == \A r \in 1..x.n : Is(W, r) => \E q \in Rng(W[r]) : c.own[q] # 0
(* static orders: whoever is not a seed met an earlier (or tied) seed *)
Ordered(x, W, c) == LET K == [r \in 1..x.n |-> IF Is(W, r) THEN LKey(x, W, r) ELSE 0] IN
  \A r \in 1..x.n : Is(W, r) => \E q \in Rng(W[r]) : c.own[q] # 0 /\ K[c.own[q]] <= K[r]

(* ---- leftovers ---- *)
RECURSIVE GoLeft(_, _, _), GoRight(_, _, _, _)
GoLeft(own, r, s)     == IF r = 0 THEN 0 ELSE IF own[r] # 0 /\ (~s \/ own[r] = r) THEN r ELSE GoLeft(own, r - 1, s)
GoRight(own, r, s, n) == IF r > n THEN 0 ELSE IF own[r] # 0 /\ (~s \/ own[r] = r) THEN r ELSE GoRight(own, r + 1, s, n)
Close(x, c, r, seedsOnly) ==
  LET S == {GoLeft(c.own, r - 1, seedsOnly), GoRight(c.own, r + 1, seedsOnly, x.n)} \ {0}
  IN {q \in S : \A u \in S : Dr(x, r, q) <= Dr(x, r, u)}
LTargets(x, W, c, r, m) ==
  CASE m = 0 -> {} [] m = 1 -> {q \in Rng(W[r]) : c.own[q] # 0} [] m = 2 -> Close(x, c, r, FALSE) [] m = 3 -> Close(x, c, r, TRUE)
(* estimated radius Num/Den: the mean over an even sample of at most about a thousand (max 1999) seeds *)
Step(c)  == IF Len(c.so) > 1000 THEN Len(c.so) \div 1000 ELSE 1
Taken(c) == (Len(c.so) + Step(c) - 1) \div Step(c)
RECURSIVE SumF(_, _, _)
SumF(f, i, n) == IF i > n THEN 0 ELSE f[i] + SumF(f, i + 1, n)
RECURSIVE SumTree(_, _, _)
SumTree(f, a, b) == IF b - a < 8 THEN SumF(f, a, b) ELSE LET m == (a + b) \div 2 IN SumTree(f, a, m) + SumTree(f, m + 1, b)
LNum(x, W, c) == LET f == [i \in 1..Taken(c) |-> LET r == c.so[1 + (i - 1) * Step(c)] IN
                              SumF([q \in Rng(W[r]) |-> Dr(x, r, q)], W[r][1], W[r][2])]
                 IN SumTree(f, 1, Taken(c))
LDen(x, c) == Taken(c) * (x.size - 1)
SortedSeeds(x, c) == /\ Len(c.so) = c.k /\ \A i \in 1..c.k : c.own[c.so[i]] = c.so[i]
                     /\ \A i \in 1..(c.k - 1) : x.pt[c.so[i]] < x.pt[c.so[i + 1]]
\* 1 inside, 0 outside, 2 on a rounded boundary;  e = <<num, den>>
LIn(r, d, e) == IF r = -1 THEN 1 ELSE IF r # -2 THEN (IF d <= r THEN 1 ELSE 0)
                ELSE IF d * e[2] < e[1] THEN 1 ELSE IF d * e[2] > e[1] THEN 0 ELSE 2
LReached(x, W, c, r, m, rad, e) ==
  LET T == LTargets(x, W, c, r, m)
  IN IF T = {} THEN 0 ELSE IF m = 1 THEN 1 ELSE LIn(rad, Dr(x, r, CHOOSE q \in T : TRUE), e)
LPrim(x, W, c, r, e) == IF x.el[x.pt[r]] = 1 THEN LReached(x, W, c, r, x.pum, IF x.pum = 0 THEN -1 ELSE x.rp, e) ELSE 0
LSec(x, W, c, r, e)  == LReached(x, W, c, r, x.sum, IF x.sum = 0 THEN -1 ELSE x.rq, e)
LCover(x, W, c, r, e) ==
  LET pr == LPrim(x, W, c, r, e)  sr == LSec(x, W, c, r, e)
  IN IF Lr(x, c.lab, r) = -1 THEN pr # 1 /\ sr # 1 ELSE pr # 0 \/ sr # 0
(* some assigned point (seed) with label l no farther than the radius *)
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(x, c, r, q, d, s, rad, e) ==
  IF q = 0 \/ q > x.n \/ LIn(rad, Dr(x, r, q), e) = 0 THEN FALSE
  ELSE IF c.own[q] # 0 /\ (~s \/ c.own[q] = q) /\ Lr(x, c.lab, q) = Lr(x, c.lab, r) THEN TRUE
  ELSE Walk(x, c, r, q + d, d, s, rad, e)
LVia(x, W, c, r, m, rad, e) ==
  CASE m = 0 -> FALSE
    [] m = 1 -> x.rs = -1 \/ Walk(x, c, r, r - 1, -1, FALSE, x.rs, e) \/ Walk(x, c, r, r + 1, 1, FALSE, x.rs, e)
    [] OTHER -> rad = -1 \/ Walk(x, c, r, r - 1, -1, m = 3, rad, e) \/ Walk(x, c, r, r + 1, 1, m = 3, rad, e)
LRadius(x, W, c, r, e) ==
  \/ Lr(x, c.lab, r) = -1
  \/ x.el[x.pt[r]] = 1 /\ LVia(x, W, c, r, x.pum, x.rp, e)
  \/ LVia(x, W, c, r, x.sum, x.rq, e)
  \/ (x.el[x.pt[r]] = 0 \/ x.pum = 0) /\ x.sum = 0
LClosest(x, W, c, r, e) ==
  \/ Lr(x, c.lab, r) = -1
  \/ LET P == IF x.el[x.pt[r]] = 1 THEN {Lr(x, c.lab, q) : q \in LTargets(x, W, c, r, x.pum)} ELSE {}
         S == {Lr(x, c.lab, q) : q \in LTargets(x, W, c, r, x.sum)}
     IN IF LPrim(x, W, c, r, e) = 1 THEN Lr(x, c.lab, r) \in P ELSE IF P \cup S = {} THEN TRUE ELSE Lr(x, c.lab, r) \in P \cup S
LNeedsEst(x) == (x.pum # 0 /\ x.rp = -2) \/ (x.sum # 0 /\ x.rq = -2)
LOut(c) == {r \in DOMAIN c.own : c.own[r] = 0}
(* the seeds are those of the machine: among several explanations the first *)
First(x, W, c) == LET K == [r \in 1..x.n |-> IF Is(W, r) THEN LKey(x, W, r) ELSE 0] IN
  \A r \in 1..x.n : (Is(W, r) /\ Lr(x, c.lab, r) \in 0..(c.k - 1) /\ \A q \in Rng(W[r]) : Lr(x, c.lab, q) = Lr(x, c.lab, r)) => K[c.sd[Lr(x, c.lab, r) + 1]] <= K[r]

(* ---- seed method BATCHES: points one by one in index order; a point whose window meets earlier clusters takes the   *)
(* label of one of them (for good, unless a later cluster claims it) or stays out *)
BatchOut(x, W, c, r) ==
  IF x.pum = 0 \/ ~Is(W, r) THEN Lr(x, c.lab, r) = -1
  ELSE \E q \in Rng(W[r]) : c.own[q] # 0 /\ x.pt[c.own[q]] < x.pt[r] /\ Lr(x, c.lab, q) = Lr(x, c.lab, r)
(* the same partition under another numbering of the clusters *)
Renamed(a, b, mp) ==
  /\ Cardinality({mp[i] : i \in DOMAIN mp}) = Len(mp)
  /\ \A p \in DOMAIN a : IF a[p] = -1 THEN b[p] = -1 ELSE mp[a[p] + 1] = b[p]

(* ---- sizes and types through witnesses: per cluster (and type) ascending lists of members ---- *)
Ascending(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
Counted(c, size) == /\ c.k >= 1 /\ Len(c.wit) = c.k
                    /\ \A l \in 1..c.k : Len(c.wit[l]) >= size /\ Ascending(c.wit[l]) /\ \A i \in DOMAIN c.wit[l] : c.lab[c.wit[l][i]] = l - 1
                    /\ \A p \in DOMAIN c.lab : c.lab[p] \in -1..(c.k - 1)
CountedT(c, tc, tl) == \A l \in 1..c.k : \A t \in 1..Len(tc) :
                         /\ Len(c.witt[l][t]) >= tc[t] /\ Ascending(c.witt[l][t])
                         /\ \A i \in DOMAIN c.witt[l][t] : c.lab[c.witt[l][t][i]] = l - 1 /\ tl[c.witt[l][t][i]] = t
=============================================================================
