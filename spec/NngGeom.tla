------------------------------ MODULE NngGeom ------------------------------
(***************************************************************************)
(* Geometry and derived notions of size-constrained clustering by nearest  *)
(* neighbour graphs.  Everything is a function of an instance record x:    *)
(*   n       number of points 1..n            size   size constraint       *)
(*   D       D[a][b] distance (scaled int)    prio   tie priority of points*)
(*   ord     ord[v]: all points by (distance to v, prio) - a certificate   *)
(*   elig    the eligible (primary) points, as a sequence                  *)
(*   tc, tl  minimum per type; type of each point (types 1..Len(tc));      *)
(*           Len(tc) = 0 when there are no type constraints                *)
(*   rs      seed radius (-1: none)                                        *)
(*   sm      seed method      pum, sum  methods for leftover points        *)
(*   rp, rq  radius of primary / secondary leftovers (-1 none, -2 est.)    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoRadius  == -1
Estimated == -2

LEXICAL == 0  BATCHES == 1  INWARDS_ORDER == 2  INWARDS_UPDATING == 3
EXCLUSION_ORDER == 4  EXCLUSION_UPDATING == 5
IGNORE == 0  ANY_NEIGHBOR == 1  CLOSEST_ASSIGNED == 2  CLOSEST_SEED == 3
OK == 0  INVALID_INPUT == 2  NO_MEMORY == 3  NO_SOLUTION == 4  TOO_LARGE == 5
DIST_ERROR == 6  NOT_IMPLEMENTED == 7

RangeOf(s) == {s[i] : i \in DOMAIN s}
Pts(x)     == 1..x.n
Elig(x)    == RangeOf(x.elig)
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumOver(f, S \ {e})

(* the neighbour orders supplied with a case are checked, not trusted *)
Before(x, v, a, b) == x.D[v][a] < x.D[v][b] \/ (x.D[v][a] = x.D[v][b] /\ x.prio[a] < x.prio[b])
CertD(x) == \A v \in Pts(x) : x.D[v][v] = 0 /\ \A w \in Pts(x) : x.D[v][w] = x.D[w][v] /\ x.D[v][w] >= 0
CertOK(x) ==
  /\ Cardinality({x.prio[p] : p \in Pts(x)}) = x.n
  /\ \A v \in Pts(x) :
       /\ Len(x.ord[v]) = x.n
       /\ \A i \in 1..(x.n - 1) : Before(x, v, x.ord[v][i], x.ord[v][i + 1])
  /\ CertD(x)

Within(x, v, w, r) == r = NoRadius \/ x.D[v][w] <= r

(* the k nearest points of v among S, nearest first *)
Near(x, v, S, k) == LET q == SelectSeq(x.ord[v], LAMBDA p : p \in S) IN SubSeq(q, 1, Min2(k, Len(q)))
Reaches(x, v, L, k) == Len(L) = k /\ (k = 0 \/ Within(x, v, L[k], x.rs))
WithSelf(L, v) == IF v \in RangeOf(L) THEN L ELSE [L EXCEPT ![Len(L)] = v]

NumTypes(x)  == Len(x.tc)
SumTypes(x)  == SumSeq(x.tc)
OfType(x, t) == {p \in Pts(x) : x.tl[p] = t}
Typed(x)     == NumTypes(x) >= 2 /\ SumTypes(x) > 0

(* Required neighbours of v (without v itself); {} when v cannot be a seed. *)
HoodUntyped(x, v) ==
  LET L == Near(x, v, Pts(x), x.size)
  IN IF ~Reaches(x, v, L, x.size) THEN {} ELSE RangeOf(WithSelf(L, v)) \ {v}

HoodTyped(x, v) ==
  LET need == {t \in 1..NumTypes(x) : x.tc[t] > 0}
      Lt(t) == Near(x, v, OfType(x, t), x.tc[t])
      Mt(t) == IF x.tl[v] = t THEN WithSelf(Lt(t), v) ELSE Lt(t)
      U    == UNION {RangeOf(Mt(t)) : t \in need}
      ext  == x.size - SumTypes(x)
      L    == Near(x, v, Pts(x), x.size)
      E    == SelectSeq(L, LAMBDA p : p \notin U)
  IN IF \E t \in need : ~Reaches(x, v, Lt(t), x.tc[t]) THEN {}
     ELSE IF ext = 0 THEN U \ {v}
     ELSE IF ~Reaches(x, v, L, x.size) THEN {}
     ELSE (U \cup RangeOf(SubSeq(E, 1, Min2(ext, Len(E))))) \ {v}

Graph(x) == [v \in Pts(x) |-> IF v \notin Elig(x) THEN {}
                              ELSE IF Typed(x) THEN HoodTyped(x, v) ELSE HoodUntyped(x, v)]

(* declarative feasibility, independent of the construction above *)
Feasible1(x, v) ==
  LET in(S) == Cardinality({p \in S : Within(x, v, p, x.rs)})
  IN /\ \A t \in 1..NumTypes(x) : in(OfType(x, t)) >= x.tc[t]
     /\ (~Typed(x) \/ SumTypes(x) < x.size) => in(Pts(x)) >= x.size
TypeShort(x) == \E t \in 1..NumTypes(x) : Cardinality(OfType(x, t)) < x.tc[t]
TypeOver(x)  == SumTypes(x) > x.size

(* ---- seeding ---- g is the graph, A the points assigned so far ---- *)
Arcs(g)            == {v \in DOMAIN g : g[v] # {}}
Free(g, A)         == {v \in Arcs(g) : v \notin A /\ g[v] \cap A = {}}
InDeg(g, v)        == Cardinality({u \in DOMAIN g : v \in g[u]})
Hood(g, v)         == g[v] \cup {v}
Excludes(g, u, v)  == u # v /\ Hood(g, u) \cap Hood(g, v) # {}
ExclDeg(g, v, S)   == Cardinality({u \in S : Excludes(g, u, v)})

(* points a seed method may take as its next seed *)
NextSeeds(x, g, A) ==
  LET F == Free(g, A)
      key(v) == CASE x.sm = LEXICAL            -> v
                  [] x.sm = INWARDS_ORDER      -> InDeg(g, v)
                  [] x.sm = EXCLUSION_ORDER    -> ExclDeg(g, v, Arcs(g))
                  [] x.sm = EXCLUSION_UPDATING -> ExclDeg(g, v, F)
                  [] OTHER                     -> 0
      K == TLCEval([v \in F |-> key(v)])
  IN {v \in F : \A u \in F : K[v] <= K[u]}

(* INWARDS_UPDATING looks at one candidate at a time; `con` are those already looked at *)
Candidates(g, A, con) == {v \in Arcs(g) : v \notin A /\ v \notin con}
UpdDeg(g, A, con, v)  == Cardinality({u \in DOMAIN g : v \in g[u] /\ u \notin A /\ u \notin con})
NextCandidates(g, A, con) ==
  LET C == Candidates(g, A, con)
      K == TLCEval([v \in C |-> UpdDeg(g, A, con, v)])
  IN {v \in C : \A u \in C : K[v] <= K[u]}

(* ---- leftovers ---- *)
(* estimated radius = Num/Den, mean over seeds of the mean distance to the seed's neighbours *)
EstDen(x, sd)    == Len(sd) * x.size * (x.size - 1)
EstNum(x, g, sd) ==
  LET L    == x.size * (x.size - 1)
      f(s) == SumOver([q \in g[s] |-> x.D[s][q]], g[s]) * (L \div Cardinality(g[s]))
  IN SumSeq([i \in 1..Len(sd) |-> f(sd[i])])
\* 1 inside, 0 outside, 2 on the boundary of an estimated (rounded) radius
InRad(x, g, sd, r, d) ==
  IF r = NoRadius THEN 1
  ELSE IF r # Estimated THEN (IF d <= r THEN 1 ELSE 0)
  ELSE LET a == d * EstDen(x, sd)  b == EstNum(x, g, sd)
       IN IF a < b THEN 1 ELSE IF a > b THEN 0 ELSE 2

Closest(x, p, S) == {q \in S : \A u \in S : x.D[p][q] <= x.D[p][u]}
Targets(x, g, A, sd, p, m) ==
  CASE m = IGNORE           -> {}
    [] m = ANY_NEIGHBOR     -> g[p] \cap A
    [] m = CLOSEST_ASSIGNED -> Closest(x, p, A)
    [] m = CLOSEST_SEED     -> Closest(x, p, RangeOf(sd))
(* 1 reached, 0 not reached, 2 either *)
Reached(x, g, A, sd, p, m, r) ==
  LET T == Targets(x, g, A, sd, p, m)
  IN IF T = {} THEN 0 ELSE IF m = ANY_NEIGHBOR THEN 1
     ELSE InRad(x, g, sd, r, x.D[p][CHOOSE q \in T : TRUE])

RP(x) == IF x.pum = IGNORE THEN NoRadius ELSE x.rp
RQ(x) == IF x.sum = IGNORE THEN NoRadius ELSE x.rq
PrimReach(x, g, A, sd, p) == IF p \in Elig(x) THEN Reached(x, g, A, sd, p, x.pum, RP(x)) ELSE 0
SecReach(x, g, A, sd, p)  == Reached(x, g, A, sd, p, x.sum, RQ(x))
NeedsEst(x) == RP(x) = Estimated \/ RQ(x) = Estimated

(* all labels a leftover p may get; -1 = stays unassigned *)
Allowed(x, g, A, sd, lab, p) ==
  LET pr == PrimReach(x, g, A, sd, p)
      sr == SecReach(x, g, A, sd, p)
      P  == {lab[q] : q \in Targets(x, g, A, sd, p, x.pum)}
      S  == {lab[q] : q \in Targets(x, g, A, sd, p, x.sum)}
      second == (IF sr # 0 THEN S ELSE {}) \cup (IF sr # 1 THEN {-1} ELSE {})
  IN (IF pr # 0 THEN P ELSE {}) \cup (IF pr # 1 THEN second ELSE {})

(* the three independent aspects of Allowed, each dropping the other two *)
CoverageOK(x, g, A, sd, p, l) ==
  LET pr == PrimReach(x, g, A, sd, p)  sr == SecReach(x, g, A, sd, p)
  IN IF l = -1 THEN pr # 1 /\ sr # 1 ELSE pr # 0 \/ sr # 0
RadiusVia(x, g, A, sd, lab, p, l, m, r) ==
  CASE m = IGNORE           -> FALSE
    [] m = ANY_NEIGHBOR     -> \E q \in A : lab[q] = l /\ Within(x, p, q, x.rs)
    [] m = CLOSEST_ASSIGNED -> \E q \in A : lab[q] = l /\ InRad(x, g, sd, r, x.D[p][q]) # 0
    [] m = CLOSEST_SEED     -> \E q \in RangeOf(sd) : lab[q] = l /\ InRad(x, g, sd, r, x.D[p][q]) # 0
RadiusOK(x, g, A, sd, lab, p, l) ==
  \/ l = -1
  \/ p \in Elig(x) /\ RadiusVia(x, g, A, sd, lab, p, l, x.pum, RP(x))
  \/ RadiusVia(x, g, A, sd, lab, p, l, x.sum, RQ(x))
  \/ (p \notin Elig(x) \/ x.pum = IGNORE) /\ x.sum = IGNORE       \* coverage is not this aspect's business
ClosestOK(x, g, A, sd, lab, p, l) ==
  \/ l = -1
  \/ LET pr == PrimReach(x, g, A, sd, p)
         P  == IF p \in Elig(x) THEN {lab[q] : q \in Targets(x, g, A, sd, p, x.pum)} ELSE {}
         S  == {lab[q] : q \in Targets(x, g, A, sd, p, x.sum)}
     IN IF pr = 1 THEN l \in P ELSE IF P \cup S = {} THEN TRUE ELSE l \in P \cup S
=============================================================================
