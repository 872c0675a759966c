------------------------------ MODULE Digraph ------------------------------
(***************************************************************************)
(* The neighbour-graph store of the library.  A graph is a function from   *)
(* vertices 1..V to sequences of heads (the order in the arc array).  The  *)
(* store is a set of registers; every operation of digraph_operations and  *)
(* digraph_core is an action on it.  Set-level meanings (the promise) and  *)
(* the row-marker algorithms (how the code does it) are both given;        *)
(* MC_Digraph shows that they agree on all small graphs.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Heads(s)   == {s[i] : i \in DOMAIN s}
NoDup(s)   == Cardinality(Heads(s)) = Len(s)
V(g)       == DOMAIN g
NArcs(g)   == LET RECURSIVE S(_)
                  S(i) == IF i = 0 THEN 0 ELSE Len(g[i]) + S(i - 1)
              IN S(Len(g))
NoArcs(g)  == \A v \in V(g) : g[v] = <<>>
SetOf(g)   == [v \in V(g) |-> Heads(g[v])]
IsGraph(g) == \A v \in V(g) : NoDup(g[v]) /\ Heads(g[v]) \subseteq V(g)

(* ---- what the operations promise ---- *)
LooplessG(g)        == [v \in V(g) |-> SelectSeq(g[v], LAMBDA w : w # v)]
UnionSet(gs, K, kl) == LET U == V(gs[1])
                       IN [v \in U |-> IF v \notin K THEN {}
                                       ELSE (UNION {Heads(gs[i][v]) : i \in DOMAIN gs}) \ (IF kl THEN {} ELSE {v})]
Take(s, k)          == IF Len(s) <= k THEN s ELSE SubSeq(s, 1, k)
DiffG(a, b, mx)     == [v \in V(a) |-> Take(SelectSeq(a[v], LAMBDA w : w \notin Heads(b[v])), mx)]
TransSet(g)         == [v \in V(g) |-> {w \in V(g) : v \in Heads(g[w])}]
ProdSet(a, b, fl)   == [v \in V(a) |-> ((UNION {Heads(b[w]) : w \in Heads(a[v])})
                                        \cup (IF fl THEN Heads(b[v]) ELSE {})) \ {v}]
(* a recorded graph represents a set-level graph: same arcs, each once *)
Represents(g, s) == V(g) = DOMAIN s /\ \A v \in V(g) : NoDup(g[v]) /\ Heads(g[v]) = s[v]

(* ---- how the code computes them: one marker array shared by all rows ---- *)
RECURSIVE Scan(_, _, _, _)      \* mark[w] = v: w was already written for row v
Scan(s, v, mark, out) ==
  IF s = <<>> THEN [mark |-> mark, out |-> out]
  ELSE LET w == Head(s) IN
       IF mark[w] = v THEN Scan(Tail(s), v, mark, out)
       ELSE Scan(Tail(s), v, [mark EXCEPT ![w] = v], Append(out, w))
RECURSIVE ScanAll(_, _, _, _)
ScanAll(ss, v, mark, out) ==
  IF ss = <<>> THEN [mark |-> mark, out |-> out]
  ELSE LET r == Scan(Head(ss), v, mark, out) IN ScanAll(Tail(ss), v, r.mark, r.out)
Pre(mark, v, loops) == IF loops THEN mark ELSE [mark EXCEPT ![v] = v]
RECURSIVE Rows(_, _, _, _, _)   \* Job(v): the sequences scanned for row v, or "skip"
Rows(Job(_), v, n, mark, kl) ==
  IF v > n THEN <<>>
  ELSE LET r == ScanAll(Job(v), v, IF Job(v) = <<>> THEN mark ELSE Pre(mark, v, kl), <<>>)
       IN <<r.out>> \o Rows(Job, v + 1, n, r.mark, kl)
Fresh(g) == [v \in V(g) |-> 0]
UnionAlg(gs, K, kl) ==
  LET J(v) == IF v \in K THEN [i \in DOMAIN gs |-> gs[i][v]] ELSE <<>>
  IN Rows(J, 1, Len(gs[1]), Fresh(gs[1]), kl)
ProdAlg(a, b, fl) ==
  LET J(v) == <<IF fl THEN b[v] ELSE <<>>>> \o [i \in DOMAIN a[v] |-> b[a[v][i]]]
  IN Rows(J, 1, Len(a), Fresh(a), FALSE)
(* transposition by counting: each arc v->w is written at the decreasing end of row w *)
RECURSIVE Push(_, _, _)
Push(s, v, out) == IF s = <<>> THEN out ELSE Push(Tail(s), v, [out EXCEPT ![Head(s)] = <<v>> \o @])
RECURSIVE PushAll(_, _, _)
PushAll(g, v, out) == IF v > Len(g) THEN out ELSE PushAll(g, v + 1, Push(g[v], v, out))
TransAlg(g) == PushAll(g, 1, [v \in V(g) |-> <<>>])

(***************************************************************************)
(* The store.  reg: register -> graph or None; an operation either takes   *)
(* effect or, when memory runs out, reports NO_MEMORY and produces nothing *)
(* (an operation in place then loses its register: the caller discards it).*)
(***************************************************************************)
None == <<>>
VARIABLE reg
Upd(r, g) == reg' = [reg EXCEPT ![r] = g]
OutOfMemory(r, inplace) == reg' = IF inplace THEN [reg EXCEPT ![r] = None] ELSE reg
Put(r, g)              == IsGraph(g) /\ Upd(r, g)
DeleteLoops(r, g)      == g = LooplessG(reg[r]) /\ Upd(r, g)
Union(rs, K, kl, o, g) == Represents(g, UnionSet([i \in DOMAIN rs |-> reg[rs[i]]], K, kl)) /\ Upd(o, g)
Diff(r, s, mx, g)      == g = DiffG(reg[r], reg[s], mx) /\ Upd(r, g)
Trans(r, o, g)         == Represents(g, TransSet(reg[r])) /\ Upd(o, g)
Prod(r, s, fl, o, g)   == Represents(g, ProdSet(reg[r], reg[s], fl)) /\ Upd(o, g)
Resize(r, g)           == g = reg[r] /\ UNCHANGED reg
Empty(o, v, g)         == g = [i \in 1..v |-> <<>>] /\ Upd(o, g)
=============================================================================
