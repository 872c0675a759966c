----------------------------- MODULE MC_Digraph -----------------------------
(* All sequences of operations on two registers of graphs over N vertices;  *)
(* in every reachable store the marker algorithms deliver the promise, and   *)
(* the laws the clustering relies on hold.                                  *)
EXTENDS Digraph
CONSTANTS N, MAXDEG, ORDERED
VARIABLE steps
vs == <<reg, steps>>
RECURSIVE SeqsOf(_)
SeqsOf(S) == IF S = {} THEN {<<>>} ELSE {<<>>} \cup UNION {{<<e>> \o t : t \in SeqsOf(S \ {e})} : e \in S}
RowsOf == {s \in SeqsOf(1..N) : Len(s) <= MAXDEG /\ (ORDERED \/ \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1])}
Graphs == [1..N -> RowsOf]
Init == steps = 0 /\ \E g \in Graphs : reg = [r \in {1, 2} |-> IF r = 1 THEN g ELSE None]
K == SUBSET (1..N)
Ops == \/ DeleteLoops(1, LooplessG(reg[1]))
       \/ \E k \in K, kl \in BOOLEAN : Union(<<1, 2>>, k, kl, 1, UnionAlg(<<reg[1], reg[2]>>, k, kl))
       \/ \E mx \in 1..2 : Diff(1, 2, mx, DiffG(reg[1], reg[2], mx))
       \/ Trans(1, 2, TransAlg(reg[1]))
       \/ \E fl \in BOOLEAN : Prod(1, 2, fl, 1, ProdAlg(reg[1], reg[2], fl))
Next == \/ steps = 0 /\ steps' = 1 /\ \E g \in Graphs : Put(2, g)
        \/ steps = 1 /\ steps' = 2 /\ Ops
Spec == Init /\ [][Next]_vs
a == reg[1]
b == reg[2]
AlgUnion == (steps = 1) => \A k \in K, kl \in BOOLEAN :
  /\ Represents(UnionAlg(<<a, b>>, k, kl), UnionSet(<<a, b>>, k, kl))
  /\ Represents(UnionAlg(<<a, b, TransAlg(a)>>, k, kl), UnionSet(<<a, b, TransAlg(a)>>, k, kl))
AlgProd  == (steps = 1) => \A fl \in BOOLEAN : Represents(ProdAlg(a, b, fl), ProdSet(a, b, fl))
AlgTrans == (steps = 1) => Represents(TransAlg(a), TransSet(a))
Law1 == (steps = 1) => SetOf(TransAlg(TransAlg(a))) = SetOf(a)
Law2 == (steps = 1) => SetOf(TransAlg(ProdAlg(a, b, FALSE))) = SetOf(ProdAlg(TransAlg(b), TransAlg(a), FALSE))
Law3 == (steps = 1) => \A k \in K : SetOf(UnionAlg(<<a, b>>, k, TRUE)) = SetOf(UnionAlg(<<b, a>>, k, TRUE))
Law4 == (steps = 1) => \A mx \in 1..N : LET d == DiffG(a, b, mx) IN
          \A v \in V(a) : Heads(d[v]) \cap Heads(b[v]) = {} /\ Len(d[v]) <= mx /\ (Len(d[v]) < mx => Heads(d[v]) = Heads(a[v]) \ Heads(b[v]))
Closed == \A r \in {1, 2} : reg[r] # None => IsGraph(reg[r])
=============================================================================
