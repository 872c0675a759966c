--------------------------- MODULE Trace_Digraph ---------------------------
(* Recorded sessions of graph operations; a case is [steps: sequence].      *)
(* A step records the operation, its arguments, the code returned, whether  *)
(* a memory fault was injected, and the resulting graph.                    *)
EXTENDS Digraph, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
VARIABLES ci, l
tvars == <<reg, ci, l>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci].steps
S == C[l]
G == S.g.adj
Sound == /\ S.same = 1 /\ S.leak = 0
         /\ S.ec = 0 => /\ S.g.wf = 1 /\ S.g.valid = 1 /\ S.g.cap >= NArcs(G)
                        /\ (S.g.empty = 1) <=> NoArcs(G)
Keep(g) == IF S.all = 1 THEN V(g) ELSE {S.keep[i] : i \in DOMAIN S.keep}
Here(r) == reg[r] # None
Done == S.ec = 0 /\
  CASE S.op = "gset"   -> Put(S.o, G)
    [] S.op = "gloops" -> DeleteLoops(S.a, G)
    [] S.op = "gunion" -> Union(S.rs, Keep(reg[S.rs[1]]), S.kl = 1, S.o, G)
    [] S.op = "gdiff"  -> Diff(S.a, S.b, S.max, G)
    [] S.op = "gtrans" -> Trans(S.a, S.o, G)
    [] S.op = "gprod"  -> Prod(S.a, S.b, S.fl = 1, S.o, G)
    [] S.op = "gsize"  -> Resize(S.a, G) /\ S.g.cap = S.cap
    [] S.op = "gempty" -> Empty(S.o, S.v, G) /\ S.g.cap = S.cap
(* running out of memory is legal only when a fault was injected, and not when the exact result would have fitted *)
Failed == S.ec = 3 /\ S.fa = 1 /\ S.lim = 0 /\ OutOfMemory(S.a, S.op \in {"gloops", "gdiff", "gsize"})
(* not attempted: an argument is missing, a factor has no arcs, or arcs would not fit *)
Skipped == /\ S.ec = -9 /\ UNCHANGED reg
           /\ \/ \E r \in {S.used[i] : i \in DOMAIN S.used} : ~Here(r)
              \/ S.op = "gprod" /\ (NoArcs(reg[S.a]) \/ NoArcs(reg[S.b]))
              \/ S.op = "gsize" /\ NArcs(reg[S.a]) > S.cap
TInit == ci \in 1..NC /\ l = 1 /\ reg = [r \in 0..3 |-> None]
Step  == l <= Len(C) /\ S.crash = 0 /\ (Skipped \/ ((Sound = TRUE) /\ (Done \/ Failed)))
TNext == /\ UNCHANGED ci /\ l' = l + 1
         /\ \/ Step
            \/ l = Len(C) + 1 /\ TLCSet(ci, TRUE) /\ UNCHANGED reg
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
