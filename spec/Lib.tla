-------------------------------- MODULE Lib --------------------------------
(***************************************************************************)
(* The public interface as one state machine: clusterings, data sets, the  *)
(* caller's label arrays, the installed distance functions and the latest  *)
(* error.                                                                  *)
(*   cls   slot -> clustering: st (1 alive), n, k, b (caller array it      *)
(*         shares, 0 none), lab (its own labels if b = 0 and k > 0)        *)
(*   bufs  caller arrays (sequences of labels, -1 = NA)                    *)
(*   dss   slot -> data set: st, n                                         *)
(*   fn    the ten distance functions in force: 0 built-in, 1 and 2 caller *)
(*   err   code of the most recent failure (0 none)                        *)
(* A call v is a record of its arguments; Viol(v) is the set of documented *)
(* requirements it breaks, as <<name, error code>> pairs.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Functions, TLC
CONSTANTS NS, NB, ND
VARIABLES cls, bufs, dss, fn, err
lvars == <<cls, bufs, dss, fn, err>>
OK == 0  INVALID == 2  NOMEM == 3  NOSOL == 4  TOOLARGE == 5  DISTERR == 6  NOTIMPL == 7
NoCl == [st |-> 0, n |-> 0, k |-> 0, b |-> 0, lab |-> <<>>]
NoDs == [st |-> 0, n |-> 0]
BuiltIn == [i \in 1..10 |-> 0]
LInit == /\ cls = [s \in 1..NS |-> NoCl] /\ bufs = [b \in 1..NB |-> <<>>] /\ dss = [d \in 1..ND |-> NoDs]
         /\ fn = BuiltIn /\ err = 0

LabelsIn(c, B) == IF c.k = 0 THEN <<>> ELSE IF c.b # 0 THEN SubSeq(B[c.b], 1, c.n) ELSE c.lab
Labels(c) == LabelsIn(c, bufs)
(* what the caller can read of a clustering *)
View(c, B) == [init |-> c.st, n |-> c.n, k |-> c.k, lab |-> LabelsIn(c, B)]

(* ------------------------------------------------------------ requirements *)
When(cond, name, code) == IF cond THEN {<<name, code>>} ELSE {}
SumSeq(q) == FoldFunction(LAMBDA a, b : a + b, 0, q)
CountIn(q, m, t) == Cardinality({i \in 1..m : q[i] = t})
TypesWell(o, n) == o.nt >= 2 /\ o.ntbig = 0 /\ o.tcnull = 0 /\ o.tlnull = 0 /\ o.ltl >= n /\ \A i \in 1..n : o.tl[i] \in 0..(o.nt - 1)
(* scc_ClusterOptions for n points *)
OptViol(o, n) ==
  IF o.null = 1 THEN {<<"options", INVALID>>} ELSE
     When(o.ver = 0, "version", INVALID)
  \cup When(o.size < 2, "size", INVALID)
  \cup When(o.size > n, "few", NOSOL)
  \cup (IF o.nt < 2
        THEN When(o.tcnull = 0, "tc1", INVALID) \cup When(o.ltl # 0, "ltl1", INVALID) \cup When(o.tlnull = 0, "tl1", INVALID)
        ELSE When(o.ntbig = 1, "nt", TOOLARGE) \cup When(o.tcnull = 1, "tc", INVALID) \cup When(o.ltl < n, "ltl", INVALID)
             \cup When(o.tlnull = 1, "tl", INVALID)
             \cup When(o.tlnull = 0 /\ o.ltl >= n /\ o.ntbig = 0 /\ \E i \in 1..n : o.tl[i] \notin 0..(o.nt - 1), "tlrange", INVALID))
  \cup When(o.sm \notin 0..5, "sm", INVALID)
  \cup When(o.ppnull = 0 /\ o.lpp = 0, "lpp0", INVALID)
  \cup When(o.ppnull = 1 /\ o.lpp > 0, "ppnull", INVALID)
  \cup When(o.ppnull = 0 /\ \E i \in 1..o.lpp : o.pp[i] \notin 0..(n - 1), "pprange", INVALID)
  \cup When(o.ppnull = 0 /\ \E i \in 2..o.lpp : o.pp[i - 1] >= o.pp[i], "ppsort", INVALID)
  \cup When(o.pum \notin 0..3, "pum", INVALID)
  \cup When(o.sum = 1, "sumany", INVALID)
  \cup When(o.sum \notin 0..3, "sum", INVALID)
  \cup When(o.sr \notin {0, 1}, "sr", INVALID)
  \cup When(o.sr = 1 /\ o.srs <= 0, "srv", INVALID)
  \cup When(o.pr \notin 0..3, "pr", INVALID)
  \cup When(o.pr = 1 /\ o.prs <= 0, "prv", INVALID)
  \cup When(o.secr \notin 0..3, "secr", INVALID)
  \cup When(o.secr = 1 /\ o.secrs <= 0, "secrv", INVALID)
  \cup When(o.sm = 1 /\ o.nt >= 2, "batchtypes", NOTIMPL)
  \cup When(o.sm = 1 /\ o.sum # 0, "batchsum", NOTIMPL)
  \cup When(o.sm = 1 /\ o.pr # 2, "batchpr", NOTIMPL)
(* further requirements of scc_sc_clustering *)
ScViol(o, n) ==
  IF o.null = 1 THEN {} ELSE
     When(o.sm = 1 /\ o.pum \notin {0, 1}, "batchpum", INVALID)
  \cup (IF o.sm # 1 /\ TypesWell(o, n)
        THEN When(SumSeq(o.tc) > o.size, "tcsum", INVALID)
             \cup When(\E t \in 1..o.nt : o.tc[t] > CountIn(o.tl, n, t - 1), "tcfew", NOSOL)
        ELSE {})
ClOf(v) == IF v.clnull = 1 THEN NoCl ELSE cls[v.s]
DsOf(v) == IF v.dsnull = 1 THEN NoDs ELSE dss[v.d]
NeedPair(v) == When(ClOf(v).st = 0, "clustering", INVALID) \cup When(DsOf(v).st = 0, "data", INVALID)
               \cup When(ClOf(v).st = 1 /\ DsOf(v).st = 1 /\ ClOf(v).n # DsOf(v).n, "match", INVALID)
Viol(v) ==
  CASE v.c = "ds" -> When(v.onull = 1, "out", INVALID) \cup When(v.nbig = 0 /\ v.n = 0, "n0", INVALID) \cup When(v.nbig = 1, "nbig", TOOLARGE)
                     \cup When(v.dims = 0, "dims0", INVALID) \cup When(v.dims > 65535, "dimsbig", TOOLARGE)
                     \cup When(v.nbig = 1 \/ (v.dims > 0 /\ v.len \div v.dims < v.n) , "short", INVALID) \cup When(v.anull = 1, "matrix", INVALID)
    [] v.c = "empty" -> When(v.onull = 1, "out", INVALID) \cup When(v.nbig = 0 /\ v.n = 0, "n0", INVALID) \cup When(v.nbig = 1, "nbig", TOOLARGE)
    [] v.c = "exist" -> When(v.onull = 1, "out", INVALID) \cup When(v.nbig = 0 /\ v.n = 0, "n0", INVALID) \cup When(v.nbig = 1, "nbig", TOOLARGE)
                        \cup When(v.kbig = 0 /\ v.k = 0, "k0", INVALID) \cup When(v.kbig = 1, "kbig", TOOLARGE) \cup When(v.b = 0, "labels", INVALID)
    [] v.c = "copy" -> When(v.onull = 1, "out", INVALID) \cup When(cls[v.s].st = 0, "clustering", INVALID)
    [] v.c = "info" -> When(cls[v.s].st = 0, "clustering", INVALID)
    [] v.c = "labels" -> When(cls[v.s].st = 0, "clustering", INVALID) \cup When(cls[v.s].st = 1 /\ cls[v.s].k = 0, "empty", INVALID)
                         \cup When(v.len = 0, "len0", INVALID) \cup When(v.onull = 1, "out", INVALID)
    [] v.c = "sc" -> NeedPair(v) \cup (IF ClOf(v).st = 1 THEN OptViol(v.o, ClOf(v).n) \cup ScViol(v.o, ClOf(v).n) ELSE When(v.o.null = 1, "options", INVALID))
                     \cup When(ClOf(v).k # 0, "refine", NOTIMPL)
    [] v.c = "hier" -> NeedPair(v) \cup When(v.size < 2, "size", INVALID) \cup When(ClOf(v).st = 1 /\ v.size > ClOf(v).n, "few", NOSOL)
    [] v.c = "check" -> When(v.onull = 1, "out", INVALID) \cup When(ClOf(v).st = 0, "clustering", INVALID) \cup When(ClOf(v).st = 1 /\ ClOf(v).k = 0, "empty", INVALID)
                        \cup (IF ClOf(v).st = 1 THEN OptViol(v.o, ClOf(v).n) ELSE When(v.o.null = 1, "options", INVALID))
    [] v.c = "stats" -> When(v.onull = 1, "out", INVALID) \cup NeedPair(v) \cup When(ClOf(v).st = 1 /\ ClOf(v).k = 0, "empty", INVALID)
    [] OTHER -> {}
CodesOf(V) == {x[2] : x \in V}
(* more neighbour relations than fit in memory; more than 32-bit arc indices can number (v.arcs: the width) *)
Huge(v) == v.c = "sc" /\ v.o.null = 0 /\ v.o.sm # 1 /\ ClOf(v).st = 1 /\ (ClOf(v).n \div 1000) * (v.o.size \div 1000) > 4000
Half == 2147483647      \* 2^32 - 1 = 2 * Half + 1
TooMany(v) == LET n == ClOf(v).n IN v.o.size > 2 * (Half \div n) + (2 * (Half % n) + 1) \div n
(* codes the call may return; fa: an allocation of this call is made to fail *)
Allowed(v) == LET V == Viol(v) IN
  (IF V # {} THEN CodesOf(V) ELSE IF Huge(v) THEN {IF v.arcs = 32 /\ TooMany(v) THEN TOOLARGE ELSE NOMEM} ELSE {OK} \cup (IF v.c = "sc" THEN {NOSOL} ELSE {}))
  \cup (IF v.fa > 0 THEN {NOMEM, DISTERR} ELSE {})

(* ----------------------------------------------------------------- effects *)
(* new: what the call computed ([k, lab]); only used by sc and hier *)
Effect(v, new) ==
  CASE v.c = "buf"   -> bufs' = [bufs EXCEPT ![v.b] = v.v] /\ UNCHANGED <<cls, dss, fn>>
    [] v.c = "poke"  -> bufs' = [bufs EXCEPT ![v.b][v.i] = v.x] /\ UNCHANGED <<cls, dss, fn>>
    [] v.c = "ds"    -> dss' = [dss EXCEPT ![v.d] = [st |-> 1, n |-> v.n]] /\ UNCHANGED <<cls, bufs, fn>>
    [] v.c = "freeds" -> dss' = (IF v.pnull = 1 THEN dss ELSE [dss EXCEPT ![v.d] = NoDs]) /\ UNCHANGED <<cls, bufs, fn>>
    [] v.c = "empty" -> cls' = [cls EXCEPT ![v.s] = [st |-> 1, n |-> v.n, k |-> 0, b |-> v.b, lab |-> <<>>]] /\ UNCHANGED <<bufs, dss, fn>>
    [] v.c = "exist" -> cls' = [cls EXCEPT ![v.s] = [st |-> 1, n |-> v.n, k |-> v.k, b |-> IF v.deep = 1 THEN 0 ELSE v.b,
                                                     lab |-> IF v.deep = 1 THEN SubSeq(bufs[v.b], 1, v.n) ELSE <<>>]] /\ UNCHANGED <<bufs, dss, fn>>
    [] v.c = "copy"  -> cls' = [cls EXCEPT ![v.t] = [cls[v.s] EXCEPT !.b = 0, !.lab = Labels(cls[v.s])]] /\ UNCHANGED <<bufs, dss, fn>>
    [] v.c = "free"  -> cls' = (IF v.pnull = 1 THEN cls ELSE [cls EXCEPT ![v.s] = NoCl]) /\ UNCHANGED <<bufs, dss, fn>>
    [] v.c \in {"sc", "hier"} ->
         LET c == ClOf(v) IN
         /\ cls' = [cls EXCEPT ![v.s].k = new.k, ![v.s].lab = IF c.b = 0 THEN new.lab ELSE <<>>]
         /\ bufs' = (IF c.b = 0 THEN bufs ELSE [bufs EXCEPT ![c.b] = new.lab \o SubSeq(bufs[c.b], c.n + 1, Len(bufs[c.b]))])
         /\ UNCHANGED <<dss, fn>>
    [] v.c = "resetfn" -> fn' = BuiltIn /\ UNCHANGED <<cls, bufs, dss>>
    [] v.c = "setfn" -> UNCHANGED <<cls, bufs, dss>>       \* fn: SetFn
    [] OTHER -> UNCHANGED <<cls, bufs, dss, fn>>
(* scc_set_dist_functions(t): single functions, the max-distance group 5..7, the nearest-neighbour group 8..10 *)
Group(t, G) == Cardinality({i \in G : t[i] # 0})
MaxG == 5..7
NnG  == 8..10
FnOK(t) == Group(t, MaxG) \in {0, 3} /\ Group(t, NnG) \in {0, 3}
Replaced(t, S) == [i \in 1..10 |-> IF i \in S /\ t[i] # 0 THEN t[i] ELSE fn[i]]
(* a refused call leaves the incomplete group as it was; whether it still replaces the other group is left open *)
FnAfter(t) ==
  LET full == (IF Group(t, MaxG) = 3 THEN MaxG ELSE {}) \cup (IF Group(t, NnG) = 3 THEN NnG ELSE {})
  IN IF FnOK(t) THEN {Replaced(t, 1..4 \cup full)}
     ELSE {Replaced(t, 1..4), Replaced(t, 1..4 \cup full)}
(* what scc_get_default_options fills in: version, size, types (number, null arrays, zero lengths), seed method, methods for
   primary and secondary points, the three radii, no supplied radius, batch size *)
DefaultOptions == <<722678001, 0, 0, 1, 1, 0, 1, 0, 0, 2, 2, 1, 0>>
(* with the size constraint filled in *)
Default(size) == [null |-> 0, ver |-> 1, size |-> size, nt |-> 0, ntbig |-> 0, tcnull |-> 1, tc |-> <<>>, ltl |-> 0, tlnull |-> 1, tl |-> <<>>, sm |-> 0,
                  lpp |-> 0, ppnull |-> 1, pp |-> <<>>, pum |-> 1, sum |-> 0, sr |-> 0, srs |-> 0, pr |-> 2, prs |-> 0, secr |-> 2, secrs |-> 0, defo |-> 1]
Failed(ec) == err' = IF ec # OK THEN ec ELSE err

(* distance functions an operation has to use when it succeeds *)
Slots == [check |-> 1, num |-> 2, matrix |-> 3, rows |-> 4, imax |-> 5, gmax |-> 6, cmax |-> 7, inn |-> 8, snn |-> 9, cnn |-> 10]
Sizes(c) == [l \in 0..(c.k - 1) |-> Cardinality({p \in DOMAIN Labels(c) : Labels(c)[p] = l})]
Needs(v) ==
  LET c == ClOf(v) IN
  CASE v.c = "sc" -> {1, 2, 8, 9, 10}
    [] v.c = "hier" /\ (IF c.k = 0 THEN c.n >= 2 * v.size ELSE \E l \in 0..(c.k - 1) : Sizes(c)[l] >= 2 * v.size) -> {1, 2, 4, 5, 6, 7}
    [] v.c = "hier" -> {1, 2}
    [] v.c = "stats" /\ (\E l \in 0..(c.k - 1) : Sizes(c)[l] >= 2) -> {1, 2, 3}
    [] v.c = "stats" -> {1, 2}
    [] OTHER -> {}

(* ------------------------------------------------------------ consistency *)
LTypeOK == /\ \A s \in 1..NS : LET c == cls[s] IN
                /\ c.st = 0 => c = NoCl
                /\ c.st = 1 => c.n >= 1 /\ (c.b # 0 => Len(bufs[c.b]) >= c.n /\ c.lab = <<>>) /\ (c.b = 0 /\ c.k > 0 => Len(c.lab) = c.n)
           /\ fn[5] = fn[6] /\ fn[6] = fn[7] /\ fn[8] = fn[9] /\ fn[9] = fn[10]
=============================================================================
