------------------------------- MODULE MC_Lib -------------------------------
(* The public interface explored exhaustively with two clusterings, one    *)
(* caller array, one data set and 2 or 3 points: every interleaving of the *)
(* calls below, valid and invalid, succeeding and failing.                 *)
EXTENDS Lib
CONSTANTS NMAX, DEPTH
VARIABLES last, own, depth     \* last: the call just made with its code; own: blocks held by the library
mvars == <<cls, bufs, dss, fn, err, last, own, depth>>
Opt0 == [null |-> 0, ver |-> 1, size |-> 2, nt |-> 0, ntbig |-> 0, tcnull |-> 1, tc |-> <<>>, ltl |-> 0, tlnull |-> 1, tl |-> <<>>, sm |-> 0, lpp |-> 0, ppnull |-> 1, pp |-> <<>>,
         pum |-> 1, sum |-> 0, sr |-> 0, srs |-> 0, pr |-> 2, prs |-> 0, secr |-> 2, secrs |-> 0]
Blank == [c |-> "", s |-> 1, t |-> 1, d |-> 1, b |-> 0, n |-> 0, nbig |-> 0, k |-> 0, kbig |-> 0, deep |-> 1, onull |-> 0, pnull |-> 0, nnull |-> 0, knull |-> 0, len |-> 0,
          dims |-> 1, anull |-> 0, i |-> 0, x |-> 0, v |-> <<>>, clnull |-> 0, dsnull |-> 0, size |-> 2, fa |-> 0, tags |-> <<>>, o |-> Opt0, arcs |-> 32]
NN == 2..NMAX
Tags == { <<a, a, a, a>> \o g \o h : a \in {0, 1}, g \in {<<0, 0, 0>>, <<1, 1, 1>>, <<1, 0, 1>>}, h \in {<<0, 0, 0>>, <<2, 2, 2>>, <<0, 2, 0>>} }
Calls ==
  {[Blank EXCEPT !.c = "buf", !.b = b, !.v = v] : b \in 1..NB, v \in {[i \in 1..NMAX |-> x] : x \in {-1, 0}}}
  \cup {[Blank EXCEPT !.c = "poke", !.b = b, !.i = 1, !.x = x] : b \in 1..NB, x \in {-1, 0}}
  \cup {[Blank EXCEPT !.c = "ds", !.d = d, !.n = n, !.len = n] : d \in 1..ND, n \in {0} \cup NN}
  \cup {[Blank EXCEPT !.c = "freeds", !.d = d, !.pnull = p] : d \in 1..ND, p \in {0, 1}}
  \cup {[Blank EXCEPT !.c = "empty", !.s = s, !.n = n, !.b = b] : s \in 1..NS, n \in {0} \cup NN, b \in 0..NB}
  \cup {[Blank EXCEPT !.c = "exist", !.s = s, !.n = n, !.k = k, !.b = b, !.deep = q] : s \in 1..NS, n \in NN, k \in {0, 1}, b \in 0..NB, q \in {0, 1}}
  \cup {[Blank EXCEPT !.c = "copy", !.s = s, !.t = t] : s \in 1..NS, t \in 1..NS}
  \cup {[Blank EXCEPT !.c = "free", !.s = s, !.pnull = p] : s \in 1..NS, p \in {0, 1}}
  \cup {[Blank EXCEPT !.c = "sc", !.s = s, !.d = d, !.o = o] : s \in 1..NS, d \in 1..ND, o \in {Opt0, [Opt0 EXCEPT !.size = 1], [Opt0 EXCEPT !.null = 1], [Opt0 EXCEPT !.sm = 1, !.sum = 2]}}
  \cup {[Blank EXCEPT !.c = "hier", !.s = s, !.d = d, !.size = z] : s \in 1..NS, d \in 1..ND, z \in {1, 2}}
  \cup {[Blank EXCEPT !.c = "setfn", !.tags = t] : t \in Tags}
  \cup {[Blank EXCEPT !.c = "resetfn"], [Blank EXCEPT !.c = "err"]}
(* what a caller must respect because the library cannot check it *)
Safe(v) == /\ v.c = "buf" => ~\E s \in 1..NS : cls[s].b = v.b
           /\ v.c = "poke" => Len(bufs[v.b]) > 0
           /\ v.c \in {"empty", "exist"} => cls[v.s].st = 0 /\ (v.b # 0 => Len(bufs[v.b]) >= v.n)
           /\ v.c = "copy" => cls[v.t].st = 0
           /\ v.c = "ds" => dss[v.d].st = 0
Outcomes(v) == {[k |-> 1, lab |-> [i \in 1..ClOf(v).n |-> x]] : x \in {0}}
              \cup {[k |-> 1, lab |-> [i \in 1..ClOf(v).n |-> IF i = 1 THEN -1 ELSE 0]]}
Blocks(v) == CASE v.c = "ds" -> 1
               [] v.c = "empty" -> 1
               [] v.c = "exist" -> IF v.deep = 1 THEN 2 ELSE 1
               [] v.c = "copy" -> IF cls[v.s].k > 0 THEN 2 ELSE 1
               [] v.c \in {"sc", "hier"} -> IF ClOf(v).b = 0 /\ ClOf(v).k = 0 THEN 1 ELSE 0
               [] v.c = "free" -> IF v.pnull = 1 \/ cls[v.s].st = 0 THEN 0 ELSE IF cls[v.s].b = 0 /\ cls[v.s].k > 0 THEN -2 ELSE -1
               [] v.c = "freeds" -> IF v.pnull = 1 \/ dss[v.d].st = 0 THEN 0 ELSE -1
               [] OTHER -> 0
MInit == LInit /\ last = [v |-> Blank, ec |-> 0] /\ own = 0 /\ depth = 0
MNext == \E v \in Calls : /\ depth < DEPTH /\ depth' = depth + 1
   /\ Safe(v)
   /\ \E ec \in Allowed(v) \cup (IF v.c \in {"empty", "exist", "copy", "ds", "sc", "hier"} THEN {NOMEM} ELSE {}) :
        /\ last' = [v |-> v, ec |-> ec] /\ Failed(ec)
        /\ IF ec = OK
           THEN /\ \E new \in (IF v.c \in {"sc", "hier"} THEN Outcomes(v) ELSE {<<>>}) : Effect(v, new)
                /\ (v.c = "setfn" => fn' \in FnAfter(v.tags)) /\ own' = own + Blocks(v)
           ELSE UNCHANGED <<cls, bufs, dss, fn, own>>
MSpec == MInit /\ [][MNext]_mvars
(* ---- what the sessions rely on *)
FnGroups == fn[5] = fn[6] /\ fn[6] = fn[7] /\ fn[8] = fn[9] /\ fn[9] = fn[10]
Ledger == own = Cardinality({s \in 1..NS : cls[s].st = 1}) + Cardinality({s \in 1..NS : cls[s].st = 1 /\ cls[s].b = 0 /\ cls[s].k > 0}) + Cardinality({d \in 1..ND : dss[d].st = 1})
LastError == last.ec # OK => err = last.ec
Inv == LTypeOK /\ FnGroups /\ Ledger /\ LastError
(* a call changes only the clusterings it names and those sharing the array it writes *)
Isolated == [][\A s \in 1..NS : View(cls[s], bufs) # View(cls'[s], bufs') =>
    LET v == last'.v IN \/ v.c \in {"empty", "exist", "free", "sc", "hier"} /\ v.s = s
                        \/ v.c = "copy" /\ v.t = s
                        \/ v.c = "poke" /\ cls[s].b = v.b
                        \/ v.c \in {"sc", "hier"} /\ cls[v.s].b # 0 /\ cls[s].b = cls[v.s].b]_mvars
CopiesEqual == [][(last'.v.c = "copy" /\ last'.ec = OK) => View(cls'[last'.v.t], bufs') = View(cls[last'.v.s], bufs)]_mvars
NoEffectOnError == [][last'.ec # OK => UNCHANGED <<cls, bufs, dss, fn>>]_mvars
KeepsError == [][last'.ec = OK => err' = err]_mvars
FnOnlyBySet == [][fn' # fn => last'.v.c \in {"setfn", "resetfn"}]_mvars
=============================================================================
