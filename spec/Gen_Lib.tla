------------------------------ MODULE Gen_Lib ------------------------------
(* Sessions of public calls for replay against the library: random walks   *)
(* of the specification Lib (TLC -simulate). A walk only takes calls a     *)
(* caller may make at all (Safe: arrays as long as promised, readable      *)
(* labels valid), but breaks documented requirements freely. MODE weights  *)
(* the calls. `ok` marks clusterings whose labels are known to be valid,   *)
(* `dirty` caller arrays the library has written computed labels to.       *)
EXTENDS Lib, Json, IOUtils, TLCExt
CONSTANTS D, MODE
VARIABLES hist, ok, dirty
gvars == <<cls, bufs, dss, fn, err, hist, ok, dirty>>
R(S) == RandomElement(S)
W(p, a, S) == IF RandomElement(1..100) <= p THEN a ELSE RandomElement(S)
Sizes0 == {1, 2, 3, 5, 6, 8}
(* a valid option record for n points, then up to three fields are spoiled *)
BaseOpt(n) ==
  LET types == RandomElement(1..100) <= 40  prim == RandomElement(1..100) <= 40 IN
  CHOOSE o \in { LET t == types  p == prim  nt == IF t THEN R(2..3) ELSE R(0..1)  lpp == IF p THEN R(1..n) ELSE 0  batch == ~t /\ RandomElement(1..4) = 1 IN
     [null |-> 0, ver |-> 1, size |-> R({2, 2, 3, 4}), nt |-> nt, ntbig |-> 0,
      tcnull |-> IF nt >= 2 THEN 0 ELSE 1, tc |-> IF nt >= 2 THEN [i \in 1..nt |-> R({0, 1, 1})] ELSE <<>>,
      ltl |-> IF nt >= 2 THEN n + R({0, 0, 1}) ELSE 0, tlnull |-> IF nt >= 2 THEN 0 ELSE 1,
      tl |-> IF nt >= 2 THEN [i \in 1..(n + 1) |-> R(0..(nt - 1))] ELSE <<>>,
      sm |-> IF batch THEN 1 ELSE R({0, 2, 3, 4, 5}), lpp |-> 0, ppnull |-> 1, pp |-> <<>>,
      pum |-> IF batch THEN R({0, 1}) ELSE R(0..3), sum |-> IF batch THEN 0 ELSE R({0, 2, 3}),
      sr |-> R({0, 0, 1}), srs |-> 1, pr |-> IF batch THEN 2 ELSE R(0..3), prs |-> 1, secr |-> R(0..3), secrs |-> 1, defo |-> 0] } : TRUE
RECURSIVE Asc(_, _, _)
Asc(n, from, left) == IF from >= n \/ left = 0 THEN <<>> ELSE (IF RandomElement(1..2) = 1 THEN <<from>> \o Asc(n, from + 1, left - 1) ELSE Asc(n, from + 1, left))
WithPrim(o, n) == IF RandomElement(1..100) > 40 THEN o ELSE
   LET q == IF n = 1 THEN <<0>> ELSE <<R(0..(n - 2))>> IN
   CHOOSE z \in {[o EXCEPT !.pp = s, !.lpp = Len(s), !.ppnull = 0] : s \in {LET f == q[1] IN <<f>> \o Asc(n, f + 1, n)}} : TRUE
Fields == {"null", "ver", "size", "few", "nt1", "ntbig", "tc", "tc1", "ltl", "ltl1", "tl", "tl1", "tlneg", "tlbig", "sm", "lpp0", "ppnull", "ppneg", "ppbig", "ppeq", "ppdesc",
           "pum", "sumany", "sum", "sr", "srv", "pr", "prv", "secr", "secrv", "batch", "tcsum", "tcfew"}
Spoil(o, n, f) ==
  CASE f = "null" -> [o EXCEPT !.null = 1]
    [] f = "ver" -> [o EXCEPT !.ver = 0]
    [] f = "size" -> [o EXCEPT !.size = R({0, 1})]
    [] f = "few" -> [o EXCEPT !.size = n + R({1, 1, 2, 50})]
    [] f = "nt1" /\ o.nt >= 2 -> [o EXCEPT !.nt = R({0, 1}), !.ntbig = 0]
    [] f = "ntbig" /\ o.nt >= 2 -> [o EXCEPT !.ntbig = 1]
    [] f = "tc" /\ o.nt >= 2 -> [o EXCEPT !.tcnull = 1]
    [] f = "tc1" /\ o.nt < 2 -> [o EXCEPT !.tcnull = 0, !.tc = <<1>>]
    [] f = "ltl" /\ o.nt >= 2 -> [o EXCEPT !.ltl = R(0..(n - 1))]
    [] f = "ltl1" /\ o.nt < 2 -> [o EXCEPT !.ltl = R({1, n})]
    [] f = "tl" /\ o.nt >= 2 -> [o EXCEPT !.tlnull = 1]
    [] f = "tl1" /\ o.nt < 2 -> [o EXCEPT !.tlnull = 0, !.tl = [i \in 1..(n + 1) |-> 0]]
    [] f = "tlneg" /\ o.nt >= 2 /\ o.tlnull = 0 -> [o EXCEPT !.tl[R(1..n)] = -1]
    [] f = "tlbig" /\ o.nt >= 2 /\ o.tlnull = 0 -> [o EXCEPT !.tl[R(1..n)] = o.nt + R({0, 0, 1, 7})]
    [] f = "sm" -> [o EXCEPT !.sm = R({6, 7, 99, -1})]
    [] f = "lpp0" /\ o.ppnull = 0 -> [o EXCEPT !.lpp = 0]
    [] f = "ppnull" /\ o.lpp > 0 -> [o EXCEPT !.ppnull = 1]
    [] f = "ppneg" /\ o.ppnull = 0 /\ o.lpp > 0 -> [o EXCEPT !.pp[1] = -1]
    [] f = "ppbig" /\ o.ppnull = 0 /\ o.lpp > 0 -> [o EXCEPT !.pp[o.lpp] = n + R({0, 0, 1, 9})]
    [] f = "ppeq" /\ o.ppnull = 0 /\ o.lpp > 1 -> [o EXCEPT !.pp[2] = o.pp[1]]
    [] f = "ppdesc" /\ o.ppnull = 0 /\ o.lpp > 1 -> [o EXCEPT !.pp[o.lpp] = o.pp[o.lpp - 1], !.pp[o.lpp - 1] = o.pp[o.lpp]]
    [] f = "pum" -> [o EXCEPT !.pum = R({4, 5, 99, -1})]
    [] f = "sumany" -> [o EXCEPT !.sum = 1]
    [] f = "sum" -> [o EXCEPT !.sum = R({4, 5, 99, -1})]
    [] f = "sr" -> [o EXCEPT !.sr = R({2, 3, 4, 99, -1})]
    [] f = "srv" -> [o EXCEPT !.sr = 1, !.srs = R({0, -1})]
    [] f = "pr" -> [o EXCEPT !.pr = R({4, 5, 99, -1})]
    [] f = "prv" -> [o EXCEPT !.pr = 1, !.prs = R({0, -1})]
    [] f = "secr" -> [o EXCEPT !.secr = R({4, 5, 99, -1})]
    [] f = "secrv" -> [o EXCEPT !.secr = 1, !.secrs = R({0, -1})]
    [] f = "batch" -> [o EXCEPT !.sm = 1]
    [] f = "tcsum" /\ o.nt >= 2 /\ o.tcnull = 0 -> [o EXCEPT !.tc[1] = o.size + R({0, 1, 2})]
    [] f = "tcfew" /\ o.nt >= 2 /\ o.tcnull = 0 -> [o EXCEPT !.tc[o.nt] = R({1, 2, 3, 4})]
    [] OTHER -> o
NoOpt == [Default(2) EXCEPT !.defo = 0]
SpoilP == IF MODE = "C13" THEN 75 ELSE IF MODE = "C22" THEN 40 ELSE 25
(* each call: defaults overridden *)
Blank == [c |-> "", s |-> 1, t |-> 1, d |-> 1, b |-> 0, n |-> 0, nbig |-> 0, k |-> 0, kbig |-> 0, deep |-> 1, onull |-> 0, pnull |-> 0, nnull |-> 0, knull |-> 0, len |-> 0,
          dims |-> 1, anull |-> 0, i |-> 0, x |-> 0, v |-> <<>>, clnull |-> 0, dsnull |-> 0, size |-> 2, ba |-> 0, fa |-> 0, fs |-> 0, tags |-> <<>>, arcs |-> 32, o |-> NoOpt]
BadP == IF MODE = "C13" THEN 45 ELSE IF MODE = "C22" THEN 22 ELSE 12
(* the state enters so that TLC does not evaluate these once and for all as constants *)
Bad == RandomElement(1..(100 + 0 * Len(hist))) <= BadP
FreeSlots == {s \in 1..NS : cls[s].st = 0}
LiveSlots == {s \in 1..NS : cls[s].st = 1}
LiveDs == {d \in 1..ND : dss[d].st = 1}
FreeDs == {d \in 1..ND : dss[d].st = 0}
Fault == IF MODE \in {"C22", "C17"} /\ RandomElement(1..(100 + 0 * Len(hist))) <= 30 THEN R(1..(20 + 0 * Len(hist))) ELSE 0
Shared(b) == \E s \in 1..NS : cls[s].b = b
Pick(S, alt) == IF S = {} THEN RandomElement(alt) ELSE IF RandomElement(1..100) <= 88 THEN RandomElement(S) ELSE RandomElement(alt)
Usable == {s \in LiveSlots : ok[s]}

GoBuf == \E b \in {R(1..NB)} : /\ ~Shared(b)
           /\ \E v \in {[Blank EXCEPT !.c = "buf", !.b = b, !.v = [i \in 1..R({2, 3, 5, 6, 6, 8, 9}) |-> R({-1, 0, 0, 1, 2})]]} : hist' = Append(hist, v) /\ Effect(v, <<>>) /\ dirty' = dirty \ {b} /\ UNCHANGED <<err, ok>>
GoPoke == \E b \in {R(1..NB)} : /\ Len(bufs[b]) > 0
           /\ \E v \in {[Blank EXCEPT !.c = "poke", !.b = b, !.i = R(1..Len(bufs[b])), !.x = R({-1, 0})]} : hist' = Append(hist, v) /\ Effect(v, <<>>) /\ UNCHANGED <<err, ok, dirty>>
After(v, new) == LET V == Viol(v) IN
    /\ hist' = Append(hist, v)
    /\ dirty' = (IF v.c \in {"sc", "hier"} /\ V = {} THEN dirty \cup ({ClOf(v).b} \ {0}) ELSE dirty)
    /\ IF V = {} THEN Effect(v, new) /\ UNCHANGED err ELSE UNCHANGED <<cls, bufs, dss, fn>> /\ err' = CHOOSE x \in CodesOf(V) : TRUE
GoDs == FreeDs # {} /\ \E d \in {R(FreeDs)} : \E n \in {W(75, 6, Sizes0)} : \E bad \in {Bad} : \E w \in {R(1..7)} : \E dims \in {R({1, 1, 2, 3})} :
          \E v \in {[Blank EXCEPT !.c = "ds", !.d = d, !.dims = IF bad /\ w = 1 THEN 0 ELSE IF bad /\ w = 2 THEN 65536 ELSE dims, !.n = IF bad /\ w = 3 THEN 0 ELSE n, !.nbig = IF bad /\ w = 4 THEN 1 ELSE 0,
                     !.len = IF bad /\ w = 5 THEN n * dims - 1 ELSE n * dims + R({0, 0, 1}), !.anull = IF bad /\ w = 6 THEN 1 ELSE 0, !.onull = IF bad /\ w = 7 THEN 1 ELSE 0]} : After(v, <<>>) /\ UNCHANGED ok
GoFreeDs == \E d \in {Pick(LiveDs, 1..ND)} : \E v \in {[Blank EXCEPT !.c = "freeds", !.d = d, !.pnull = W(90, 0, {1})]} : After(v, <<>>) /\ UNCHANGED ok
GoIsDs == \E d \in {R(1..ND)} : \E v \in {[Blank EXCEPT !.c = "isds", !.d = d]} : After(v, <<>>) /\ UNCHANGED ok
GoEmpty == FreeSlots # {} /\ \E s \in {R(FreeSlots)} : \E n \in {W(75, 6, Sizes0)} : \E bad \in {Bad} : \E w \in {R(1..3)} :
           \E b \in {IF RandomElement(1..2) = 1 THEN 0 ELSE Pick({x \in 1..NB : Len(bufs[x]) >= n}, {0})} :
           /\ (b # 0 => Len(bufs[b]) >= n)
           /\ \E v \in {[Blank EXCEPT !.c = "empty", !.s = s, !.n = IF bad /\ w = 1 THEN 0 ELSE n, !.nbig = IF bad /\ w = 2 THEN 1 ELSE 0, !.onull = IF bad /\ w = 3 THEN 1 ELSE 0, !.b = b]} :
                After(v, <<>>) /\ ok' = [ok EXCEPT ![s] = TRUE]
GoExist == FreeSlots # {} /\ \E s \in {R(FreeSlots)} : \E n \in {W(75, 6, Sizes0)} : \E bad \in {Bad} : \E w \in {R(1..6)} :
           \E b \in {IF bad /\ w = 1 THEN 0 ELSE Pick({x \in 1..NB : Len(bufs[x]) >= n}, {0})} :
           /\ (b # 0 => Len(bufs[b]) >= n)
           /\ \E v \in {[Blank EXCEPT !.c = "exist", !.s = s, !.n = IF bad /\ w = 2 THEN 0 ELSE n, !.nbig = IF bad /\ w = 3 THEN 1 ELSE 0, !.k = IF bad /\ w = 4 THEN 0 ELSE R({3, 3, 4, 6}),
                         !.kbig = IF bad /\ w = 5 THEN 1 ELSE 0, !.onull = IF bad /\ w = 6 THEN 1 ELSE 0, !.b = b, !.deep = R({0, 1})]} :
                After(v, <<>>) /\ ok' = [ok EXCEPT ![s] = (b = 0 \/ (b \notin dirty /\ \A i \in 1..n : bufs[b][i] < 3))]
GoCopy == FreeSlots # {} /\ \E t \in {R(FreeSlots)} : \E s \in {Pick(LiveSlots, 1..NS)} :
           \E v \in {[Blank EXCEPT !.c = "copy", !.s = s, !.t = t, !.onull = IF Bad THEN 1 ELSE 0]} : After(v, <<>>) /\ ok' = [ok EXCEPT ![t] = ok[s]]
GoFree == \E s \in {Pick(LiveSlots, 1..NS)} : \E v \in {[Blank EXCEPT !.c = "free", !.s = s, !.pnull = W(92, 0, {1})]} : After(v, <<>>) /\ UNCHANGED ok
GoInfo == \E s \in {Pick(LiveSlots, 1..NS)} : \E v \in {[Blank EXCEPT !.c = "info", !.s = s, !.nnull = W(85, 0, {1}), !.knull = W(85, 0, {1})]} : After(v, <<>>) /\ UNCHANGED ok
GoLabels == \E s \in {Pick(LiveSlots, 1..NS)} : \E v \in {[Blank EXCEPT !.c = "labels", !.s = s, !.len = IF Bad THEN 0 ELSE R({1, 2, 5, 6, 6, 7, 9}), !.onull = IF Bad /\ RandomElement(1..2) = 1 THEN 1 ELSE 0]} : After(v, <<>>) /\ UNCHANGED ok
Mate(s) == {d \in LiveDs : dss[d].n = cls[s].n}
RECURSIVE SpoilAll(_, _, _)
SpoilAll(o, n, m) == IF m = 0 THEN o ELSE CHOOSE z \in {SpoilAll(q, n, m - 1) : q \in {Spoil(o, n, R(Fields))}} : TRUE
Opt(n) == IF RandomElement(1..100) <= 8 THEN Default(R({2, 3})) ELSE
          CHOOSE z \in {SpoilAll(o, n, m) : o \in {WithPrim(p, n) : p \in {BaseOpt(n)}}, m \in {IF RandomElement(1..100) <= SpoilP THEN R({1, 1, 1, 1, 2, 3}) ELSE 0}} : TRUE
Guess(s) == [k |-> 1, lab |-> [i \in 1..cls[s].n |-> 0]]
Taint(s) == [u \in 1..NS |-> ok[u] /\ (u = s \/ cls[s].b = 0 \/ cls[u].b # cls[s].b)]
GoSc == \E s \in {Pick({u \in LiveSlots : cls[u].k = 0}, 1..NS)} : \E d \in {Pick(Mate(s), 1..ND)} : \E o \in {Opt(IF cls[s].n = 0 THEN 6 ELSE cls[s].n)} :
        \E v \in {[Blank EXCEPT !.c = "sc", !.s = s, !.d = d, !.o = o, !.clnull = W(97, 0, {1}), !.dsnull = W(97, 0, {1}), !.fa = Fault]} : After(v, Guess(s)) /\ ok' = Taint(s)
GoHier == \E s \in {Pick(Usable, {u \in 1..NS : cls[u].st = 0 \/ ok[u]} \cup {1})} : \E d \in {Pick(Mate(s), 1..ND)} :
        /\ (cls[s].st = 0 \/ ok[s])
        /\ \E v \in {[Blank EXCEPT !.c = "hier", !.s = s, !.d = d, !.size = IF Bad THEN R({0, 1, cls[s].n + 1, 70}) ELSE R({2, 2, 3}), !.ba = R({0, 1}), !.clnull = W(97, 0, {1}), !.dsnull = W(97, 0, {1}), !.fa = Fault]} : After(v, Guess(s)) /\ ok' = Taint(s)
GoCheck == \E s \in {Pick({u \in LiveSlots : cls[u].k > 0}, 1..NS)} : \E o \in {Opt(IF cls[s].n = 0 THEN 6 ELSE cls[s].n)} :
        \E v \in {[Blank EXCEPT !.c = "check", !.s = s, !.o = o, !.clnull = W(97, 0, {1}), !.onull = W(94, 0, {1}), !.fa = Fault]} : After(v, <<>>) /\ UNCHANGED ok
GoStats == \E s \in {Pick({u \in Usable : cls[u].k > 0}, 1..NS)} : \E d \in {Pick(Mate(s), 1..ND)} :
        /\ (cls[s].st = 0 \/ ok[s])
        /\ \E v \in {[Blank EXCEPT !.c = "stats", !.s = s, !.d = d, !.clnull = W(97, 0, {1}), !.dsnull = W(97, 0, {1}), !.onull = W(94, 0, {1}), !.fa = Fault]} : After(v, <<>>) /\ UNCHANGED ok
GoErr == \E v \in {[Blank EXCEPT !.c = "err", !.len = R({0, 1, 2, 5, 18, 19, 20, 21, 40, 60, 80, 255, 500}), !.onull = W(92, 0, {1})]} : After(v, <<>>) /\ UNCHANGED ok
GoConst == \E v \in {[Blank EXCEPT !.c = R({"defopt", "defopt", "version"}), !.len = R(0..7)]} : After(v, <<>>) /\ UNCHANGED ok
GoSetFn == \E v \in {[Blank EXCEPT !.c = "setfn", !.tags =
             LET full(m) == IF m = 0 THEN <<0, 0, 0>> ELSE IF m <= 2 THEN <<m, m, m>> ELSE IF m <= 4 THEN <<m - 2, 0, m - 2>> ELSE IF m <= 6 THEN <<0, m - 4, m - 4>> ELSE IF m = 7 THEN <<1, 1, 0>> ELSE IF m = 8 THEN <<0, 0, 2>> ELSE IF m = 9 THEN <<2, 0, 0>> ELSE <<0, 1, 0>>
             IN <<R({0, 1, 2}), R({0, 1, 2}), R({0, 1, 2}), R({0, 1, 2})>> \o full(R({0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10})) \o full(R({0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10}))]} :
           /\ hist' = Append(hist, v) /\ fn' = R(FnAfter(v.tags)) /\ UNCHANGED <<cls, bufs, dss, err, ok, dirty>>
GoResetFn == \E v \in {[Blank EXCEPT !.c = "resetfn"]} : After(v, <<>>) /\ UNCHANGED ok
Weights == CASE MODE = "C13" -> <<6, 1, 10, 3, 2, 8, 10, 4, 8, 3, 3, 40, 14, 22, 9, 2, 0, 0, 4>>
             [] MODE = "C17" -> <<10, 9, 8, 4, 3, 12, 16, 16, 12, 8, 16, 12, 12, 4, 5, 1, 0, 0, 2>>
             [] MODE = "C21" -> <<4, 1, 8, 3, 1, 14, 8, 3, 7, 1, 1, 22, 20, 1, 16, 0, 26, 5, 1>>
             [] OTHER        -> <<5, 1, 8, 3, 1, 8, 8, 4, 6, 4, 4, 18, 12, 8, 8, 22, 3, 1, 2>>
RECURSIVE Acc(_, _, _)
Acc(w, i, r) == IF r <= w[i] THEN i ELSE Acc(w, i + 1, r - w[i])
Total == SumSeq(Weights)
GInit == LInit /\ hist = <<>> /\ ok = [s \in 1..NS |-> TRUE] /\ dirty = {}
Start == \* a usable starting point: two data sets and a buffer
  /\ Len(hist) < 3
  /\ \E v \in {IF Len(hist) = 0 THEN [Blank EXCEPT !.c = "ds", !.d = 1, !.n = 6, !.len = 6] ELSE IF Len(hist) = 1 THEN [Blank EXCEPT !.c = "buf", !.b = 1, !.v = <<0, 1, 1, 0, 2, -1>>]
               ELSE [Blank EXCEPT !.c = "ds", !.d = 2, !.n = 6, !.dims = 2, !.len = 12]} : After(v, <<>>) /\ UNCHANGED ok
GNext == IF Len(hist) < 3 THEN Start ELSE IF Len(hist) = D THEN hist' = Append(hist, Blank) /\ UNCHANGED <<cls, bufs, dss, fn, err, ok, dirty>> ELSE
  /\ Len(hist) < D
  /\ \E j \in 1..7 : \E a \in {Acc(Weights, 1, RandomElement(1..Total))} :
       LET step == CASE a = 1 -> GoBuf [] a = 2 -> GoPoke [] a = 3 -> GoDs [] a = 4 -> GoFreeDs [] a = 5 -> GoIsDs [] a = 6 -> GoEmpty [] a = 7 -> GoExist [] a = 8 -> GoCopy [] a = 9 -> GoFree
                     [] a = 10 -> GoInfo [] a = 11 -> GoLabels [] a = 12 -> GoSc [] a = 13 -> GoHier [] a = 14 -> GoCheck [] a = 15 -> GoStats [] a = 16 -> GoErr [] a = 17 -> GoSetFn [] a = 19 -> GoConst [] OTHER -> GoResetFn
       IN step
GSpec == GInit /\ [][GNext]_gvars
Done == Len(hist) > D => PrintT("SESSION " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
