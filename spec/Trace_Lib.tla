------------------------------ MODULE Trace_Lib ------------------------------
(* Recorded sessions of public calls. Each step carries the call, its      *)
(* result and the complete projected state after it. PROP selects what is  *)
(* judged: C13 codes and absence of side effects, C17 object semantics,    *)
(* C21 distance functions, C22 the latest error.                           *)
EXTENDS Lib, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
Prop  == IOEnv.PROP
VARIABLES ci, l, raw, texts, rules
\* raw: the message of the latest failure ("" not read yet); texts: message text -> code; rules: <<call, broken requirement>> -> message text
tvars == <<cls, bufs, dss, fn, err, ci, l, raw, texts, rules>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci].steps
Nothing == [x \in {} |-> 0]
TInit == ci \in 1..NC /\ l = 1 /\ LInit /\ raw = [m |-> "", key |-> <<>>] /\ texts = Nothing /\ rules = Nothing

Same == UNCHANGED <<cls, bufs, dss, fn>>
Observed(v) == /\ \A s \in 1..NS : View(cls'[s], bufs') = v.cl[s] /\ (cls'[s].st = 0) = (v.null[s] = 1)
               /\ \A b \in 1..NB : bufs'[b] = v.buf[b]
Released(v) == (\A s \in 1..NS : cls'[s].st = 0) /\ (\A d \in 1..ND : dss'[d].st = 0) => v.live = 0
(* refining a clustering in which no point is assigned leaves no cluster *)
NoneLeft(v) == v.c = "hier" /\ ClOf(v).k > 0 /\ \A i \in DOMAIN Labels(ClOf(v)) : Labels(ClOf(v))[i] = -1
GoodLabels(v) == v.c \in {"sc", "hier"} => (v.cl[v.s].k >= 1 \/ NoneLeft(v)) /\ \A i \in DOMAIN v.cl[v.s].lab : v.cl[v.s].lab[i] \in -1..(v.cl[v.s].k - 1)
Pad(q, len) == [i \in 1..len |-> IF i <= Len(q) THEN q[i] ELSE -1]
OutOK(v) ==
  /\ v.c = "info" => (v.nnull = 1 \/ v.on = cls[v.s].n) /\ (v.knull = 1 \/ v.ok = cls[v.s].k)
  /\ v.c = "labels" => v.out = Pad(Labels(cls[v.s]), v.len)
  /\ v.c \in {"ds", "empty", "exist", "copy"} => v.outnull = 0
  /\ v.c = "version" => v.r = 1
  /\ v.c = "defopt" => v.def = DefaultOptions
  /\ v.c = "isds" => v.r = dss[v.d].st
  /\ v.c = "freeds" => v.pnull = 1 \/ v.isnull = 1
ErrOut(v) == (v.c = "stats" => v.zero = 1)
(* ---- the call as the specification prescribes it, judged under one property *)
New(v) == [k |-> v.cl[v.s].k, lab |-> IF v.cl[v.s].k = 0 /\ ClOf(v).b # 0 THEN Labels(ClOf(v)) ELSE v.cl[v.s].lab]
(* a failing sc/hier on an empty clustering may have used the caller's array as scratch space *)
Scratch(v) == /\ v.c \in {"sc", "hier"} /\ ClOf(v).st = 1 /\ ClOf(v).k = 0 /\ ClOf(v).b # 0 /\ Viol(v) = {}
              /\ bufs' = [bufs EXCEPT ![ClOf(v).b] = v.buf[ClOf(v).b]] /\ UNCHANGED <<cls, dss, fn>>
Do(v) == IF v.ec = OK THEN Effect(v, New(v)) ELSE (Scratch(v) \/ Same)
(* the state follows the recording (used where the step itself is not what is judged) *)
Adopt(v) == /\ cls' = [s \in 1..NS |-> IF v.cl[s].init = 0 THEN NoCl
                        ELSE [st |-> 1, n |-> v.cl[s].n, k |-> v.cl[s].k,
                              b |-> IF v.ec = OK /\ s = v.s /\ v.c = "empty" THEN v.b
                                    ELSE IF v.ec = OK /\ s = v.s /\ v.c = "exist" THEN (IF v.deep = 1 THEN 0 ELSE v.b)
                                    ELSE IF v.ec = OK /\ s = v.t /\ v.c = "copy" THEN 0 ELSE cls[s].b,
                              lab |-> IF (IF v.ec = OK /\ s = v.s /\ v.c = "empty" THEN v.b ELSE IF v.ec = OK /\ s = v.s /\ v.c = "exist" THEN (IF v.deep = 1 THEN 0 ELSE v.b) ELSE IF v.ec = OK /\ s = v.t /\ v.c = "copy" THEN 0 ELSE cls[s].b) # 0 THEN <<>> ELSE v.cl[s].lab]]
            /\ bufs' = [b \in 1..NB |-> v.buf[b]]
            /\ dss' = (IF v.c = "ds" /\ v.ec = OK THEN [dss EXCEPT ![v.d] = [st |-> 1, n |-> v.n]]
                       ELSE IF v.c = "freeds" /\ v.pnull = 0 THEN [dss EXCEPT ![v.d] = NoDs] ELSE dss)
            /\ fn' = (IF v.c = "resetfn" THEN BuiltIn ELSE fn)
J_C13(v) == /\ v.c = "version" => v.r = 1
            /\ v.c = "defopt" => v.def = DefaultOptions
            /\ v.ec \in Allowed(v)
            /\ (v.ec # OK => Do(v) /\ Observed(v) /\ ErrOut(v) /\ v.optsame = 1) /\ (v.ec = OK => Adopt(v))
J_C17(v) == IF v.ec = OK THEN (IF v.c = "setfn" THEN Same ELSE Do(v)) /\ Observed(v) /\ GoodLabels(v) /\ OutOK(v) /\ Released(v)
                         ELSE Adopt(v) /\ Released(v)
J_C21(v) == /\ IF v.c = "setfn" THEN v.r = (IF FnOK(v.tags) THEN 1 ELSE 0) /\ fn' \in FnAfter(v.tags) /\ UNCHANGED <<cls, bufs, dss>>
               ELSE Adopt(v)
            /\ v.c = "resetfn" => v.r = 1
            /\ \A i \in 1..10 : v.used[i] \in {0, fn[i]}
            /\ v.ec = OK => \A i \in Needs(v) : v.used[i] = fn[i]
(* ---- C22 *)
Defaults == [t \in {"Function parameters are invalid.", "Cannot allocate required memory.", "Clustering problem has no solution.", "Clustering problem is too large.", "Failed to calculate distances.", "Functionality not yet implemented."} |->
   CASE t = "Function parameters are invalid." -> INVALID [] t = "Cannot allocate required memory." -> NOMEM [] t = "Clustering problem has no solution." -> NOSOL
     [] t = "Clustering problem is too large." -> TOOLARGE [] t = "Failed to calculate distances." -> DISTERR [] OTHER -> NOTIMPL]
NoErrText == "(scclust) No error."
Key(v) == LET V == Viol(v) IN IF Cardinality(V) = 1 /\ v.fa = 0 /\ v.ec \in CodesOf(V) THEN <<v.c, IF v.c = "sc" THEN (IF v.o.null = 0 /\ v.o.sm = 1 THEN 1 ELSE 0) ELSE 0, (CHOOSE x \in V : TRUE)[1]>> ELSE <<>>
(* pend: the key of the latest failure whose message has not been read *)
J_C22(v) ==
  /\ Adopt(v)
  /\ IF v.c = "err"
     THEN /\ v.r = (IF v.len > 0 /\ v.onull = 0 THEN 1 ELSE 0) /\ v.over = 0
          /\ v.r = 1 => v.term = 1 /\ v.pre = 1
          /\ IF err = 0 THEN v.msg = NoErrText /\ UNCHANGED <<raw, texts, rules>>
             ELSE /\ v.msg # NoErrText /\ (raw.m # "" => v.msg = raw.m)
                  /\ v.text \in DOMAIN Defaults => Defaults[v.text] = err
                  /\ v.text \in DOMAIN texts => texts[v.text] = err
                  /\ texts' = (v.text :> err) @@ texts
                  /\ raw.key \in DOMAIN rules => rules[raw.key] = v.text
                  /\ rules' = (IF raw.key = <<>> THEN rules ELSE (raw.key :> v.text) @@ rules)
                  /\ raw' = [m |-> v.msg, key |-> raw.key]
     ELSE raw' = (IF v.ec # OK THEN [m |-> "", key |-> Key(v)] ELSE raw) /\ UNCHANGED <<texts, rules>>
TNext == /\ l <= Len(C) /\ UNCHANGED ci /\ l' = l + 1
         /\ LET v == C[l] IN
            /\ v.crash = 0
            /\ Failed(v.ec)
            /\ IF v.c = "reset" THEN /\ cls' = [s \in 1..NS |-> NoCl] /\ bufs' = [b \in 1..NB |-> <<>>] /\ dss' = [d \in 1..ND |-> NoDs] /\ fn' = BuiltIn
                                     /\ (Prop = "C17" => v.live0 = 0) /\ UNCHANGED <<raw, texts, rules>>
               ELSE CASE Prop = "C13" -> J_C13(v) /\ UNCHANGED <<raw, texts, rules>>
                      [] Prop = "C17" -> J_C17(v) /\ UNCHANGED <<raw, texts, rules>>
                      [] Prop = "C21" -> J_C21(v) /\ UNCHANGED <<raw, texts, rules>>
                      [] Prop = "C22" -> J_C22(v)
            /\ (l = Len(C)) => TLCSet(ci, TRUE)
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
