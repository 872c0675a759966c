---------------------------- MODULE Trace_Faults ----------------------------
(* Recorded faulted calls: each case is the resource-event stream of one   *)
(* call with one fault, of the repetition of that call and of the release  *)
(* of its objects, with the observable results of both calls.              *)
EXTENDS Faults, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
VARIABLES ci, l
tvars == <<held, open, fault, rets, stage, ci, l>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci]
TInit == ci \in 1..NC /\ l = 1 /\ FInit
AllZero(v) == \A i \in DOMAIN v : v[i] = "0"
(* the observable result of the k-th call, returning code c *)
Result(k, c) ==
  LET after == IF k = 1 THEN C.after ELSE C.after2
      x     == IF k = 1 THEN C.x ELSE C.x2
  IN IF c = C.base.ec /\ (c = OK \/ (after = C.base.after /\ x = C.base.x))
     THEN after = C.base.after /\ x = C.base.x      \* the normal result
     ELSE after = C.before /\ AllZero(x)            \* error: nothing changed, nothing reported
Step(e) ==
  LET c == e[1] id == e[2] IN
  \/ c = 1 /\ Alloc(id)
  \/ c = 2 /\ AllocFails
  \/ c = 3 /\ Free(id)
  \/ c = 4 /\ Open(id)
  \/ c = 5 /\ Search(id)
  \/ c = 6 /\ ProviderFails(id)
  \/ c = 7 /\ Close(id)
  \/ c = 9 /\ Return(id, C.base.ec, C.lib) /\ Result(Len(rets) + 1, id)
  \/ c = 10 /\ Released
TNext == /\ l <= Len(C.ev) /\ C.crash = 0
         /\ Step(C.ev[l]) /\ l' = l + 1 /\ UNCHANGED ci
         /\ (stage' = "end") => TLCSet(ci, TRUE)
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
