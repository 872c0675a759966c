------------------------------ MODULE Provider ------------------------------
(***************************************************************************)
(* The contract under which the library may call a distance provider       *)
(* during one public call on a data set of n points. An event is a record  *)
(*   e   the function called            o    the search object             *)
(*   known  data set / object is ours   n    size of that data set         *)
(*   sl,slo,shi  number, least and largest of the search indices           *)
(*   ql,qlo,qhi  the same for the query indices                            *)
(*   k, rad, rpos, outq  neighbours wanted, radius search?, radius > 0,    *)
(*                       output array for the answered queries given       *)
(*   chg  the search-index array differs from what it was at initialisation*)
(*   ok   what the provider answers                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES objs, done     \* objs: open search objects, id -> [kind, len]; done: the public call has returned
pvars == <<objs, done>>
PInit == objs = << >> /\ done = FALSE
Ids == DOMAIN objs
InSet(m, len, lo, hi) == len = 0 \/ (lo >= 0 /\ hi < m)
KindOf(e) == IF e \in {"imax", "gmax", "cmax"} THEN "max" ELSE "nn"
(* init_max_dist_object / init_nn_search_object *)
OpenObj(v) ==
  /\ ~done /\ v.e \in {"imax", "inn"} /\ v.known = 1
  /\ v.sl >= 1 /\ InSet(v.n, v.sl, v.slo, v.shi)
  /\ IF v.ok = 1 THEN v.o \notin Ids /\ objs' = (v.o :> [kind |-> KindOf(v.e), len |-> v.sl]) @@ objs
                 ELSE UNCHANGED objs
  /\ UNCHANGED done
(* get_max_dist / nearest_neighbor_search *)
UseObj(v) ==
  /\ ~done /\ v.e \in {"gmax", "snn"} /\ v.known = 1
  /\ v.o \in Ids /\ objs[v.o].kind = KindOf(v.e) /\ objs[v.o].len = v.sl
  /\ v.chg = 0
  /\ InSet(v.n, v.ql, v.qlo, v.qhi)
  /\ v.e = "snn" => v.k >= 1 /\ v.k <= v.sl /\ (v.rad = 1 => v.rpos = 1 /\ v.outq = 1)
  /\ UNCHANGED pvars
CloseObj(v) ==
  /\ ~done /\ v.e \in {"cmax", "cnn"} /\ v.known = 1
  /\ v.o \in Ids /\ objs[v.o].kind = KindOf(v.e)
  /\ objs' = [i \in Ids \ {v.o} |-> objs[i]] /\ UNCHANGED done
(* get_dist_matrix / get_dist_rows: no object *)
Plain(v) ==
  /\ ~done /\ v.e \in {"matrix", "rows"} /\ v.known = 1
  /\ InSet(v.n, v.sl, v.slo, v.shi) /\ (v.e = "rows" => InSet(v.n, v.ql, v.qlo, v.qhi))
  /\ UNCHANGED pvars
Event(v) == OpenObj(v) \/ UseObj(v) \/ CloseObj(v) \/ Plain(v)
(* the public call returns: every object opened has been closed *)
CallReturns == ~done /\ Ids = {} /\ done' = TRUE /\ UNCHANGED objs
=============================================================================
