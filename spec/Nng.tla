-------------------------------- MODULE Nng --------------------------------
(***************************************************************************)
(* scc_sc_clustering (all seed methods but BATCHES) as a state machine:    *)
(* one public call = Search, then seeds one at a time, then the leftovers  *)
(* one at a time.  The actions are parameterised by the instance x so that *)
(* MC_Nng (exhaustive small instances) and Trace_Nng (recorded runs of the *)
(* real library) use the same definitions.                                 *)
(***************************************************************************)
EXTENDS NngGeom

VARIABLES phase,   \* "call" "seeding" "leftover" "done"
          g,       \* neighbour graph, fixed by Search
          seeds,   \* seeds in the order they were chosen
          asg,     \* points assigned in the seed phase
          con,     \* INWARDS_UPDATING: candidates already considered
          lab,     \* labels
          nxt,     \* leftover phase: next point to look at
          res      \* error code returned (-1 while running)
nvars == <<phase, g, seeds, asg, con, lab, nxt, res>>

Start(x) ==
  /\ phase = "call" /\ g = [v \in Pts(x) |-> {}] /\ seeds = <<>> /\ asg = {} /\ con = {}
  /\ lab = [v \in Pts(x) |-> -1] /\ nxt = 1 /\ res = -1

Fail(code) == /\ phase' = "done" /\ res' = code
              /\ UNCHANGED <<g, seeds, asg, con, lab, nxt>>

(* type minima are checked first; then the neighbour search *)
Search(x) ==
  /\ phase = "call"
  /\ \/ TypeShort(x) /\ Fail(NO_SOLUTION)
     \/ TypeOver(x) /\ Fail(INVALID_INPUT)
     \/ /\ ~TypeShort(x) /\ ~TypeOver(x)
        /\ LET gg == Graph(x)
           IN IF Arcs(gg) = {} THEN Fail(NO_SOLUTION)
              ELSE /\ g' = gg /\ phase' = "seeding"
                   /\ UNCHANGED <<seeds, asg, con, lab, nxt, res>>

TakeSeed(v, l) ==
  /\ seeds' = Append(seeds, v)
  /\ asg'   = asg \cup Hood(g, v)
  /\ lab'   = [p \in DOMAIN lab |-> IF p \in Hood(g, v) THEN l ELSE lab[p]]
  /\ UNCHANGED <<phase, g, nxt, res>>

(* a turn: the point considered becomes a seed iff its neighbourhood is untouched *)
Seed(x, v, l) ==
  /\ phase = "seeding" /\ x.sm # INWARDS_UPDATING
  /\ v \in NextSeeds(x, g, asg)
  /\ TakeSeed(v, l) /\ con' = con
Consider(x, v, l) ==
  /\ phase = "seeding" /\ x.sm = INWARDS_UPDATING
  /\ v \in NextCandidates(g, asg, con)
  /\ con' = con \cup {v}
  /\ IF v \in Free(g, asg) THEN TakeSeed(v, l)
     ELSE UNCHANGED <<phase, g, seeds, asg, lab, nxt, res>>
(* the unordered machine: any eligible seed, in any order *)
AnySeed(x, v, l) ==
  /\ phase = "seeding" /\ v \in Free(g, asg)
  /\ TakeSeed(v, l) /\ con' = con

EndSeeding(x) ==
  /\ phase = "seeding" /\ seeds # <<>> /\ Free(g, asg) = {}
  /\ IF NeedsEst(x) /\ EstNum(x, g, seeds) = 0 THEN Fail(NO_SOLUTION)
     ELSE phase' = "leftover" /\ UNCHANGED <<g, seeds, asg, con, lab, nxt, res>>

Leftover(x, l) ==
  /\ phase = "leftover" /\ nxt <= x.n
  /\ nxt' = nxt + 1
  /\ IF nxt \in asg THEN lab' = lab
     ELSE /\ l \in Allowed(x, g, asg, seeds, lab, nxt)
          /\ lab' = [lab EXCEPT ![nxt] = l]
  /\ UNCHANGED <<phase, g, seeds, asg, con, res>>
Return(x) ==
  /\ phase = "leftover" /\ nxt > x.n
  /\ phase' = "done" /\ res' = OK
  /\ UNCHANGED <<g, seeds, asg, con, lab, nxt>>

(***************************************************************************)
(* The properties, as predicates over an outcome (code ec, K, labels L).   *)
(***************************************************************************)
Members(L, c) == {p \in DOMAIN L : L[p] = c}
P_C01(x, ec, K, L) == ec = OK =>
  /\ K >= 1
  /\ \A c \in 0..(K - 1) : Cardinality(Members(L, c)) >= x.size
  /\ \A p \in DOMAIN L : L[p] \in -1..(K - 1)
P_C02(x, ec, K, L) ==
  /\ ec = OK => \A c \in 0..(K - 1) :
       /\ Cardinality(Members(L, c)) >= x.size
       /\ \A t \in 1..NumTypes(x) : Cardinality({p \in Members(L, c) : x.tl[p] = t}) >= x.tc[t]
  /\ (TypeShort(x) /\ ~TypeOver(x)) => ec = NO_SOLUTION
  /\ (TypeOver(x) /\ ~TypeShort(x)) => ec = INVALID_INPUT
  /\ (TypeOver(x) /\ TypeShort(x)) => ec \in {NO_SOLUTION, INVALID_INPUT}
SomeFeasible(x) == \E v \in Elig(x) : Feasible1(x, v)
P_C03(x, ec, K, L) == (~TypeOver(x)) =>
  /\ ec \in {OK, NO_SOLUTION}
  /\ ec = NO_SOLUTION => K = 0
  /\ ~SomeFeasible(x) => ec = NO_SOLUTION
  /\ (SomeFeasible(x) /\ ~NeedsEst(x)) => ec = OK
=============================================================================
