------------------------------- MODULE MC_Nng -------------------------------
(* Exhaustive check of the machine on all small instances of a family.     *)
EXTENDS Nng
CONSTANTS NPts, DMax, Family
(* families of instances: sizes, methods, leftover methods, radii (-1 none, -2 estimated, -3 seed radius) *)
F == CASE Family = "order"  -> [sz |-> {2, 3}, sm |-> {0, 2, 3, 4, 5}, pu |-> {0}, su |-> {0}, rs |-> {-1, 1}, rp |-> {-3}, rq |-> {-3}, ty |-> 0, el |-> 1]
       [] Family = "prim"   -> [sz |-> {2, 3}, sm |-> {0, 2}, pu |-> {0, 1, 2, 3}, su |-> {0}, rs |-> {-1, 1}, rp |-> {-3, -1, 1, -2}, rq |-> {-3}, ty |-> 0, el |-> 0]
       [] Family = "second" -> [sz |-> {2}, sm |-> {0}, pu |-> {0, 1, 2, 3}, su |-> {0, 2, 3}, rs |-> {-1}, rp |-> {-3, 1, -2}, rq |-> {-3, 1, -2}, ty |-> 0, el |-> 1]
       [] Family = "types"  -> [sz |-> {2, 3}, sm |-> {0, 5}, pu |-> {0, 2}, su |-> {0}, rs |-> {-1, 1}, rp |-> {-3}, rq |-> {-3}, ty |-> 1, el |-> 0]
Sizes == F.sz  Methods == F.sm  Pums == F.pu  Sums == F.su  SeedRadii == F.rs  PrimRadii == F.rp  SecRadii == F.rq
TypeChoices == F.ty  EligChoices == F.el
VARIABLE inst
vars == <<inst, phase, g, seeds, asg, con, lab, nxt, res>>

N == NPts
Pairs == {pr \in (1..N) \X (1..N) : pr[1] > pr[2]}
Mat(f) == [a \in 1..N |-> [b \in 1..N |-> IF a = b THEN 0 ELSE IF a > b THEN f[<<a, b>>] ELSE f[<<b, a>>]]]
RECURSIVE Sorted(_, _, _, _)
Sorted(D, pr, v, S) == IF S = {} THEN <<>> ELSE
  LET m == CHOOSE a \in S : \A b \in S : D[v][a] < D[v][b] \/ (D[v][a] = D[v][b] /\ pr[a] <= pr[b])
  IN <<m>> \o Sorted(D, pr, v, S \ {m})

(* priorities: identity, or reversed, so that a point need not be its own nearest neighbour *)
Prios == {[p \in 1..N |-> p], [p \in 1..N |-> N + 1 - p]}
(* types: <<tc, tl>> *)
TypeSet == {<<<<>>, <<>>>>} \cup
           IF TypeChoices = 0 THEN {}
           ELSE {<<tc, [p \in 1..N |-> IF p \in S THEN 1 ELSE 2]>> :
                   tc \in {<<1, 0>>, <<1, 1>>, <<0, 2>>, <<2, 1>>}, S \in {{1}, {2, 3}, 1..(N - 1)}}
EligSet == {[i \in 1..N |-> i]} \cup IF EligChoices = 0 THEN {} ELSE {<<1, 2>>, [i \in 1..(N - 1) |-> i + 1], <<N>>}

Init ==
  /\ \E f \in [Pairs -> 0..DMax], pr \in Prios, sz \in Sizes, ty \in TypeSet, el \in EligSet,
        sm \in Methods, pu \in Pums, su \in Sums, rs \in SeedRadii, rp \in PrimRadii, rq \in SecRadii :
       /\ LET D == Mat(f) IN
          inst = [n |-> N, size |-> sz, D |-> D, prio |-> pr,
                  ord |-> [v \in 1..N |-> Sorted(D, pr, v, 1..N)],
                  elig |-> el, tc |-> ty[1], tl |-> ty[2], rs |-> rs, sm |-> sm, pum |-> pu, sum |-> su,
                  rp |-> IF rp = -3 THEN rs ELSE rp, rq |-> IF rq = -3 THEN rs ELSE rq]
       /\ (pu \in {IGNORE, ANY_NEIGHBOR}) => rp = -3        \* radius not looked at
       /\ (su = IGNORE) => rq = -3
  /\ Start(inst)

Next ==
  /\ UNCHANGED inst
  /\ \/ Search(inst)
     \/ \E v \in Pts(inst) : Seed(inst, v, Len(seeds)) \/ Consider(inst, v, Len(seeds))
     \/ EndSeeding(inst)
     \/ \E l \in -1..(Len(seeds) - 1) : Leftover(inst, l)
     \/ Return(inst)
Spec == Init /\ [][Next]_vars

Done == phase = "done"
K    == IF res = OK THEN Len(seeds) ELSE 0
L    == lab
I_Cert == phase = "call" => CertOK(inst)
I_C01 == Done => P_C01(inst, res, K, L)
I_C02 == Done => P_C02(inst, res, K, L)
I_C03 == Done => P_C03(inst, res, K, L)
(* C04: nobody inside reach is left out, nobody outside is taken in *)
I_C04 == (Done /\ res = OK) =>
  /\ \A i \in 1..Len(seeds) : \A p \in Hood(g, seeds[i]) : L[p] = i - 1
  /\ \A p \in Pts(inst) \ asg : CoverageOK(inst, g, asg, seeds, p, L[p])
  /\ (inst.pum \in {CLOSEST_ASSIGNED, CLOSEST_SEED} /\ inst.rp = NoRadius) => \A p \in Elig(inst) : L[p] # -1
  /\ (inst.sum # IGNORE /\ inst.rq = NoRadius) => \A p \in Pts(inst) : L[p] # -1
  /\ (inst.pum = IGNORE /\ inst.sum = IGNORE) => \A p \in Pts(inst) : L[p] # -1 => p \in asg
I_C05 == (Done /\ res = OK) =>
  /\ \A i \in 1..Len(seeds) : \A q \in g[seeds[i]] : Within(inst, seeds[i], q, inst.rs)
  /\ \A p \in Pts(inst) \ asg : RadiusOK(inst, g, asg, seeds, L, p, L[p])
I_C06 == (phase # "call" /\ res \in {-1, OK}) =>
  /\ \A i, j \in 1..Len(seeds) : i # j => Hood(g, seeds[i]) \cap Hood(g, seeds[j]) = {}
  /\ \A i \in 1..Len(seeds) : seeds[i] \in Elig(inst)
  /\ \A i \in 1..Len(seeds) :     \* nobody outside the neighbourhood is closer than somebody inside (untyped)
       ~Typed(inst) => \A q \in g[seeds[i]], u \in Pts(inst) \ Hood(g, seeds[i]) : inst.D[seeds[i]][q] <= inst.D[seeds[i]][u]
  /\ Done => \A v \in Arcs(g) : v \in RangeOf(seeds) \/ \E s \in RangeOf(seeds) : Hood(g, s) \cap Hood(g, v) # {}
I_C07 == (phase \in {"leftover", "done"} /\ res \in {-1, OK} /\ inst.sm = LEXICAL) =>
  \* index order: a point that is not a seed was blocked by a seed before it
  \A v \in Arcs(g) : v \in RangeOf(seeds) \/ \E s \in RangeOf(seeds) : s < v /\ Hood(g, s) \cap Hood(g, v) # {}
I_C08 == (Done /\ res = OK) => \A p \in Pts(inst) \ asg : ClosestOK(inst, g, asg, seeds, L, p, L[p])
(* graph construction agrees with declarative feasibility, and the sizes are right *)
I_Graph == phase = "seeding" =>
  \A v \in Pts(inst) : (v \in Arcs(g)) <=> (v \in Elig(inst) /\ Feasible1(inst, v))
NoStuck == phase # "done" => ENABLED Next
=============================================================================
