------------------------------ MODULE MC_Line ------------------------------
(* Every outcome of the machine Nng on points of a line satisfies NngLine.  *)
EXTENDS Nng, NngLine
CONSTANTS NPts, XMax, AllPerms
VARIABLES inst, base
vars == <<inst, base, phase, g, seeds, asg, con, lab, nxt, res>>
N == NPts
Perms == {f \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => f[a] # f[b]}
RECURSIVE SortR(_)
SortR(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SortR(S \ {m})
RECURSIVE SortBy(_, _, _)
SortBy(x, v, S) == IF S = {} THEN <<>> ELSE
  LET m == CHOOSE a \in S : \A b \in S : x[v] - x[a] = 0 \/ (LET da == IF x[v] > x[a] THEN x[v] - x[a] ELSE x[a] - x[v]  db == IF x[v] > x[b] THEN x[v] - x[b] ELSE x[b] - x[v] IN da < db \/ (da = db /\ a <= b))
  IN <<m>> \o SortBy(x, v, S \ {m})
Init == /\ \E XS \in {S \in SUBSET (0..XMax) : Cardinality(S) = N}, pm \in (IF AllPerms THEN Perms ELSE {f \in Perms : f[1] = 2 /\ f[3] # N}) :
             base = <<SortR(XS), pm>>
        /\ inst = <<>> /\ phase = "pick" /\ g = <<>> /\ seeds = <<>> /\ asg = {} /\ con = {} /\ lab = <<>> /\ nxt = 1 /\ res = -1
(* the instance is chosen in a step of its own so that all workers take part *)
PickInst ==
  /\ phase = "pick" /\ base' = base
  /\ \E sz \in {2, 3}, el \in {1..N, {2, N}},
     sm \in {0, 2, 4}, pu \in {0, 1, 2, 3}, su \in {0, 2, 3}, rs \in {-1, 2}, rp \in {-1, 1, -2}, rq \in {-1, 2, -2} :
    LET xs == base[1]  pm == base[2]
        rk == [p \in 1..N |-> CHOOSE r \in 1..N : pm[r] = p]
        co == [p \in 1..N |-> xs[rk[p]]]
        D  == [a \in 1..N |-> [b \in 1..N |-> IF co[a] > co[b] THEN co[a] - co[b] ELSE co[b] - co[a]]]
    IN /\ sm # 0 => pu = 0 /\ su = 0
       /\ pu \in {0, 1} => rp = -1
       /\ su = 0 => rq = -1
       /\ inst' = [n |-> N, size |-> sz, D |-> D, prio |-> [p \in 1..N |-> p], ord |-> [v \in 1..N |-> SortBy(co, v, 1..N)],
                  elig |-> SortR(el), tc |-> <<>>, tl |-> <<>>, rs |-> rs, sm |-> sm, pum |-> pu, sum |-> su,
                  rp |-> rp, rq |-> rq, xs |-> xs, pt |-> pm, rk |-> rk, el |-> [p \in 1..N |-> IF p \in el THEN 1 ELSE 0]]
       /\ (TieFreeLine(inst') = TRUE)
  /\ phase' = "call" /\ g' = [v \in 1..N |-> {}] /\ lab' = [v \in 1..N |-> -1] /\ UNCHANGED <<seeds, asg, con, nxt, res>>
Next ==
  \/ PickInst
  \/ /\ phase # "pick" /\ UNCHANGED <<inst, base>>
     /\ \/ Search(inst)
        \/ \E v \in Pts(inst) : Seed(inst, v, Len(seeds))
        \/ EndSeeding(inst)
        \/ \E l \in -1..(Len(seeds) - 1) : Leftover(inst, l)
        \/ Return(inst)
Spec == Init /\ [][Next]_vars
Done == phase = "done"
WW   == Windows(inst)
Cert == LET s(l) == {r \in 1..N : Is(WW, r) /\ \A q \in Rng(WW[r]) : lab[inst.pt[q]] = l - 1}
            best(l) == CHOOSE r \in s(l) : \A q \in s(l) : LKey(inst, WW, r) < LKey(inst, WW, q) \/ (LKey(inst, WW, r) = LKey(inst, WW, q) /\ r <= q)
            sd == [l \in 1..Len(seeds) |-> best(l)]
            own == [r \in 1..N |-> IF \E l \in DOMAIN sd : r \in Rng(WW[sd[l]]) THEN sd[CHOOSE l \in DOMAIN sd : r \in Rng(WW[sd[l]])] ELSE 0]
            so == [i \in DOMAIN sd |-> inst.rk[SortR({inst.pt[sd[l]] : l \in DOMAIN sd})[i]]]
        IN [lab |-> lab, k |-> Len(seeds), sd |-> sd, own |-> own, so |-> so]
I_Graph == phase = "seeding" => \A r \in 1..N : (IF Is(WW, r) THEN {inst.pt[q] : q \in Rng(WW[r])} \ {inst.pt[r]} ELSE {}) = g[inst.pt[r]]
I_Feas == Done /\ res = NO_SOLUTION => (~\E r \in 1..N : Is(WW, r)) \/ LNeedsEst(inst)
I_Line == (Done /\ res = OK) =>
  LET c == Cert
      e == IF LNeedsEst(inst) THEN <<LNum(inst, WW, c), LDen(inst, c)>> ELSE <<0, 0>>
  IN /\ LineOK(inst) /\ SeedsFit(inst, WW, c) /\ Packed(inst, WW, c) /\ Ordered(inst, WW, c) /\ First(inst, WW, c) /\ SortedSeeds(inst, c)
     /\ {inst.pt[c.sd[l]] : l \in 1..c.k} = RangeOf(seeds) \/ inst.sm # LEXICAL
     /\ LNeedsEst(inst) => e[1] * EstDen(inst, seeds) = EstNum(inst, g, seeds) * e[2]
     /\ \A r \in LOut(c) : LCover(inst, WW, c, r, e) /\ LRadius(inst, WW, c, r, e) /\ LClosest(inst, WW, c, r, e)
=============================================================================
