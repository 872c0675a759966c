---------------------------- MODULE MC_Provider ----------------------------
(* All event sequences of up to MaxEv events on a data set of N points with *)
(* at most two object ids: exactly the legal ones are accepted (the history *)
(* variables recount opens, closes and uses independently of `objs`).       *)
EXTENDS Provider
CONSTANTS N, MaxEv
VARIABLES hist
mv == <<objs, done, hist>>
Base == [e |-> "rows", o |-> 0, known |-> 1, n |-> N, sl |-> N, slo |-> 0, shi |-> N - 1, ql |-> 1, qlo |-> 0, qhi |-> 0, k |-> 1, rad |-> 0, rpos |-> 1, outq |-> 1, chg |-> 0, ok |-> 1]
Ev == {[Base EXCEPT !.e = e, !.o = o, !.known = kn, !.shi = hi, !.ok = ok] : e \in {"imax", "inn"}, o \in {1, 2}, kn \in {0, 1}, hi \in {N - 1, N}, ok \in {0, 1}}
      \cup {[Base EXCEPT !.e = "gmax", !.o = o, !.qhi = qh, !.chg = c] : o \in {1, 2}, qh \in {0, N}, c \in {0, 1}}
      \cup {[Base EXCEPT !.e = "snn", !.o = o, !.qhi = qh, !.k = k, !.rad = rd, !.rpos = rp] : o \in {1, 2}, qh \in {0, N}, k \in {0, N, N + 1}, rd \in {0, 1}, rp \in {0, 1}}
      \cup {[Base EXCEPT !.e = e, !.o = o] : e \in {"cmax", "cnn"}, o \in {1, 2}}
      \cup {[Base EXCEPT !.qhi = qh] : qh \in {0, N}}
Init == PInit /\ hist = <<>>
Next == \/ Len(hist) < MaxEv /\ \E v \in Ev : Event(v) /\ hist' = Append(hist, v)
        \/ CallReturns /\ UNCHANGED hist
        \/ done /\ UNCHANGED mv
        \/ Len(hist) = MaxEv /\ UNCHANGED mv
Spec == Init /\ [][Next]_mv
Count(P(_)) == Cardinality({i \in DOMAIN hist : P(hist[i])})
Opens(o)  == Count(LAMBDA v : v.e \in {"imax", "inn"} /\ v.o = o /\ v.ok = 1)
Closes(o) == Count(LAMBDA v : v.e \in {"cmax", "cnn"} /\ v.o = o)
I_Balance == \A o \in {1, 2} : Opens(o) - Closes(o) = (IF o \in Ids THEN 1 ELSE 0)
I_End     == done => \A o \in {1, 2} : Opens(o) = Closes(o)
I_Legal   == \A i \in DOMAIN hist : hist[i].known = 1 /\ hist[i].qhi < N + (IF hist[i].e \in {"imax", "inn", "cmax", "cnn"} THEN 1 ELSE 0)
             /\ (hist[i].e = "snn" => hist[i].k <= hist[i].sl /\ (hist[i].rad = 1 => hist[i].rpos = 1))
I_UseOpen == \A i \in DOMAIN hist : hist[i].e \in {"gmax", "snn", "cmax", "cnn"} =>
               \E j \in 1..(i - 1) : hist[j].e \in {"imax", "inn"} /\ hist[j].o = hist[i].o /\ hist[j].ok = 1
                                     /\ \A m \in (j + 1)..(i - 1) : ~(hist[m].e \in {"cmax", "cnn"} /\ hist[m].o = hist[i].o)
=============================================================================
