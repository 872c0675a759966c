----------------------------- MODULE Trace_Line -----------------------------
(* Recorded runs on large inputs against NngLine. A case is judged in three *)
(* steps: windows, certificate, verdict of the property.                    *)
EXTENDS NngLine, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NC    == Len(Cases)
Prop  == IOEnv.PROP
VARIABLES ci, st, W, e
tvars == <<ci, st, W, e>>
ASSUME \A c \in 1..NC : TLCSet(c, FALSE)
C == Cases[ci]
X == C.x
OK == 0  NO_SOLUTION == 4
TInit == ci \in 1..NC /\ st = "count" /\ W = <<>> /\ e = <<0, 0>>
(* predicates over labels only *)
ByCount == /\ st = "count" /\ C.crash = 0 /\ Prop \in {"C01", "C02"}
           /\ CASE Prop = "C01" -> (C.ec = OK /\ Counted(C, X.size)) = TRUE
                [] Prop = "C02" -> (C.ec = OK /\ Counted(C, X.size) /\ CountedT(C, X.tc, X.tl)) = TRUE
           /\ TLCSet(ci, TRUE) /\ st' = "done" /\ UNCHANGED <<ci, W, e>>
Prepare == /\ st = "count" /\ C.crash = 0 /\ Prop \notin {"C01", "C02"}
           /\ ((LineOK(X) /\ TieFreeLine(X)) = TRUE)
           /\ W' = Windows(X) /\ st' = "windows" /\ UNCHANGED <<ci, e>>
Feas == \E r \in 1..X.n : Is(W, r)
Windowed == /\ st = "windows"
            /\ IF ~Feas THEN C.ec = NO_SOLUTION /\ C.k = 0 ELSE C.ec = OK
            /\ IF Prop = "C03" \/ ~Feas THEN st' = "done" /\ TLCSet(ci, TRUE) /\ UNCHANGED e
               ELSE /\ (SeedsFit(X, W, C) = TRUE)
                    /\ e' = (IF LNeedsEst(X) THEN <<LNum(X, W, C), LDen(X, C)>> ELSE <<0, 0>>)
                    /\ st' = "seeds"
            /\ UNCHANGED <<ci, W>>
(* in an unexpected seed order the seeds cannot be told from the labels; that is C07's concern *)
Known == Ordered(X, W, C) /\ First(X, W, C)
Settle == /\ st = "seeds"
          /\ CASE Prop = "C06" -> Packed(X, W, C) = TRUE
               [] Prop = "C09" -> (Packed(X, W, C) /\ Ordered(X, W, C) /\ First(X, W, C) /\ (\A r \in LOut(C) : BatchOut(X, W, C, r)) /\ Renamed(C.ref, C.lab, C.mp)) = TRUE
               [] Prop = "C07" -> Ordered(X, W, C) = TRUE
               [] Prop = "C04" -> (Packed(X, W, C) /\ SortedSeeds(X, C) /\ (Known => \A r \in LOut(C) : LCover(X, W, C, r, e))) = TRUE
               [] Prop = "C05" -> (Packed(X, W, C) /\ SortedSeeds(X, C) /\ (Known => \A r \in LOut(C) : LRadius(X, W, C, r, e))) = TRUE
               [] Prop = "C08" -> (Packed(X, W, C) /\ SortedSeeds(X, C) /\ (Known => \A r \in LOut(C) : LClosest(X, W, C, r, e))) = TRUE
               [] Prop = "C25" -> (Packed(X, W, C) /\ Ordered(X, W, C) /\ SortedSeeds(X, C)
                                   /\ (Known => \A r \in LOut(C) : LCover(X, W, C, r, e) /\ LRadius(X, W, C, r, e) /\ LClosest(X, W, C, r, e))) = TRUE
          /\ TLCSet(ci, TRUE) /\ st' = "done" /\ UNCHANGED <<ci, W, e>>
TNext == ByCount \/ Prepare \/ Windowed \/ Settle
TSpec == TInit /\ [][TNext]_tvars
Report == PrintT(<<"REJECTED", {c \in 1..NC : ~TLCGet(c)}>>)
=============================================================================
