------------------------------ MODULE MC_Pure ------------------------------
(* An implementation with hidden state h answering F(a, h): Pure accepts    *)
(* all its histories iff F does not depend on h. Both halves are checked:   *)
(* for every F the history is blocked exactly when it is inconsistent.      *)
EXTENDS Pure
CONSTANTS Args, Hidden, Vals, MaxLen
VARIABLES F, h, hist, blocked
mv == <<memo, F, h, hist, blocked>>
Init == UInit /\ F \in [Args \X Hidden -> Vals] /\ h \in Hidden /\ hist = <<>> /\ blocked = FALSE
Step == /\ ~blocked /\ Len(hist) < MaxLen
        /\ \E a \in Args, h2 \in Hidden :
             /\ hist' = Append(hist, <<a, F[<<a, h>>]>>) /\ h' = h2 /\ UNCHANGED F
             /\ \/ Call(a, F[<<a, h>>], TRUE) /\ blocked' = FALSE
                \/ ~ENABLED Call(a, F[<<a, h>>], TRUE) /\ blocked' = TRUE /\ UNCHANGED memo
Fail == ~blocked /\ Disturb /\ (\E h2 \in Hidden : h' = h2) /\ UNCHANGED <<F, hist, blocked>>
Idle == (blocked \/ Len(hist) = MaxLen) /\ UNCHANGED mv
Next == Step \/ Fail \/ Idle
Spec == Init /\ [][Next]_mv
Consistent == \A i, j \in DOMAIN hist : hist[i][1] = hist[j][1] => hist[i][2] = hist[j][2]
I_Exact == blocked <=> ~Consistent
I_PureAccepted == (\A a \in Args, x, y \in Hidden : F[<<a, x>>] = F[<<a, y>>]) => ~blocked
=============================================================================
