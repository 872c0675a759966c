------------------------------ MODULE MC_Faults ------------------------------
(***************************************************************************)
(* A disciplined call as a program over the resource machine: any sequence *)
(* of up to MaxLen steps "A" (needed block), "S" (generous block with a    *)
(* fallback), "O" (open), "Q" (search), "C" (close), "F" (free), "W" (write*)
(* labels), any single or persistent fault, releases in any order. Checks  *)
(* that unwinding in any order gives the outcome C14/C15 promise, that the *)
(* clustering is restored, and that repeating the call gives the normal    *)
(* result; the rules of Faults never block such a call (deadlock check).   *)
(***************************************************************************)
EXTENDS Faults
CONSTANTS MaxLen
VARIABLES pc, run, plan, labels, sticky, next, own
mvars == <<held, open, fault, rets, stage, pc, run, plan, labels, sticky, next, own>>
Steps == {"A", "S", "O", "Q", "C", "F", "W"}
Plans == UNION {[1..k -> Steps] : k \in 0..MaxLen}
Init == /\ FInit /\ plan \in Plans /\ pc = 1 /\ run = "go" /\ labels = "before" /\ sticky \in BOOLEAN /\ next = 2 /\ own = {}
Temp == held \ own
Faulty == Len(rets) = 0      \* only the first call is faulted
Bump == next' = next + 1
Adv == pc' = pc + 1
KeepM == UNCHANGED <<plan, labels, sticky, next, own, run>>
DoStep ==
  /\ run = "go" /\ pc <= Len(plan)
  /\ LET s == plan[pc] IN
     \/ s \in {"A", "S"} /\ ~(Faulty /\ sticky /\ fault = "alloc") /\ Alloc(next) /\ Bump /\ Adv /\ UNCHANGED <<plan, labels, sticky, own, run>>
     \/ s = "A" /\ Faulty /\ (fault = "none" \/ (sticky /\ fault = "alloc")) /\ AllocFails /\ run' = "unwind" /\ Adv /\ UNCHANGED <<plan, labels, sticky, next, own>>
     \/ s = "S" /\ Faulty /\ (fault = "none" \/ (sticky /\ fault = "alloc")) /\ AllocFails /\ Adv /\ KeepM       \* falls back
     \/ s = "O" /\ Open(next) /\ Bump /\ Adv /\ UNCHANGED <<plan, labels, sticky, own, run>>
     \/ s = "Q" /\ open # {} /\ (\E o \in open : Search(o)) /\ Adv /\ KeepM
     \/ s \in {"O", "Q"} /\ Faulty /\ fault = "none" /\ (s = "O" \/ open # {}) /\ (\E o \in open \cup {0} : ProviderFails(o)) /\ run' = "unwind" /\ Adv /\ UNCHANGED <<plan, labels, sticky, next, own>>
     \/ s = "C" /\ (\E o \in open : Close(o)) /\ Adv /\ KeepM
     \/ s = "F" /\ (\E b \in Temp : Free(b)) /\ Adv /\ KeepM
     \/ s = "W" /\ labels' = "scratch" /\ Adv /\ UNCHANGED <<held, open, fault, rets, stage, plan, sticky, next, own, run>>
     \/ s = "Q" /\ open = {} /\ Adv /\ KeepM /\ UNCHANGED fvars
     \/ s = "C" /\ open = {} /\ Adv /\ KeepM /\ UNCHANGED fvars
     \/ s = "F" /\ Temp = {} /\ Adv /\ KeepM /\ UNCHANGED fvars
Finish == /\ run = "go" /\ pc > Len(plan) /\ run' = "unwind" /\ labels' = "result"
          /\ UNCHANGED <<held, open, fault, rets, stage, pc, plan, sticky, next, own>>
Unwind == /\ run = "unwind"
          /\ \/ \E b \in Temp : Free(b)
             \/ \E o \in open : Close(o)
          /\ UNCHANGED <<pc, plan, labels, sticky, next, own, run>>
Leave == /\ run = "unwind" /\ Temp = {} /\ open = {}
         /\ LET good == labels = "result"
                c == IF good THEN OK ELSE IF fault = "cb" THEN DISTERR ELSE NOMEM
            IN /\ Return(c, OK, FALSE)
               /\ labels' = (IF good THEN "result" ELSE "before")
               /\ run' = (IF good THEN "stop" ELSE "go") /\ pc' = 1
         /\ UNCHANGED <<plan, sticky, next, own>>
End == run = "stop" /\ Released /\ UNCHANGED <<pc, run, plan, labels, sticky, next, own>>
Idle == stage = "end" /\ UNCHANGED mvars
Next == DoStep \/ Finish \/ Unwind \/ Leave \/ End \/ Idle
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
I_Restore == \A i \in DOMAIN rets : rets[i] # OK => i = 1
I_Labels  == (run = "stop" => labels = "result") /\ (run = "go" /\ pc = 1 => labels = "before")
I_Closed  == stage = "end" => held = {} /\ open = {}
I_Len     == Len(rets) <= 2
Terminates == <>(stage = "end")
=============================================================================
