------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Resources of one public call and of its repetition: memory blocks taken *)
(* from the allocator, search objects opened at the distance provider, the *)
(* faults they report, and what a call may return after a fault.           *)
(*   held    blocks taken and not yet released (the clustering object's own*)
(*           blocks included)                                              *)
(*   open    search objects opened and not yet closed                      *)
(*   fault   the first fault of the current call: "none", "alloc", "cb"    *)
(*   rets    the codes returned so far (first call, repetition)            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES held, open, fault, rets, stage
fvars == <<held, open, fault, rets, stage>>
OK == 0  NOMEM == 3  DISTERR == 6
FInit == held = {} /\ open = {} /\ fault = "none" /\ rets = <<>> /\ stage = "call"
Mark(k) == fault' = IF fault = "none" THEN k ELSE fault
Alloc(id)     == stage = "call" /\ id \notin held /\ held' = held \cup {id} /\ UNCHANGED <<open, fault, rets, stage>>
AllocFails    == stage = "call" /\ Mark("alloc") /\ UNCHANGED <<held, open, rets, stage>>
Free(id)      == stage = "call" /\ id \in held /\ held' = held \ {id} /\ UNCHANGED <<open, fault, rets, stage>>
Open(o)       == stage = "call" /\ o \notin open /\ open' = open \cup {o} /\ UNCHANGED <<held, fault, rets, stage>>
(* o = 0: a provider call that needs no search object *)
Search(o)     == stage = "call" /\ o \in open \cup {0} /\ UNCHANGED fvars
ProviderFails(o) == stage = "call" /\ o \in open \cup {0} /\ Mark("cb") /\ UNCHANGED <<held, open, rets, stage>>
Close(o)      == stage = "call" /\ o \in open /\ open' = open \ {o} /\ UNCHANGED <<held, fault, rets, stage>>
(* codes a call may return: base is the code without faults; lib: the provider in force is the built-in one, *)
(* whose own allocations can fail and are then reported as a search error                                   *)
Codes(f, base, lib) == CASE f = "none"  -> {base}
                         [] f = "cb"    -> {DISTERR}
                         [] f = "alloc" -> {base, NOMEM} \cup (IF lib THEN {DISTERR} ELSE {})
Return(c, base, lib) ==
  /\ stage = "call" /\ open = {} /\ c \in Codes(fault, base, lib)
  /\ rets' = Append(rets, c) /\ fault' = "none"
  /\ UNCHANGED <<held, open, stage>>
(* the caller has freed its objects: nothing may be left *)
Released == stage = "call" /\ Len(rets) >= 1 /\ held = {} /\ open = {} /\ stage' = "end" /\ UNCHANGED <<held, open, fault, rets>>
=============================================================================
