------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Design model of concurrent calls of one process.  Each thread performs  *)
(* its plan, a sequence of calls of classes 0..Classes-1.  A call prepares *)
(* a working state (coefficients of an epoch, Legendre functions of a      *)
(* latitude, selected degrees), and uses it.  The working state is         *)
(*   locked  one for the process, a call excludes all others (as the       *)
(*           library does with the lock of the interpreter);               *)
(*   local   one of each call;                                             *)
(*   shared  one for the process, without exclusion.                       *)
(* Checked: locked and local states answer each call as if it was the only *)
(* one.  The plans for which some schedule of the shared state gives a     *)
(* wrong answer are exported and replayed with threads of the real         *)
(* process.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NThreads, Classes, MaxCalls

VARIABLES mode, plan, pos, pc, state, own, owner, wrong
vars == <<mode, plan, pos, pc, state, own, owner, wrong>>

Ids == 1..NThreads
Plans == UNION {[1..n -> 0..(Classes - 1)] : n \in 1..MaxCalls}
None == -1

Init == /\ mode \in {"locked", "local", "shared"}
        /\ plan \in [Ids -> Plans]
        \* threads are interchangeable, the first one starts with the first class
        /\ plan[1][1] = 0
        /\ pos = [t \in Ids |-> 1] /\ pc = [t \in Ids |-> "idle"]
        /\ state = None /\ own = [t \in Ids |-> None] /\ owner = 0 /\ wrong = FALSE

Class(t) == plan[t][pos[t]]
Prepare(t) ==
  /\ pc[t] = "idle" /\ pos[t] <= Len(plan[t])
  /\ mode = "locked" => owner = 0
  /\ pc' = [pc EXCEPT ![t] = "ready"]
  /\ owner' = IF mode = "locked" THEN t ELSE owner
  /\ IF mode = "local" THEN own' = [own EXCEPT ![t] = Class(t)] /\ UNCHANGED state
     ELSE state' = Class(t) /\ UNCHANGED own
  /\ UNCHANGED <<mode, plan, pos, wrong>>
Use(t) ==
  /\ pc[t] = "ready"
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ pos' = [pos EXCEPT ![t] = @ + 1]
  /\ owner' = IF mode = "locked" THEN 0 ELSE owner
  /\ LET bad == (IF mode = "local" THEN own[t] ELSE state) # Class(t) IN
     /\ wrong' = (wrong \/ bad)
     /\ (bad /\ ~wrong => CSVWrite("%1$s", <<ToJson(plan)>>, IOEnv.OUT))
  /\ UNCHANGED <<mode, plan, state, own>>

Next == \E t \in Ids : Prepare(t) \/ Use(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Memoryless == wrong => mode = "shared"
\* a lock is always released and every plan ends
Ends == <>(\A t \in Ids : pos[t] = Len(plan[t]) + 1)
=============================================================================
