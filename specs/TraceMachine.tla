---------------------------- MODULE TraceMachine ----------------------------
(***************************************************************************)
(* State machine of history-free trace specifications.  The instantiating  *)
(* module gives Clauses and Judge(line) = <<violated, exercised>>, both    *)
(* subsets of Clauses (or {"crash"} for a died process).                   *)
(***************************************************************************)
EXTENDS Tracer
CONSTANTS Clauses, Judge(_)
VARIABLES l, bad, known, counts
vars == <<l, bad, known, counts>>

Init == l = 1 /\ bad = <<>> /\ known = <<>> /\ counts = [c \in Clauses |-> 0]
Step == /\ l <= NLines /\ l' = l + 1
        /\ LET o == Trace[l]
               crashed == "crash" \in DOMAIN o.obs
               j == TLCEval(IF crashed THEN <<{"crash"}, {}>> ELSE Judge(o)) IN
           /\ bad' = Report(bad, l, j[1])
           /\ counts' = Tally(counts, j[2])
        /\ UNCHANGED known
Finish == /\ l = NLines + 1 /\ WriteVerdict(bad, known, counts) /\ l' = l + 1
          /\ UNCHANGED <<bad, known, counts>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
