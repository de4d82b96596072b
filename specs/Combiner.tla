------------------------------ MODULE Combiner ------------------------------
(***************************************************************************)
(* Design model of a combined coefficient set and of the choice of its     *)
(* evaluation method.  The optimized method loads the coefficients of the  *)
(* sets one after another to one dense array (a term written twice keeps   *)
(* the last value) and interpolates all sets with one time argument; the   *)
(* default method converts the time for each set and adds the values.      *)
(* The selection must use the optimized method only where both agree.      *)
(***************************************************************************)
EXTENDS Coeffs, TLC, Json, CSV, IOUtils

CONSTANTS MaxParts

\* a part: time scale of its series and the terms it defines
Scales == {"none", "mjd", "year"}
Terms == {"p", "q"}
Parts == [scale : Scales, terms : {{"p"}, {"q"}, {"p", "q"}}]

VARIABLES phase, parts, method, k, dense, clock
vars == <<phase, parts, method, k, dense, clock>>

\* value of a part's term, when read with the given clock: a time-dependent
\* series read with the clock of another scale gives garbage
Value(i, clk) ==
  LET p == parts[i] IN
  IF p.scale = "none" \/ p.scale = clk THEN 10 ^ (i - 1) ELSE 7777

Expected(t) == SumSeq([i \in DOMAIN parts |->
                  IF t \in parts[i].terms THEN 10 ^ (i - 1) ELSE 0])

Init == /\ phase = "build" /\ parts = <<>> /\ method = "" /\ k = 1
        /\ dense = [t \in Terms |-> 0] /\ clock = ""

Add(p) == /\ phase = "build" /\ Len(parts) < MaxParts
          /\ parts' = Append(parts, p)
          /\ UNCHANGED <<phase, method, k, dense, clock>>

MixedScales ==
  Cardinality({parts[i].scale : i \in DOMAIN parts} \ {"none"}) > 1
CommonTerms ==
  \E i, j \in DOMAIN parts : i # j /\ parts[i].terms \cap parts[j].terms # {}

\* _select_evaluation_method
Select ==
  /\ phase = "build" /\ Len(parts) >= 2 /\ phase' = "load"
  /\ method' = IF MixedScales \/ CommonTerms THEN "default" ELSE "interpolated"
  \* one common time conversion: the first part which has one
  /\ clock' = IF \E i \in DOMAIN parts : parts[i].scale = "year" THEN "year" ELSE "mjd"
  /\ UNCHANGED <<parts, k, dense>>

LoadInterpolated ==
  /\ phase = "load" /\ method = "interpolated" /\ k <= Len(parts)
  /\ dense' = [t \in Terms |-> IF t \in parts[k].terms THEN Value(k, clock)
                               ELSE dense[t]]
  /\ k' = k + 1 /\ UNCHANGED <<phase, parts, method, clock>>

LoadDefault ==
  /\ phase = "load" /\ method = "default" /\ k <= Len(parts)
  /\ dense' = [t \in Terms |-> dense[t] + (IF t \in parts[k].terms
                                THEN Value(k, parts[k].scale) ELSE 0)]
  /\ k' = k + 1 /\ UNCHANGED <<phase, parts, method, clock>>

Done == /\ phase = "load" /\ k > Len(parts) /\ phase' = "done"
        /\ CSVWrite("%1$s", <<ToJson(parts)>>, IOEnv.OUT)
        /\ UNCHANGED <<parts, method, k, dense, clock>>

Next == (\E p \in Parts : Add(p)) \/ Select \/ LoadInterpolated \/ LoadDefault \/ Done
Spec == Init /\ [][Next]_vars

SumOfParts == phase = "done" => \A t \in Terms : dense[t] = Expected(t)
\* the optimized method is not given up without a reason
FastWhenPossible ==
  phase = "done" /\ method = "default" => MixedScales \/ CommonTerms
=============================================================================
