--------------------------- MODULE TraceBroadcast ---------------------------
(***************************************************************************)
(* Validation of recorded calls with arrays of inputs.                     *)
(* A line: [rule, shapes, pal, base, canon, obs]                           *)
(*   pal[j]   numbers (0..base-1) of the values in the j-th array          *)
(*   canon    for every combination of single values (number in base       *)
(*            `base`, the first input is the lowest digit) the first one   *)
(*            with the same result of the single evaluation                *)
(* Observations:                                                           *)
(*   refused  1 if the call ended with an exception                        *)
(*   shape    shape of the result, codes combinations with the same result *)
(*            of the single evaluation as the elements (-1 if none)        *)
(***************************************************************************)
EXTENDS Broadcast, Tracer

VARIABLES l, bad, known, counts

Clauses == {"accepted", "refused", "shape", "elements", "empty"}

RECURSIVE Code(_, _, _)
Code(o, k, j) ==
  IF j > Len(o.shapes) THEN 0
  ELSE o.pal[j][Pick(o.rule, o.shapes, k, j) + 1] + o.base * Code(o, k, j + 1)

Judge(o) ==
  LET ok == Accepted(o.rule, o.shapes)
      r == TLCEval(Shape(o.rule, o.shapes))
      obs == o.obs
  IN IF ~ok /\ Free(o.rule, o.shapes)
     THEN <<IF obs.refused = 1 \/ (obs.shape = r /\ obs.codes = <<>>) THEN {} ELSE {"refused"}, {}>>
     ELSE IF ~ok
     THEN <<IF obs.refused = 1 THEN {} ELSE {"refused"}, {"refused"}>>
     ELSE IF obs.refused = 1 THEN <<{"accepted"}, {"accepted"}>>
     ELSE << (IF obs.shape = r THEN {} ELSE {"shape"})
             \cup (IF /\ Len(obs.codes) = Size(r)
                      /\ \A k \in DOMAIN obs.codes :
                           obs.codes[k] = o.canon[Code(o, k - 1, 1) + 1]
                   THEN {} ELSE {"elements"}),
             {"accepted", "shape"} \cup (IF Size(r) > 0 THEN {"elements"} ELSE {"empty"}) >>

INSTANCE TraceMachine
=============================================================================
