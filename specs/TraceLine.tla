----------------------------- MODULE TraceLine -----------------------------
(***************************************************************************)
(* Validation of recorded field line traces.                               *)
(* ev "levels": [sign, depth, low, high, steps, exact, obs [levels,        *)
(*   fields, limit]] walk on the levels of FieldWalk.tla; exact 1: the     *)
(*   limits are equal to the radii of reached points, taken from the flags *)
(*   of the points at the axis, whose radii have no rounding errors        *)
(* ev "line": [steps, obs]; obs [start (indices of the start point),       *)
(*   limit (0 inside, 1 at or beyond a limit) per point, fore and back     *)
(*   (the segments after each point but the last scaled by the step        *)
(*   lengths at its first and last point), dir (field directions), all     *)
(*   10^-6; field and model (10^-5 of the largest component), options      *)
(*   (given options not changed)]                                          *)
(***************************************************************************)
EXTENDS Tracer

VARIABLES l, bad, known, counts
Clauses == {"start", "after", "before", "inside", "end", "begin", "field", "options", "levels", "zero",
            "exact", "still", "outside"}

Abs(x) == IF x < 0 THEN -x ELSE x
\* common rules of the walk: beyond flags of the n points, start index s
Ends(limit, s, n, steps) ==
  (IF \A i \in 2..(n - 1) : i # s => limit[i] = 0 THEN {} ELSE {"inside"})
  \cup (IF n - s <= steps /\ (n - s < steps => n > s /\ limit[n] = 1) THEN {} ELSE {"end"})
  \cup (IF s - 1 <= steps /\ (s - 1 < steps => s > 1 /\ limit[1] = 1) THEN {} ELSE {"begin"})

Close3(a, b, tol) == \A k \in 1..3 : Abs(a[k] - b[k]) <= tol
Neg(a) == <<-a[1], -a[2], -a[3]>>

JudgeLine(o) ==
  LET b == o.obs
      n == Len(b.limit)
      s == b.start[1]
      after == \A i \in s..(n - 1) : Close3(b.fore[i], b.dir[i], 20)
      before == \A i \in 2..s : Close3(b.back[i - 1], b.dir[i], 20) IN
  IF Len(b.start) # 1 THEN <<{"start"}, {"start"}>>
  ELSE <<Ends(b.limit, s, n, o.steps)
         \cup (IF after THEN {} ELSE {"after"}) \cup (IF before THEN {} ELSE {"before"})
         \cup (IF \A i \in 1..n : Close3(b.field[i], b.model[i], 2) THEN {} ELSE {"field"})
         \cup (IF b.options = 1 THEN {} ELSE {"options"}),
         {"start", "inside", "field", "options"}
         \cup (IF n > s THEN {"after"} ELSE {}) \cup (IF s > 1 THEN {"before"} ELSE {})
         \cup (IF b.limit[n] = 1 THEN {"end"} ELSE {}) \cup (IF b.limit[1] = 1 THEN {"begin"} ELSE {})
         \cup (IF o.steps = 0 THEN {"zero"} ELSE {}) \cup (IF b.limit[s] = 1 THEN {"outside"} ELSE {})>>

JudgeLevels(o) ==
  LET levels == o.obs.levels
      n == Len(levels)
      Sign(k) == IF Abs(k) <= o.depth THEN o.sign[k + o.depth + 1] ELSE 0
      limit == IF o.exact = 1 THEN o.obs.limit
               ELSE [i \in 1..n |-> IF levels[i] <= o.low \/ levels[i] >= o.high THEN 1 ELSE 0]
      Fits(s) == /\ levels[s] = 0
                 /\ \A i \in s..(n - 1) : levels[i + 1] = levels[i] + Sign(levels[i])
                 /\ \A i \in 2..s : levels[i - 1] = levels[i] - Sign(levels[i])
                 /\ Ends(limit, s, n, o.steps) = {}
      ok == /\ \E s \in 1..n : Fits(s)
            /\ Len(o.obs.fields) = n
            /\ \A i \in 1..n : o.obs.fields[i] = Sign(levels[i]) IN
  <<IF ok THEN {} ELSE {"levels"}, {"levels"} \cup (IF o.exact = 1 THEN {"exact"} ELSE {})
     \cup (IF \E i \in 1..n : Sign(levels[i]) = 0 THEN {"still"} ELSE {})>>

Judge(o) == IF o.ev = "levels" THEN JudgeLevels(o) ELSE JudgeLine(o)
INSTANCE TraceMachine
=============================================================================
