--------------------------- MODULE TraceValidity ---------------------------
(***************************************************************************)
(* Validation of recorded evaluations against the validity of the model.   *)
(*                                                                         *)
(* A time is <<k, e>>: grid time k moved by e floating point steps (-1, 0  *)
(* or 1), or <<k, 9>> for NaN.  A line: [model, times, obs] where model is *)
(* the tree of coefficient sets (model.cls = "sh", "dipole") or a sequence *)
(* of trees (model.cls = "cgm", "primary", "mio").                         *)
(* obs.validity is the reported validity in grid units, obs.arr is a       *)
(* sequence of [name, got] with got[i] = 0 (finite vector), 1 (three NaNs),*)
(* 2 (anything else), 3 (exception) at times[i].                           *)
(* obs.ends: states just before, at and just after the *reported* ends.    *)
(***************************************************************************)
EXTENDS Coeffs, Tracer

VARIABLES l, bad, known, counts
vars == <<l, bad, known, counts>>

Arrangements == {"scalar", "scalar_loc1", "array", "array_loc0", "matrix", "reversed",
                 "repeated"}
Clauses == {"reported"} \cup {"ends_lo", "ends_hi", "nan_time"} \cup Arrangements

NoTime(iv) == iv[1] > iv[2] \/ (iv[1] = iv[2] /\ iv[1] \in {NINF, PINF})

ModelValidity(m) == Meet([i \in DOMAIN m.trees |-> Validity(m.trees[i])])

\* lexicographic order of the moved grid times
GeLo(t, lo) == t[1] > lo \/ (t[1] = lo /\ t[2] >= 0)
LeHi(t, hi) == t[1] < hi \/ (t[1] = hi /\ t[2] <= 0)
IsNaN(t) == t[2] = 9
InsideT(iv, t) == ~IsNaN(t) /\ GeLo(t, iv[1]) /\ LeHi(t, iv[2])

Expected(iv, times) == [i \in DOMAIN times |-> IF InsideT(iv, times[i]) THEN 0 ELSE 1]

Judge(o) ==
  IF "crash" \in DOMAIN o.obs THEN << {"crash"}, {} >>
  ELSE
  LET iv == ModelValidity(o.model)
      want == TLCEval(Expected(iv, o.times))
      nans == {i \in DOMAIN o.times : IsNaN(o.times[i])}
      r == o.obs
      failed == {r.arr[i].name : i \in {j \in DOMAIN r.arr :
                    \E k \in DOMAIN want \ nans : r.arr[j].got[k] # want[k]}}
      nanfail == \E j \in DOMAIN r.arr : \E k \in nans : r.arr[j].got[k] # 1
  IN << failed
        \cup (IF nanfail THEN {"nan_time"} ELSE {})
        \cup (IF r.validity = iv \/ (NoTime(iv) /\ NoTime(r.validity))
              THEN {} ELSE {"reported"})
        \cup (IF iv[1] = NINF \/ NoTime(iv) \/ iv[1] = iv[2] \/ r.ends[1] = <<1, 0, 0>>
              THEN {} ELSE {"ends_lo"})
        \cup (IF iv[2] = PINF \/ NoTime(iv) \/ iv[1] = iv[2] \/ r.ends[2] = <<0, 0, 1>>
              THEN {} ELSE {"ends_hi"}),
        {r.arr[i].name : i \in DOMAIN r.arr} \cup {"reported"}
        \cup (IF nans # {} THEN {"nan_time"} ELSE {})
        \cup (IF iv[1] # NINF /\ ~NoTime(iv) THEN {"ends_lo"} ELSE {})
        \cup (IF iv[2] # PINF /\ ~NoTime(iv) THEN {"ends_hi"} ELSE {}) >>

Init == l = 1 /\ bad = <<>> /\ known = <<>> /\ counts = [c \in Clauses |-> 0]

Step == /\ l <= NLines /\ l' = l + 1
        /\ LET j == TLCEval(Judge(Trace[l])) IN
           /\ bad' = Report(bad, l, j[1])
           /\ counts' = Tally(counts, j[2])
        /\ UNCHANGED known
Finish == /\ l = NLines + 1 /\ WriteVerdict(bad, known, counts) /\ l' = l + 1
          /\ UNCHANGED <<bad, known, counts>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
