------------------------------ MODULE TraceMemo ------------------------------
(***************************************************************************)
(* Validation of recorded histories of evaluations against a memoryless    *)
(* evaluator: there is one function from the inputs to the results, chosen *)
(* once and for all by the first evaluation of each input, whatever the    *)
(* calls before, the other elements of the same call and their order.      *)
(* Lines: [keys, toks, nans, form, shape, obs]                             *)
(*   keys  inputs of the elements of the call (numbers 1..K)               *)
(*   toks  results; equal numbers stand for equal results of that input,   *)
(*         1 is NaN, 2 an exception                                        *)
(*   nans  1 result must be NaN, 0 must not, 2 not specified here          *)
(*   form  the form of the call (single value, array, ...)                 *)
(*   shape 1 if the shape of the result is as specified                    *)
(* The first line is [keys |-> K] with the names of the forms expected     *)
(* and [nans |-> 1] if NaN inputs are to be among them.                    *)
(***************************************************************************)
EXTENDS Tracer

VARIABLES l, bad, known, counts, memo
vars == <<l, bad, known, counts, memo>>

Head_ == Trace[1]
Forms == {Head_.forms[i] : i \in DOMAIN Head_.forms}
Clauses == Forms \cup {"shape", "number"} \cup (IF Head_.nans = 1 THEN {"nan"} ELSE {})

NaNToken == 1
Exception == 2

RECURSIVE Learn(_, _, _)
Learn(m, o, i) ==
  IF i > Len(o.keys) THEN m
  ELSE Learn(IF m[o.keys[i]] = 0 THEN [m EXCEPT ![o.keys[i]] = o.toks[i]] ELSE m, o, i + 1)

Judge(o, m) ==
  << (IF \A i \in DOMAIN o.keys : m[o.keys[i]] = o.toks[i] THEN {} ELSE {o.form})
     \cup (IF o.shape = 1 THEN {} ELSE {"shape"})
     \cup (IF \A i \in DOMAIN o.keys : o.nans[i] = 1 => o.toks[i] = NaNToken
           THEN {} ELSE {"nan"})
     \cup (IF \A i \in DOMAIN o.keys : (o.nans[i] = 0 => o.toks[i] # NaNToken) /\ o.toks[i] # Exception
           THEN {} ELSE {"number"}),
     {o.form, "shape"}
     \cup (IF \E i \in DOMAIN o.keys : o.nans[i] = 1 THEN {"nan"} ELSE {})
     \cup (IF \E i \in DOMAIN o.keys : o.nans[i] = 0 THEN {"number"} ELSE {}) >>

Init == /\ l = 2 /\ bad = <<>> /\ known = <<>> /\ counts = [c \in Clauses |-> 0]
        /\ memo = [k \in 1..Head_.keys |-> 0]

Step == /\ l <= NLines /\ l' = l + 1
        /\ LET o == Trace[l]
               crashed == "crash" \in DOMAIN o
               m == IF crashed THEN memo ELSE TLCEval(Learn(memo, o, 1))
               j == TLCEval(IF crashed THEN <<{"crash"}, {}>> ELSE Judge(o, m)) IN
           /\ memo' = m
           /\ bad' = Report(bad, l, j[1])
           /\ counts' = Tally(counts, j[2])
        /\ UNCHANGED known
Finish == /\ l = NLines + 1 /\ WriteVerdict(bad, known, counts) /\ l' = l + 1
          /\ UNCHANGED <<bad, known, counts, memo>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
