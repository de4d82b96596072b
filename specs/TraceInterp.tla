---------------------------- MODULE TraceInterp ----------------------------
(***************************************************************************)
(* Validation of recorded node lookups and interpolations.  A query time   *)
(* is <<k, e>>: the integer k moved by e (-1, 0, 1) floating point steps;  *)
(* <<k, 9>> is NaN, <<PINF or NINF, 0>> is infinite.                       *)
(*  bisect  nodes times left right leftarr rightarr                        *)
(*  interp  nodes vals kind extrap times one arr                           *)
(*  sheval  sets times one arr      radial field in the probes, every set  *)
(*          being [nodes, vals, terms, order]                              *)
(*  leaf    tree times one arr      coefficients queried from a set        *)
(***************************************************************************)
EXTENDS Coeffs, Tracer

VARIABLES l, bad, known, counts
vars == <<l, bad, known, counts>>

Clauses == {"bisect_left", "bisect_right", "bisect_array",
            "C0_inside", "C0_below", "C0_above", "C1_inside", "C1_below", "C1_above",
            "C1D1_inside", "C1D1_below", "C1D1_above", "interp_array", "at_node",
            "nan_time", "sheval_single", "sheval_array", "leaf_single", "leaf_array"}

IsNaN(t) == t[2] = 9
NodeLe(node, t) == node < t[1] \/ (node = t[1] /\ t[2] >= 0)   \* node <= t
NodeLt(node, t) == node < t[1] \/ (node = t[1] /\ t[2] > 0)    \* node <  t
CountLe(nodes, t) == IF IsNaN(t) THEN 0 ELSE Cardinality({j \in DOMAIN nodes : NodeLe(nodes[j], t)})
CountLt(nodes, t) == IF IsNaN(t) THEN 0 ELSE Cardinality({j \in DOMAIN nodes : NodeLt(nodes[j], t)})

Slope(nodes, v, j) == (v[j + 1] - v[j]) \div (nodes[j + 1] - nodes[j])

Segment(nodes, t) == Max2(1, Min2(Len(nodes) - 1, CountLe(nodes, t)))

Inside(nodes, t) == NodeLe(nodes[1], t) /\ ~NodeLt(nodes[Len(nodes)], t)

\* value of one row
Value(kind, extrap, nodes, v, t) ==
  CASE kind = "C0" ->
         LET j == CountLe(nodes, t) IN
         IF j = 0 /\ ~extrap THEN NAN ELSE v[Max2(1, j)]
    [] kind = "C1" ->
         IF ~extrap /\ ~Inside(nodes, t) THEN NAN
         ELSE LET j == Segment(nodes, t) IN
              v[j] + Slope(nodes, v, j) * (t[1] - nodes[j])
    [] kind = "C1D1" ->
         IF ~extrap /\ ~Inside(nodes, t) THEN NAN
         ELSE Slope(nodes, v, Segment(nodes, t))

Zone(kind, nodes, t) ==
  IF IsNaN(t) THEN "nan_time"
  ELSE IF ~NodeLe(nodes[1], t) THEN kind \o "_below"
  ELSE IF NodeLt(nodes[Len(nodes)], t) THEN kind \o "_above"
  ELSE kind \o "_inside"

Row(o, t) == [r \in DOMAIN o.vals |->
                IF IsNaN(t) THEN NAN ELSE Value(o.kind, o.extrap, o.nodes, o.vals[r], t)]

\* a NaN time of the extrapolated constant series is not specified, of the
\* others it gives NaN
Free(o, t) == IsNaN(t) /\ o.extrap /\ o.kind \in {"C0", "C1D1"}

SetCoef(set, term, t) ==
  LET idx == {i \in DOMAIN set.terms : set.terms[i] = term} IN
  IF idx = {} THEN 0
  ELSE Value(IF set.order = 1 THEN "C0" ELSE "C1", TRUE, set.nodes,
             set.vals[CHOOSE i \in idx : TRUE], t)

ShField(o, t) ==
  LET coefs == TLCEval([k \in DOMAIN TermUniverse |->
                 SumSeq([s \in DOMAIN o.sets |-> SetCoef(o.sets[s], TermUniverse[k], t)])])
  IN [p \in Probes |-> FieldFrom(coefs, TRUE, p)]

Times(o) == DOMAIN o.times

Judge(o) ==
  IF "crash" \in DOMAIN o THEN << {"crash"}, {} >>
  ELSE CASE o.ev = "bisect" ->
         LET left == TLCEval([i \in Times(o) |-> CountLt(o.nodes, o.times[i]) - 1])
             right == TLCEval([i \in Times(o) |-> CountLe(o.nodes, o.times[i]) - 1])
         IN << (IF \A i \in Times(o) : o.left[i] = left[i] THEN {} ELSE {"bisect_left"})
               \cup (IF \A i \in Times(o) : o.right[i] = right[i] THEN {} ELSE {"bisect_right"})
               \cup (IF (\A i \in Times(o) : o.leftarr[i] = left[i])
                        /\ (\A i \in Times(o) : o.rightarr[i] = right[i])
                     THEN {} ELSE {"bisect_array"}),
               {"bisect_left", "bisect_right", "bisect_array"} >>
    [] o.ev = "interp" ->
         LET want == TLCEval([i \in Times(o) |-> Row(o, o.times[i])])
             look == {i \in Times(o) : ~Free(o, o.times[i])}
             zones == [i \in Times(o) |-> Zone(o.kind, o.nodes, o.times[i])]
             atnode == {i \in look : o.times[i][2] = 0 /\ o.kind # "C1D1" /\
                          \E j \in DOMAIN o.nodes : o.nodes[j] = o.times[i][1]}
         IN << {zones[i] : i \in {i \in look : o.one[i] # want[i]}}
               \cup (IF \E i \in atnode : o.one[i] # want[i] THEN {"at_node"} ELSE {})
               \cup (IF \E i \in look : o.arr[i] # want[i] THEN {"interp_array"} ELSE {}),
               {zones[i] : i \in look} \cup {"interp_array"}
               \cup (IF atnode = {} THEN {} ELSE {"at_node"}) >>
    [] o.ev = "sheval" ->
         LET want == TLCEval([i \in Times(o) |-> ShField(o, o.times[i])])
         IN << (IF \A i \in Times(o) : o.one[i] = want[i] THEN {} ELSE {"sheval_single"})
               \cup (IF \A i \in Times(o) : o.arr[i] = want[i] THEN {} ELSE {"sheval_array"}),
               {"sheval_single", "sheval_array"} >>
    [] o.ev = "leaf" ->
         LET kind == IF o.tree.kind \in {"c0", "dy0"} THEN "C0" ELSE "C1"
             want == TLCEval([i \in Times(o) |->
                [k \in DOMAIN TermUniverse |->
                   SetCoef([nodes |-> o.tree.nodes, vals |-> o.tree.vals,
                            terms |-> o.tree.terms,
                            order |-> IF kind = "C0" THEN 1 ELSE 2],
                           TermUniverse[k], o.times[i])]])
         IN << (IF \A i \in Times(o) : o.one[i] = want[i] THEN {} ELSE {"leaf_single"})
               \cup (IF \A i \in Times(o) : o.arr[i] = want[i] THEN {} ELSE {"leaf_array"}),
               {"leaf_single", "leaf_array"} >>

Init == l = 1 /\ bad = <<>> /\ known = <<>> /\ counts = [c \in Clauses |-> 0]
Step == /\ l <= NLines /\ l' = l + 1
        /\ LET j == TLCEval(Judge(Trace[l])) IN
           /\ bad' = Report(bad, l, j[1])
           /\ counts' = Tally(counts, j[2])
        /\ UNCHANGED known
Finish == /\ l = NLines + 1 /\ WriteVerdict(bad, known, counts) /\ l' = l + 1
          /\ UNCHANGED <<bad, known, counts>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
