--------------------------- MODULE TraceIntervals ---------------------------
(***************************************************************************)
(* Validation of recorded aggregations of validity intervals.              *)
(*   reset                 a new, empty composed geomagnetic model         *)
(*   push  iv validity nan a part is pushed; resulting validity and whether*)
(*                         the evaluation at each of `times` gives NaN     *)
(*   compose ivs built validity inside    composed coefficients            *)
(*   combine ivs validity inside          combined coefficients            *)
(*   primary ivs validity                 two-layer (MIO) model            *)
(*   resolve ivs pieces   overlaps resolved in the favour of the earlier   *)
(*                        listed intervals, pieces <<lo, hi, index>>       *)
(*   merge ivs pieces     two ascending lists of intervals intersected,    *)
(*                        pieces <<lo, hi, <<index, index>> >>             *)
(***************************************************************************)
EXTENDS Coeffs, Tracer

VARIABLES l, bad, known, counts, acc
vars == <<l, bad, known, counts, acc>>

Clauses == {"push_validity", "push_empty", "push_values", "gap_refused",
            "compose_built", "compose_union", "compose_is_valid",
            "combine_intersection", "combine_empty", "combine_is_valid",
            "primary_intersection", "resolve_apart", "resolve_first",
            "merge_sound", "merge_complete"}

\* an interval containing no finite time
NoTime(iv) == iv[1] > iv[2] \/ (iv[1] = iv[2] /\ iv[1] \in {NINF, PINF})
SameTimes(iv, ref) == iv = ref \/ (NoTime(iv) /\ NoTime(ref))

Bits(ref, times) == [i \in DOMAIN times |-> IF Contains(ref, times[i]) THEN 1 ELSE 0]

\* The unit segment above the integer t lies in an interval (its ends are
\* integers or infinite).
Spans(iv, t) == iv[1] <= t /\ t + 1 <= iv[2]
Proper(ivs) == {i \in DOMAIN ivs : ivs[i][1] < ivs[i][2]}

Apart(ps) == \A p \in DOMAIN ps :
               /\ ps[p][1] < ps[p][2]
               /\ p > 1 => ps[p - 1][2] <= ps[p][1]
Resolved(o) ==
  \A i \in DOMAIN o.times :
    LET t == o.times[i]
        src == {k \in Proper(o.ivs) : Spans(o.ivs[k], t)}
        got == {p \in DOMAIN o.pieces : Spans(o.pieces[p], t)}
    IN IF src = {} THEN got = {}
       ELSE {o.pieces[p][3] : p \in got} = {CHOOSE k \in src : \A m \in src : k <= m}
MergeSound(o) ==
  \A p \in DOMAIN o.pieces :
    LET q == o.pieces[p] IN
    <<q[1], q[2]>> = Meet(<<o.ivs[1][q[3][1]], o.ivs[2][q[3][2]]>>) /\ q[1] <= q[2]
\* every segment is there with both of its sources, every shared instant is there
MergeComplete(o) ==
  \A x \in DOMAIN o.ivs[1], y \in DOMAIN o.ivs[2] :
    LET m == Meet(<<o.ivs[1][x], o.ivs[2][y]>>) IN
    /\ m[1] < m[2] => \E p \in DOMAIN o.pieces : o.pieces[p] = <<m[1], m[2], <<x, y>> >>
    /\ m[1] = m[2] => \E p \in DOMAIN o.pieces : Contains(o.pieces[p], m[1])

\* acc: the intersection of the pushed intervals
Judge(o) ==  \* << violated, exercised >>
  CASE "crash" \in DOMAIN o -> << {"crash"}, {} >>
    [] o.ev = "reset" ->
         << IF o.validity = <<NINF, PINF>> THEN {} ELSE {"push_validity"}, {} >>
    [] o.ev = "push" ->
         LET ref == Meet(<<acc, o.iv>>)
             bits == Bits(ref, o.times)
         IN << (IF SameTimes(o.validity, ref) THEN {}
                ELSE IF NoTime(ref) THEN {"push_empty"} ELSE {"push_validity"})
               \cup (IF o.inside = bits THEN {} ELSE {"push_values"}),
               {IF NoTime(ref) THEN "push_empty" ELSE "push_validity", "push_values"} >>
    [] o.ev = "compose" ->
         IF HasGap(o.ivs)
         THEN << IF o.built = 1 THEN {"gap_refused"} ELSE {}, {"gap_refused"} >>
         ELSE IF o.built = 0 THEN << {"compose_built"}, {"compose_built"} >>
         ELSE LET ref == Hull(o.ivs) IN
              << (IF o.validity = ref THEN {} ELSE {"compose_union"})
                 \cup (IF o.inside = Bits(ref, o.times) THEN {} ELSE {"compose_is_valid"}),
                 {"compose_built", "compose_union", "compose_is_valid"} >>
    [] o.ev = "combine" ->
         LET ref == Meet(o.ivs) IN
         << (IF SameTimes(o.validity, ref) THEN {}
             ELSE IF NoTime(ref) THEN {"combine_empty"} ELSE {"combine_intersection"})
            \cup (IF o.inside = Bits(ref, o.times) THEN {} ELSE {"combine_is_valid"}),
            {IF NoTime(ref) THEN "combine_empty" ELSE "combine_intersection",
             "combine_is_valid"} >>
    [] o.ev = "primary" ->
         << IF SameTimes(o.validity, Meet(o.ivs)) THEN {} ELSE {"primary_intersection"},
            {"primary_intersection"} >>
    [] o.ev = "resolve" ->
         << (IF Apart(o.pieces) THEN {} ELSE {"resolve_apart"})
            \cup (IF Resolved(o) THEN {} ELSE {"resolve_first"}),
            {"resolve_apart", "resolve_first"} >>
    [] o.ev = "merge" ->
         << (IF MergeSound(o) THEN {} ELSE {"merge_sound"})
            \cup (IF MergeComplete(o) THEN {} ELSE {"merge_complete"}),
            {"merge_sound", "merge_complete"} >>

Init == /\ l = 1 /\ bad = <<>> /\ known = <<>>
        /\ counts = [c \in Clauses |-> 0] /\ acc = <<NINF, PINF>>

Step == /\ l <= NLines /\ l' = l + 1
        /\ LET o == Trace[l]
               j == TLCEval(Judge(o))
           IN /\ bad' = Report(bad, l, j[1])
              /\ counts' = Tally(counts, j[2])
              /\ acc' = IF "crash" \in DOMAIN o THEN acc
                        ELSE IF o.ev = "reset" THEN <<NINF, PINF>>
                        ELSE IF o.ev = "push" THEN Meet(<<acc, o.iv>>)
                        ELSE acc
        /\ UNCHANGED known

Finish == /\ l = NLines + 1 /\ WriteVerdict(bad, known, counts) /\ l' = l + 1
          /\ UNCHANGED <<bad, known, counts, acc>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
