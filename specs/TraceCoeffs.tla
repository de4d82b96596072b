---------------------------- MODULE TraceCoeffs ----------------------------
(***************************************************************************)
(* Validation of recorded builds and evaluations of coefficient trees.     *)
(* A line: [tree, lim, times, obs] where obs has                           *)
(*   built     1 or 0 (refused with an exception)                          *)
(*   validity, mvalidity   coefficients' and model's validity (grid units) *)
(*   degrees   <<min_degree, degree>>                                      *)
(*   valid, validarr       is_valid for each time (0/1), one by one/array  *)
(*   coef, coefarr         coefficients of TermUniverse for each time      *)
(*   pieces    decomposition: <<start, end, <<time, coefficients>>...>>    *)
(*   field, fieldarr       radial field in the probes for each time        *)
(***************************************************************************)
EXTENDS Coeffs, Tracer

VARIABLES l, bad, known, counts
vars == <<l, bad, known, counts>>

Clauses == {"refused", "built", "validity", "degrees", "is_valid",
            "coef_scalar", "coef_array", "field_scalar_inside",
            "field_scalar_outside", "field_array", "pieces"}

\* every piece of a decomposition lies within the validity, the pieces cover
\* it, and the first piece matching a time gives the coefficients of the tree
Pieces(o, v, inside, coefs) ==
  LET ps == o.obs.pieces
      At(i) == {p \in DOMAIN ps : Contains(<<ps[p][1], ps[p][2]>>, o.times[i])}
      First(i) == CHOOSE p \in At(i) : \A q \in At(i) : p <= q
      Value(p, t) == (CHOOSE e \in {ps[p][3][k] : k \in DOMAIN ps[p][3]} : e[1] = t)[2]
  IN /\ \A p \in DOMAIN ps : ps[p][1] >= v[1] /\ ps[p][2] <= v[2]
     /\ \A i \in DOMAIN o.times \ inside : At(i) = {}
     /\ \A i \in inside :
          /\ At(i) # {}
          /\ Value(First(i), o.times[i]) = coefs[i]

Failed(o) ==
  IF "crash" \in DOMAIN o.obs THEN {"crash"}
  ELSE IF ~Buildable(o.tree) THEN (IF o.obs.built = 1 THEN {"refused"} ELSE {})
  ELSE IF o.obs.built = 0 THEN {"built"}
  ELSE LET v == Validity(o.tree)
           r == o.obs
           internal == IsInternal(o.tree)
           vbits == TLCEval([i \in DOMAIN o.times |-> IF Contains(v, o.times[i]) THEN 1 ELSE 0])
           inside == TLCEval({i \in DOMAIN o.times : vbits[i] = 1})
           coefs == TLCEval([i \in inside |-> Coefs(o.tree, o.times[i], o.lim)])
           fields == TLCEval([i \in inside |->
                        [p \in Probes |-> FieldFrom(coefs[i], internal, p)]])
           nans == [p \in Probes |-> NAN]
       IN (IF r.validity # v \/ r.mvalidity # v THEN {"validity"} ELSE {})
       \cup (IF r.degrees # <<MinDegree(o.tree), MaxDegree(o.tree)>>
             THEN {"degrees"} ELSE {})
       \cup (IF r.valid # vbits \/ r.validarr # vbits THEN {"is_valid"} ELSE {})
       \cup (IF \A i \in inside : r.coef[i] = coefs[i] THEN {} ELSE {"coef_scalar"})
       \cup (IF \A i \in inside : r.coefarr[i] = coefs[i] THEN {} ELSE {"coef_array"})
       \cup (IF \A i \in inside : r.field[i] = fields[i]
             THEN {} ELSE {"field_scalar_inside"})
       \cup (IF \A i \in DOMAIN o.times \ inside : r.field[i] = nans
             THEN {} ELSE {"field_scalar_outside"})
       \cup (IF \A i \in DOMAIN o.times :
                   r.fieldarr[i] = IF i \in inside THEN fields[i] ELSE nans
             THEN {} ELSE {"field_array"})
       \cup (IF Pieces(o, v, inside, coefs) THEN {} ELSE {"pieces"})

Inside(o) == {i \in DOMAIN o.times : Contains(Validity(o.tree), o.times[i])}

Exercised(o) ==
  IF "crash" \in DOMAIN o.obs THEN {}
  ELSE IF ~Buildable(o.tree) THEN {"refused"}
  ELSE {"built", "validity", "degrees", "is_valid"}
       \cup (IF Inside(o) # {}
             THEN {"coef_scalar", "coef_array", "field_scalar_inside", "field_array", "pieces"}
             ELSE {})
       \cup (IF Inside(o) # DOMAIN o.times THEN {"field_scalar_outside"} ELSE {})

Init == l = 1 /\ bad = <<>> /\ known = <<>> /\ counts = [c \in Clauses |-> 0]

Step == /\ l <= NLines
        /\ l' = l + 1
        /\ LET o == Trace[l] IN
           /\ bad' = Report(bad, l, Failed(o))
           /\ known' = known
           /\ counts' = Tally(counts, Exercised(o))

Finish == /\ l = NLines + 1
          /\ WriteVerdict(bad, known, counts)
          /\ l' = l + 1
          /\ UNCHANGED <<bad, known, counts>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
