---------------------------- MODULE TraceDegrees ----------------------------
(***************************************************************************)
(* Validation of recorded selections of spherical harmonic terms.          *)
(* A line: [cls, terms, vals, lims, obs].  vals are integers: multiples of *)
(* the values for which the terms of order 0 and 1 give integer fields in  *)
(* the probes (the harness scales the orders +-1 by 1/sqrt(n(n+1)/2)).     *)
(* Observations of the i-th limits lims[i]:                                *)
(*   dense[i] = [rows, degree, items]  items: non-zero <<row, col, value>> *)
(*   field[i] = <<radial field in the pole, northward field in the pole    *)
(*      for the longitudes 0 and 90>>, for the classes with a dipole frame *)
(*      <<radial field, square of the tangential field>>                   *)
(*   whole, parts  partition residuals: deviation of the sum of the        *)
(*      partial fields from the field of the range in a general place      *)
(***************************************************************************)
EXTENDS Degrees, Tracer

VARIABLES l, bad, known, counts

Clauses == {"dense_items", "dense_size", "field", "field_limited", "empty_zero",
            "partition", "beyond"}
DipoleClasses == {"dipole", "mio_int", "mio_ext", "primary_below", "primary_above"}
External == {"ext", "mio_ext", "primary_below"}

RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0
             ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + Sum(f, s \ {x})

Picked(o, lim) == {k \in DOMAIN o.terms : Selected(o.terms[k][1], lim)}

DenseItems(o, lim) ==
  {<<Row(o.terms[k][1], o.terms[k][2]), Col(o.terms[k][2]), o.vals[k]>> :
     k \in Picked(o, lim)}

Radial(o, n) == IF o.cls \in External THEN -n ELSE n + 1
OfOrder(o, lim, m) == {k \in Picked(o, lim) : o.terms[k][2] = m}
RadialField(o, lim) ==
  Sum([k \in DOMAIN o.terms |-> Radial(o, o.terms[k][1]) * o.vals[k]],
      OfOrder(o, lim, 0))
North(o, lim, m) == Sum(o.vals, OfOrder(o, lim, m))

Field(o, lim) ==
  IF o.cls \in DipoleClasses
  THEN << RadialField(o, lim),
          North(o, lim, 1) * North(o, lim, 1) + North(o, lim, -1) * North(o, lim, -1) >>
  ELSE << RadialField(o, lim), North(o, lim, 1), North(o, lim, -1) >>

Judge(o) ==
  LET r == o.obs
      lims == o.lims
      limited == {i \in DOMAIN lims : Picked(o, lims[i]) \notin {{}, DOMAIN o.terms}}
      empty == {i \in DOMAIN lims : Picked(o, lims[i]) = {}}
      whole == {i \in DOMAIN lims : Picked(o, lims[i]) = DOMAIN o.terms}
      beyond == {i \in whole : lims[i] # <<-1, -1>>}
      wrong == TLCEval({i \in DOMAIN r.field : r.field[i] # Field(o, lims[i])})
  IN << (IF \A i \in DOMAIN r.dense :
              {r.dense[i].items[k] : k \in DOMAIN r.dense[i].items} = DenseItems(o, lims[i])
         THEN {} ELSE {"dense_items"})
        \cup (IF \A i \in DOMAIN r.dense :
                   /\ r.dense[i].rows = Rows(r.dense[i].degree)
                   /\ \A k \in Picked(o, lims[i]) : o.terms[k][1] <= r.dense[i].degree
              THEN {} ELSE {"dense_size"})
        \cup (IF wrong \cap (whole \ beyond) = {} THEN {} ELSE {"field"})
        \cup (IF wrong \cap limited = {} THEN {} ELSE {"field_limited"})
        \cup (IF wrong \cap empty = {} THEN {} ELSE {"empty_zero"})
        \cup (IF wrong \cap beyond = {} THEN {} ELSE {"beyond"})
        \cup (IF \A i \in DOMAIN r.parts : r.parts[i] = 0 THEN {} ELSE {"partition"}),
        (IF Len(r.dense) > 0 THEN {"dense_items", "dense_size"} ELSE {})
        \cup (IF limited # {} THEN {"field_limited"} ELSE {})
        \cup (IF empty # {} THEN {"empty_zero"} ELSE {})
        \cup (IF beyond # {} THEN {"beyond"} ELSE {})
        \cup (IF whole \ beyond # {} THEN {"field"} ELSE {})
        \cup (IF Len(r.parts) > 0 THEN {"partition"} ELSE {}) >>

INSTANCE TraceMachine
=============================================================================
