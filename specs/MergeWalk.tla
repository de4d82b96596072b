----------------------------- MODULE MergeWalk ------------------------------
(***************************************************************************)
(* Design model of the merging of products one after another; the last one *)
(* is compared with the new one only, as the loader does.  The outcome     *)
(* must be the same as for the comparison of all pairs, complete, and      *)
(* independent of the grouping of the products.                            *)
(***************************************************************************)
EXTENDS Series, TLC, Json, CSV, IOUtils
CONSTANTS Times, MaxProducts, Kinds
VARIABLES products, merged, refused
vars == <<products, merged, refused>>

Names == [k \in Kinds |-> <<<<k, 0>>>>]
TimesOf(set) == SetToSortSeq(set, <)
\* values identify the nodes
Product(k, set, tag) == LET t == TimesOf(set) IN
  [nm |-> Names[k], t |-> t, v |-> [i \in DOMAIN t |-> <<10*tag + i>>]]

Init == \E k \in Kinds, set \in SUBSET Times \ {{}} :
          /\ products = <<Product(k, set, 1)>>
          /\ merged = products[1] /\ refused = FALSE
Add(k, set) ==
  LET p == Product(k, set, Len(products) + 1)
      clash == Clash(products[Len(products)], p) IN
  /\ ~refused /\ Len(products) < MaxProducts
  /\ products' = Append(products, p)
  /\ refused' = clash
  /\ merged' = IF clash THEN merged ELSE Join(merged, p)
  /\ CSVWrite("%1$s", <<ToJson([j \in DOMAIN products' |-> [nm |-> products'[j].nm, t |-> products'[j].t]])>>, IOEnv.OUT)
Next == \E k \in Kinds, set \in SUBSET Times \ {{}} : Add(k, set)
Spec == Init /\ [][Next]_vars

AllPairs == refused = Refused(products)
Chronological == ~refused => \A i \in 1..(Len(merged.t) - 1) : merged.t[i] <= merged.t[i + 1]
Complete == ~refused =>
  /\ Len(merged.t) = Len(merged.v)
  /\ \A p \in DOMAIN products : \A i \in DOMAIN products[p].t :
       Cardinality({k \in DOMAIN merged.t : merged.t[k] = products[p].t[i] /\ merged.v[k] = products[p].v[i]}) = 1
  /\ Len(merged.t) = FoldLeft(LAMBDA a, p : a + Len(p.t), 0, products)
Union == ~refused => \A p \in DOMAIN products : Begin(merged) <= Begin(products[p]) /\ End(products[p]) <= End(merged)
Grouping == ~refused => \A cut \in 1..(Len(products) - 1) :
  LET head == SubSeq(products, 1, cut)
      tail == SubSeq(products, cut + 1, Len(products)) IN
  /\ ~Refused(<<Merge(head), Merge(tail)>>)
  /\ Merge(<<Merge(head), Merge(tail)>>) = merged
=============================================================================
