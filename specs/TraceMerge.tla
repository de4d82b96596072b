----------------------------- MODULE TraceMerge -----------------------------
(***************************************************************************)
(* Validation of models loaded from files of magnetospheric products.      *)
(* Line: [sets (per set, sequence of the products of the files), unit,     *)
(*   kind ("internal", "external"), bad (1: unreadable file), obs]         *)
(* obs: [ok (loaded), valid (validity), degree, low, internal, probes      *)
(*   ([at, v (<<degree, order, value*unit>> of non-zero values)]), model   *)
(*   (1: model evaluates the coefficients in its frame), outside (1: NaN   *)
(*   before and after the validity)]                                       *)
(***************************************************************************)
EXTENDS Series, Tracer

VARIABLES l, bad, known, counts
Clauses == {"refused", "mismatch", "unreadable", "accepted", "nodes", "between", "gap", "validity", "degree",
            "internal", "model", "outside", "single", "pair", "shared", "free"}


Sorted(p) == \A i \in 1..(Len(p.t) - 1) : p.t[i] < p.t[i + 1]
\* sum of the sets, chosen values, as set of <<degree, order, value>>
Sum(sets, vals) ==
  LET terms == UNION {Range(sets[k].nm) : k \in DOMAIN sets}
      Of(k, term) == IF \E c \in DOMAIN sets[k].nm : sets[k].nm[c] = term
                     THEN vals[k][CHOOSE c \in DOMAIN sets[k].nm : sets[k].nm[c] = term] ELSE 0
      Total(term) == FoldLeft(LAMBDA a, k : a + Of(k, term), 0, [k \in DOMAIN sets |-> k]) IN
  {<<term[1], term[2], Total(term)>> : term \in {x \in terms : Total(x) # 0}}

Allowed(sets, at, unit) ==
  IF Len(sets) = 1 THEN {Sum(sets, <<v>>) : v \in Values(sets[1], at, unit)}
  ELSE {Sum(sets, <<v, w>>) : v \in Values(sets[1], at, unit), w \in Values(sets[2], at, unit)}

JudgeLoaded(o, sets) ==
  LET b == o.obs
      start == Max({Begin(sets[k]) : k \in DOMAIN sets})
      end == Min({End(sets[k]) : k \in DOMAIN sets})
      orders == UNION {{sets[k].nm[c][1] : c \in DOMAIN sets[k].nm} : k \in DOMAIN sets}
      Node(x) == \E k \in DOMAIN sets : \E i \in DOMAIN sets[k].t : 2*sets[k].t[i] = x
      \* between the products
      Gap(x) == \E k \in DOMAIN o.sets : \E j \in 1..(Len(o.sets[k]) - 1) :
                   2*End(o.sets[k][j]) < x /\ x < 2*Begin(o.sets[k][j + 1])
      Shared(x) == \E k \in DOMAIN sets : Cardinality({i \in DOMAIN sets[k].t : 2*sets[k].t[i] = x}) > 1
      Right(p) == Range(p.v) \in Allowed(sets, p.at, o.unit)
      probes == {b.probes[i] : i \in DOMAIN b.probes}
      nodes == {p \in probes : Node(p.at)}
      gaps == {p \in probes : ~Node(p.at) /\ Gap(p.at)}
      rest == probes \ (nodes \cup gaps) IN
  IF start > end THEN <<{}, {"free"}>>
  ELSE IF b.ok = 0 THEN <<{"accepted"}, {"accepted"}>>
  ELSE <<(IF \A p \in nodes : Right(p) THEN {} ELSE {"nodes"})
         \cup (IF \A p \in gaps : Right(p) THEN {} ELSE {"gap"})
         \cup (IF \A p \in rest : Right(p) THEN {} ELSE {"between"})
         \cup (IF b.valid = <<start, end>> THEN {} ELSE {"validity"})
         \cup (IF b.degree = Max(orders) /\ b.low = Min(orders) THEN {} ELSE {"degree"})
         \cup (IF b.internal = (IF o.kind = "internal" THEN 1 ELSE 0) THEN {} ELSE {"internal"})
         \cup (IF b.model = 1 THEN {} ELSE {"model"})
         \cup (IF b.outside = 1 THEN {} ELSE {"outside"}),
         {"accepted", "validity", "degree", "internal", "model", "outside"}
         \cup (IF nodes = {} THEN {} ELSE {"nodes"}) \cup (IF gaps = {} THEN {} ELSE {"gap"})
         \cup (IF rest = {} THEN {} ELSE {"between"})
         \cup (IF \E p \in probes : Shared(p.at) THEN {"shared"} ELSE {})
         \cup (IF Len(sets) = 1 THEN {"single"} ELSE {"pair"})>>

Judge(o) ==
  LET sets == o.sets
      clash == \E k \in DOMAIN sets : Refused(sets[k])
      names == \E k \in DOMAIN sets : \E i, j \in DOMAIN sets[k] : sets[k][i].nm # sets[k][j].nm
      unsorted == \E k \in DOMAIN sets : \E i \in DOMAIN sets[k] : ~Sorted(sets[k][i])
      \* one moment is not a time series
      short == \E k \in DOMAIN sets : Cardinality(UNION {Range(sets[k][i].t) : i \in DOMAIN sets[k]}) = 1 IN
  IF o.bad = 1 THEN <<IF o.obs.ok = 0 THEN {} ELSE {"unreadable"}, {"unreadable"}>>
  ELSE IF unsorted THEN <<{}, {"free"}>>
  ELSE IF clash THEN <<IF o.obs.ok = 0 THEN {} ELSE {"refused"},
                       {"refused"} \cup (IF names THEN {"mismatch"} ELSE {})>>
  ELSE IF short THEN <<{}, {"free"}>>
  ELSE JudgeLoaded(o, TLCEval([k \in DOMAIN sets |-> Merge(sets[k])]))

INSTANCE TraceMachine
=============================================================================
