------------------------------- MODULE Coeffs -------------------------------
(***************************************************************************)
(* Semantics of trees of spherical-harmonic coefficient sets               *)
(* (magnetic_model/coefficients.py, magnetic_model/model.py).              *)
(*                                                                         *)
(* Time is a grid of integers (the harness maps grid time k to             *)
(* 2001-01-01 + k * 365/8 days, which is uniform both in MJD2000 and in    *)
(* decimal years up to 2004).  Interval ends may be infinite.              *)
(*                                                                         *)
(* A tree is a record                                                      *)
(*   [op |-> "leaf", lo, hi, kind, terms, nodes, vals, internal]           *)
(*   [op |-> "composed" | "combined", parts |-> sequence of trees]         *)
(* terms is a sequence of <<n, m>>, m < 0 standing for the h coefficients, *)
(* nodes an ascending sequence of grid times (<<0>> for constant sets) and *)
(* vals[i][j] the integer value of the i-th term in the j-th node.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

PINF == 1000000
NINF == -1000000
NAN  == 999999999   \* encoding of a NaN result
OFF  == 888888888   \* a number which is not (close to) an integer
ERR  == 777777777   \* exception instead of a result

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], MinSeq(Tail(s)))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], MaxSeq(Tail(s)))

----------------------------------------------------------------------------
(* Interval algebra *)

Contains(iv, t) == iv[1] <= t /\ t <= iv[2]
IsEmpty(iv) == iv[1] > iv[2]

\* hull of a sequence of intervals
Hull(ivs) == << MinSeq([i \in DOMAIN ivs |-> ivs[i][1]]),
                MaxSeq([i \in DOMAIN ivs |-> ivs[i][2]]) >>
\* intersection of a sequence of intervals
Meet(ivs) == << MaxSeq([i \in DOMAIN ivs |-> ivs[i][1]]),
                MinSeq([i \in DOMAIN ivs |-> ivs[i][2]]) >>

\* Is any real time between the earliest start and the latest end not covered?
\* It is enough to look just above every interval end: the time just above
\* hi is covered iff an interval starts at or before hi and ends after it.
HasGap(ivs) ==
  LET hull == Hull(ivs) IN
  \E i \in DOMAIN ivs :
    /\ ivs[i][2] < hull[2]
    /\ \A j \in DOMAIN ivs : ~(ivs[j][1] <= ivs[i][2] /\ ivs[i][2] < ivs[j][2])

----------------------------------------------------------------------------
(* Trees *)

RECURSIVE Validity(_)
Validity(tree) ==
  IF tree.op = "leaf" THEN <<tree.lo, tree.hi>>
  ELSE LET ivs == [i \in DOMAIN tree.parts |-> Validity(tree.parts[i])]
       IN IF tree.op = "composed" THEN Hull(ivs) ELSE Meet(ivs)

RECURSIVE IsInternal(_)
IsInternal(tree) ==
  IF tree.op = "leaf" THEN tree.internal ELSE IsInternal(tree.parts[1])

\* can the tree be built at all?
RECURSIVE Buildable(_)
Buildable(tree) ==
  \/ tree.op = "leaf"
  \/ /\ \A i \in DOMAIN tree.parts : Buildable(tree.parts[i])
     /\ \A i \in DOMAIN tree.parts :
          IsInternal(tree.parts[i]) = IsInternal(tree.parts[1])
     /\ tree.op = "composed" =>
          ~HasGap([i \in DOMAIN tree.parts |-> Validity(tree.parts[i])])

RECURSIVE MaxDegree(_)
MaxDegree(tree) ==
  IF tree.op = "leaf"
  THEN MaxSeq([i \in DOMAIN tree.terms |-> tree.terms[i][1]])
  ELSE MaxSeq([i \in DOMAIN tree.parts |-> MaxDegree(tree.parts[i])])
RECURSIVE MinDegree(_)
MinDegree(tree) ==
  IF tree.op = "leaf"
  THEN MinSeq([i \in DOMAIN tree.terms |-> tree.terms[i][1]])
  ELSE MinSeq([i \in DOMAIN tree.parts |-> MinDegree(tree.parts[i])])

----------------------------------------------------------------------------
(* Time series.  Node lookup is the last node not later than t.            *)

Below(nodes, t) == Cardinality({j \in DOMAIN nodes : nodes[j] <= t})

\* piecewise constant: value of the last node not later than t, first before
C0(nodes, v, t) == v[Max2(1, Below(nodes, t))]
\* piecewise linear with the first and last segments extrapolated
C1(nodes, v, t) ==
  LET n == Len(nodes)
      j == Max2(1, Min2(n - 1, Below(nodes, t)))
  IN v[j] + ((v[j + 1] - v[j]) * (t - nodes[j])) \div (nodes[j + 1] - nodes[j])

LeafValue(leaf, i, t) ==
  CASE leaf.kind = "const" -> leaf.vals[i][1]
    [] leaf.kind \in {"c0", "dy0"} -> C0(leaf.nodes, leaf.vals[i], t)
    [] leaf.kind \in {"c1", "dy1"} -> C1(leaf.nodes, leaf.vals[i], t)

\* degree limits: negative stands for no limit
InDegrees(n, lim) == (lim[1] < 0 \/ n >= lim[1]) /\ (lim[2] < 0 \/ n <= lim[2])

----------------------------------------------------------------------------
(* The coefficient of a term at a time.                                    *)

RECURSIVE Coef(_, _, _, _)
Coef(tree, t, term, lim) ==
  CASE tree.op = "leaf" ->
         LET idx == {i \in DOMAIN tree.terms : tree.terms[i] = term} IN
         IF idx = {} \/ ~InDegrees(term[1], lim) THEN 0
         ELSE LeafValue(tree, CHOOSE i \in idx : TRUE, t)
    [] tree.op = "composed" ->
         LET idx == {i \in DOMAIN tree.parts : Contains(Validity(tree.parts[i]), t)}
             first == IF idx = {} THEN 1
                      ELSE CHOOSE i \in idx : \A j \in idx : i <= j
         IN Coef(tree.parts[first], t, term, lim)
    [] tree.op = "combined" ->
         SumSeq([i \in DOMAIN tree.parts |-> Coef(tree.parts[i], t, term, lim)])

----------------------------------------------------------------------------
(* The radial field on the reference sphere in the north pole, and on the  *)
(* equator at the longitudes 0 and 90 degrees, as used by the harness.     *)
(* Schmidt semi-normalized P_n^m:  P10(1)=P20(1)=1, P11(0)=1, P20(0)=-1/2. *)
(* Terms used by the harness: (1,0) (1,1) (1,-1) (2,0), values of (2,0)    *)
(* are even.  Internal fields: B_r = (n+1) V_n, external: B_r = -n V_n.    *)

Probes == 1..3
Angular(probe, term, x) ==
  CASE term = <<1, 0>>  -> IF probe = 1 THEN x ELSE 0
    [] term = <<1, 1>>  -> IF probe = 2 THEN x ELSE 0
    [] term = <<1, -1>> -> IF probe = 3 THEN x ELSE 0
    [] term = <<2, 0>>  -> IF probe = 1 THEN x ELSE -(x \div 2)
    [] OTHER -> 0

TermUniverse == << <<1, 0>>, <<1, 1>>, <<1, -1>>, <<2, 0>> >>

Radial(internal, n) == IF internal THEN n + 1 ELSE -n

FieldFrom(coefs, internal, probe) ==
  SumSeq([k \in DOMAIN TermUniverse |->
    Radial(internal, TermUniverse[k][1]) *
      Angular(probe, TermUniverse[k], coefs[k])])

Coefs(tree, t, lim) ==
  [k \in DOMAIN TermUniverse |-> Coef(tree, t, TermUniverse[k], lim)]

Field(tree, t, lim, probe) ==
  IF Contains(Validity(tree), t)
  THEN FieldFrom(Coefs(tree, t, lim), IsInternal(tree), probe)
  ELSE NAN

=============================================================================
