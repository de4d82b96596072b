------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* Time-series of the magnetospheric (MMA) products and their merging.     *)
(* A product is [nm (sequence of <<degree, order>>), t (increasing times), *)
(* v (per time, sequence of coefficient values in the order of nm)].       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Begin(p) == p.t[1]
End(p) == p.t[Len(p.t)]

\* pairs of products which cannot be one series in this order
Clash(p, q) == p.nm # q.nm \/ End(p) > Begin(q)
Refused(ps) == \E j \in 1..Len(ps) : \E i \in 1..(j - 1) : Clash(ps[i], ps[j])

Join(p, q) == [nm |-> p.nm, t |-> p.t \o q.t, v |-> p.v \o q.v]
Merge(ps) == FoldLeft(Join, ps[1], Tail(ps))

\* values times the unit (a multiple of twice any distance of the nodes), at
\* the time x/2: more values if more nodes share the time
Values(s, x, unit) ==
  LET n == Len(s.t)
      here == {i \in 1..n : 2*s.t[i] = x} IN
  IF here # {} THEN {[c \in DOMAIN s.nm |-> unit*s.v[i][c]] : i \in here}
  ELSE LET i == CHOOSE i \in 1..(n - 1) : 2*s.t[i] < x /\ x < 2*s.t[i + 1]
           gap == 2*(s.t[i + 1] - s.t[i]) IN
       {[c \in DOMAIN s.nm |-> unit*s.v[i][c] + (s.v[i + 1][c] - s.v[i][c])*((unit \div gap)*(x - 2*s.t[i]))]}
=============================================================================
