------------------------------ MODULE Broadcast ------------------------------
(***************************************************************************)
(* Broadcasting of the arrays of inputs.  A shape is a sequence of sizes   *)
(* (without the trailing component dimension of vectors), a value is its   *)
(* flat (row-major) index.  Rules:                                         *)
(*   longest  every shape is a leading part of the longest one, which is   *)
(*            the shape of the result (models, SH evaluation)              *)
(*   options  as longest for the first two inputs (time and location), the *)
(*            others are leading parts of the shape of the result          *)
(*   mutual   arrays have the same shape, scalars are repeated (Sun)       *)
(*   refer    the first shape is the shape of the result, the others are   *)
(*            the same or scalar (rotations)                               *)
(*   flat     all shapes are equal and have at most one dimension (QD)     *)
(*   equal    all shapes are equal                                         *)
(*   outer    the result has the dimensions of all inputs in a row         *)
(*   numpy    trailing dimensions match or are of size one                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rules == {"longest", "options", "mutual", "refer", "flat", "equal", "outer", "numpy"}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
IsLeading(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE s[1] * Size(Tail(s))

RECURSIVE Longest(_)
Longest(ss) == IF Len(ss) = 1 THEN ss[1]
               ELSE LET r == Longest(Tail(ss)) IN IF Len(ss[1]) >= Len(r) THEN ss[1] ELSE r

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

\* NumPy: size of the i-th dimension counted from the end
FromEnd(s, i) == IF i > Len(s) THEN 1 ELSE s[Len(s) + 1 - i]
NumpyDim(ss, i) ==
  LET ds == {FromEnd(ss[j], i) : j \in DOMAIN ss} \ {1} IN
  IF ds = {} THEN 1 ELSE CHOOSE d \in ds : TRUE
NumpyOk(ss) ==
  \A i \in 1..Len(Longest(ss)) :
    Cardinality({FromEnd(ss[j], i) : j \in DOMAIN ss} \ {1}) <= 1
NumpyShape(ss) ==
  LET n == Len(Longest(ss)) IN [k \in 1..n |-> NumpyDim(ss, n + 1 - k)]

Shape(rule, ss) ==
  CASE rule \in {"longest", "mutual"} -> Longest(ss)
    [] rule = "options" -> Longest(SubSeq(ss, 1, Min2(2, Len(ss))))
    [] rule \in {"refer", "flat", "equal"} -> ss[1]
    [] rule = "outer" -> Concat(ss)
    [] OTHER -> NumpyShape(ss)

Accepted(rule, ss) ==
  LET r == Shape(rule, ss) IN
  CASE rule \in {"longest", "options"} -> \A j \in DOMAIN ss : IsLeading(ss[j], r)
    [] rule \in {"mutual", "refer"} -> \A j \in DOMAIN ss : ss[j] \in {<<>>, r}
    [] rule = "equal" -> \A j \in DOMAIN ss : ss[j] = r
    [] rule = "flat" -> Len(r) <= 1 /\ \A j \in DOMAIN ss : ss[j] = r
    [] rule = "outer" -> TRUE
    [] OTHER -> NumpyOk(ss)

\* requests for no point at all: the options may remain unread, the result is empty all the same
Free(rule, ss) == /\ rule = "options" /\ Size(Shape(rule, ss)) = 0
                  /\ Accepted(rule, SubSeq(ss, 1, Min2(2, Len(ss))))

\* multi-index of a flat index (both zero-based)
Unravel(k, s) == [i \in 1..Len(s) |->
                    (k \div Size(SubSeq(s, i + 1, Len(s)))) % s[i]]
RECURSIVE RavelTo(_, _, _)
RavelTo(idx, s, i) == IF i = 0 THEN 0 ELSE RavelTo(idx, s, i - 1) * s[i] + idx[i]
Ravel(idx, s) == RavelTo(idx, s, Len(s))

\* flat index of the value of the j-th input used by the k-th result
Pick(rule, ss, k, j) ==
  LET r == Shape(rule, ss)
      idx == Unravel(k, r)
      s == ss[j]
      off == Len(r) - Len(s)
  IN IF s = <<>> THEN 0
     ELSE IF rule = "numpy"
     THEN Ravel([i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE idx[i + off]], s)
     ELSE IF rule = "outer"
     THEN Ravel(SubSeq(idx, Len(Concat(SubSeq(ss, 1, j - 1))) + 1,
                            Len(Concat(SubSeq(ss, 1, j)))), s)
     ELSE Ravel(SubSeq(idx, 1, Len(s)), s)
=============================================================================
