------------------------------ MODULE FrameWalk ------------------------------
(***************************************************************************)
(* Design model of rotations of vectors between frames: a vector is carried*)
(* through a sequence of frames of one place.  Whatever the path, the      *)
(* components are those of the same physical vector, its norm is kept and  *)
(* the return to a frame gives the initial components.  The walks are      *)
(* exported and replayed in the implementation.                            *)
(***************************************************************************)
EXTENDS Frames, TLC, Json, CSV, IOUtils
CONSTANTS Latitudes, Longitudes, Vectors, MaxSteps
VARIABLES lo, la, path, v, den, first
vars == <<lo, la, path, v, den, first>>

QuickLat == {<<1, 0, 1>>, <<-1, 0, 1>>, <<0, 1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>}
DeepLat == QuickLat \cup {<<4, 3, 5>>, <<-3, 4, 5>>}
QuickLon == {<<0, 1, 1>>, <<0, -1, 1>>, <<1, 0, 1>>, <<-3, 4, 5>>}
DeepLon == QuickLon \cup {<<-1, 0, 1>>, <<4, -3, 5>>}
QuickVec == {<<1, 0, 0>>, <<2, -1, 3>>}
DeepVec == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, -1, 3>>}

\* latitudes of the geodetic and the spherical frame
FrameOf(t) == [t |-> t, la |-> IF t = 2 THEN <<0, 1, 1>> ELSE la[t + 1]]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Common(w, n) == Gcd(Gcd(Gcd(n, Abs(w[1])), Abs(w[2])), Abs(w[3]))
Init == /\ lo \in Longitudes /\ la \in Latitudes \X Latitudes
        /\ \E t \in 0..2 : path = <<t>>
        /\ v \in Vectors /\ first = v /\ den = 1
Step == /\ Len(path) <= MaxSteps
        /\ \E t \in 0..2 \ {path[Len(path)]} :
             LET f == FrameOf(path[Len(path)])
                 g == FrameOf(t)
                 w == TLCEval(Rotated(f, g, lo, v))
                 n == den * Den(f, lo) * Den(g, lo)
                 k == TLCEval(Common(w, n)) IN
             /\ path' = Append(path, t)
             /\ v' = <<w[1] \div k, w[2] \div k, w[3] \div k>>
             /\ den' = n \div k
             /\ Len(path') > MaxSteps =>
                  CSVWrite("%1$s", <<ToJson([path |-> path', la |-> la, lo |-> lo, v |-> first])>>, IOEnv.OUT)
        /\ UNCHANGED <<lo, la, first>>
Next == Step
Spec == Init /\ [][Next]_vars

F0 == FrameOf(path[1])
Fn == FrameOf(path[Len(path)])
\* the physical vector of the present components is the initial one
SamePhysical == Mul3(Den(F0, lo), ToCart(Fn, lo, v))
                = Mul3(den * Den(Fn, lo), ToCart(F0, lo, first))
SameNorm == Dot3(v, v) = den * den * Dot3(first, first)
Returned == path[Len(path)] = path[1] => v = Mul3(den, first)
Orthonormal == \A t \in 0..2 : LET m == Matrix(FrameOf(t), lo)
                                   d == Den(FrameOf(t), lo) IN
  \A i, j \in 1..3 : Dot3(m[i], m[j]) = IF i = j THEN d * d ELSE 0
=============================================================================
