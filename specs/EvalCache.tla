------------------------------ MODULE EvalCache ------------------------------
(***************************************************************************)
(* Design model of the array evaluation loop of the spherical harmonic     *)
(* series.  A point has the components                                     *)
(*   1 time (first), 2 time (second), 3 latitude, 4 longitude, 5 radius    *)
(* each with the values 0, 1 or 2 = NaN.  Partial results (buffers) are    *)
(* kept between the elements and re-calculated only when one of the        *)
(* components they depend on differs from the last one (NaN differs from   *)
(* everything, itself included).  The ghost variable `holds` records for   *)
(* which component values each buffer was calculated.  The property:       *)
(* whatever the sequence of the points, every element is calculated from   *)
(* buffers belonging to its own components: the result is a function of    *)
(* the point alone.  All sequences are exported and replayed in the code.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen

VARIABLES seq, i, stage, last, holds, out
vars == <<seq, i, stage, last, holds, out>>

Comp == 1..5
NaN == 2
Points == {p \in [Comp -> 0..2] : Cardinality({c \in Comp : p[c] = NaN}) <= 1}
Base == [c \in Comp |-> 0]

\* buffers: coefficients, Legendre functions, azimuthal series, radial powers
Buffers == {"coef", "leg", "azi", "rad"}
Deps(b) == CASE b = "coef" -> {1, 2} [] b = "leg" -> {3} [] b = "azi" -> {4}
             [] b = "rad" -> {5}

Nothing == [c \in Comp |-> NaN]

Init == /\ seq = <<Base>> /\ i = 0 /\ stage = "build" /\ out = <<>>
        /\ last = Nothing /\ holds = [b \in Buffers |-> Nothing]

Add(p) == /\ stage = "build" /\ Len(seq) < MaxLen /\ seq' = Append(seq, p)
          /\ UNCHANGED <<i, stage, last, holds, out>>

Start == /\ stage = "build" /\ stage' = "loop" /\ i' = 1
         /\ CSVWrite("%1$s", <<ToJson(seq)>>, IOEnv.OUT)
         /\ UNCHANGED <<seq, last, holds, out>>

Differs(a, b) == a = NaN \/ b = NaN \/ a # b

Element ==
  /\ stage = "loop" /\ i <= Len(seq)
  /\ LET p == seq[i]
         stale(b) == \E c \in Deps(b) : Differs(p[c], last[c])
         new == [b \in Buffers |-> IF stale(b) THEN p ELSE holds[b]] IN
     /\ holds' = new
     /\ last' = p
     /\ out' = Append(out, [c \in Comp |->
                  new[CHOOSE b \in Buffers : c \in Deps(b)][c]])
  /\ i' = i + 1 /\ UNCHANGED <<seq, stage>>

Next == Element \/ Start \/ \E p \in Points : Add(p)
Spec == Init /\ [][Next]_vars

\* the last result was calculated for the components of its own point
Memoryless == stage = "loop" => \A k \in DOMAIN out : out[k] = seq[k]
\* equal points give equal results
Functional == \A j, k \in DOMAIN out : seq[j] = seq[k] => out[j] = out[k]
=============================================================================
