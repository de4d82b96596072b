------------------------------ MODULE Assembly ------------------------------
(***************************************************************************)
(* Design model of the composition of models by pushes.  The evaluation is *)
(* a loop over the parts: each gets a copy of the options of the call      *)
(* overridden by its own options and its own scale; the sum of the results *)
(* is multiplied by the scale of the call.  A composition can be pushed    *)
(* to another one.  Checked against the declarative sum, for independence  *)
(* of the order of the pushes, for the distribution of the scale over the  *)
(* nested composition and for intact options of the call.                  *)
(* Parts are numbered; their fields by the applied degree limits are the   *)
(* constant table below (numbers without small linear dependency).  Every  *)
(* reachable history is exported and replayed.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kinds, Scales, MaxPush,
          MaxInner    \* parts of and parts next to a nested composition
QuickScales == {1, -2}
DeepScales == {1, -2, 0}
VARIABLES parts, nested, phase, opts, i, args, sum, result
vars == <<parts, nested, phase, opts, i, args, sum, result>>

None == -99
Limits == {None, 1, 2}                 \* own or given maximum degree
\* field of the terms of degree 1 and of degree 2
Field(kind, hi) == (CASE kind = 1 -> 1 [] kind = 2 -> 101 [] OTHER -> 10007)
                   + IF hi = 1 THEN 0 ELSE (CASE kind = 1 -> 13 [] kind = 2 -> 1709 [] OTHER -> 150001)

Init == /\ parts = <<>> /\ nested = <<>> /\ phase = "push" /\ opts = [hi |-> None, scale |-> None]
        /\ i = 1 /\ args = None /\ sum = 0 /\ result = 0

Push == /\ phase = "push" /\ Len(parts) < (IF nested = <<>> THEN MaxPush ELSE MaxInner)
        /\ \E k \in Kinds, s \in Scales, h \in Limits :
             parts' = Append(parts, [kind |-> k, scale |-> s, hi |-> h])
        /\ UNCHANGED <<nested, phase, opts, i, args, sum, result>>
\* the parts so far become a part of a new composition
Nest == /\ phase = "push" /\ nested = <<>> /\ parts # <<>> /\ Len(parts) <= MaxInner
        /\ \E s \in Scales, h \in Limits :
             nested' = <<[parts |-> parts, scale |-> s, hi |-> h]>>
        /\ parts' = <<>>
        /\ UNCHANGED <<phase, opts, i, args, sum, result>>
Call == /\ phase = "push" /\ phase' = "eval"
        /\ \E h \in {None, 1}, s \in {None, 3} : opts' = [hi |-> h, scale |-> s]
        /\ i' = 1 /\ sum' = 0 /\ args' = None
        /\ UNCHANGED <<parts, nested, result>>

Or(own, given) == IF own = None THEN given ELSE own
RECURSIVE Total(_, _, _)
Total(ps, hi, k) == IF k > Len(ps) THEN 0
                    ELSE ps[k].scale * Field(ps[k].kind, Or(ps[k].hi, hi)) + Total(ps, hi, k + 1)

\* one part per step
Loop == /\ phase = "eval" /\ i <= Len(parts)
        /\ args' = Or(parts[i].hi, opts.hi)
        /\ sum' = sum + parts[i].scale * Field(parts[i].kind, args')
        /\ i' = i + 1 /\ UNCHANGED <<parts, nested, phase, opts, result>>
Finish == /\ phase = "eval" /\ i > Len(parts) /\ phase' = "done"
          /\ LET inner == IF nested = <<>> THEN 0
                          ELSE Total(nested[1].parts, Or(nested[1].hi, opts.hi), 1) * nested[1].scale IN
             result' = (sum + inner) * (IF opts.scale = None THEN 1 ELSE opts.scale)
          /\ CSVWrite("%1$s", <<ToJson([parts |-> parts, nested |-> nested, opts |-> opts])>>, IOEnv.OUT)
          /\ UNCHANGED <<parts, nested, opts, i, args, sum>>
Next == Push \/ Nest \/ Call \/ Loop \/ Finish
Spec == Init /\ [][Next]_vars

\* all leaves with their accumulated scales and effective limits
Flat == [j \in 1..Len(parts) |-> [kind |-> parts[j].kind, scale |-> parts[j].scale,
                                  hi |-> Or(parts[j].hi, opts.hi)]]
        \o (IF nested = <<>> THEN <<>>
            ELSE [j \in 1..Len(nested[1].parts) |->
                    LET p == nested[1].parts[j] IN
                    [kind |-> p.kind, scale |-> p.scale * nested[1].scale,
                     hi |-> Or(p.hi, Or(nested[1].hi, opts.hi))]])
RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN 0
                ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SumSet(f, s \ {x})
Declared == LET fs == [j \in DOMAIN Flat |-> Flat[j].scale * Field(Flat[j].kind, Flat[j].hi)] IN
            (IF opts.scale = None THEN 1 ELSE opts.scale) * SumSet(fs, DOMAIN fs)
Correct == phase = "done" => result = Declared
\* sum over the reversed order
Commutes == phase = "done" /\ nested = <<>> =>
  LET rev == [j \in DOMAIN parts |-> parts[Len(parts) + 1 - j]] IN
  Total(rev, opts.hi, 1) = Total(parts, opts.hi, 1)
EmptyIsZero == phase = "done" /\ parts = <<>> /\ nested = <<>> => result = 0
OptionsIntact == phase \in {"eval", "done"} => opts.hi \in Limits
=============================================================================
