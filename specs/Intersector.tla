---------------------------- MODULE Intersector ----------------------------
(***************************************************************************)
(* Design model of the merge of two ascending lists of validity intervals  *)
(* to the list of their intersections (two cursors, the one ending first   *)
(* advances), against the set of all non-empty pairwise intersections.     *)
(***************************************************************************)
EXTENDS Coeffs, TLC, Json, CSV, IOUtils

MCEnds == {NINF, 0, 2, 4, 6, PINF}
MCEndsDeep == {NINF, 0, 2, 4, 6, 8, PINF}
CONSTANTS Ends, MaxLen

VARIABLES phase, a, b, i, j, out
vars == <<phase, a, b, i, j, out>>

Intervals == {iv \in Ends \X Ends : iv[1] < iv[2] /\ iv[1] # PINF /\ iv[2] # NINF}

Init == phase = "build" /\ a = <<>> /\ b = <<>> /\ i = 1 /\ j = 1 /\ out = <<>>

CanAppend(list, iv) == Len(list) < MaxLen /\ (list # <<>> => list[Len(list)][2] <= iv[1])

AddA(iv) == /\ phase = "build" /\ b = <<>> /\ CanAppend(a, iv)
            /\ a' = Append(a, iv) /\ UNCHANGED <<phase, b, i, j, out>>
AddB(iv) == /\ phase = "build" /\ a # <<>> /\ CanAppend(b, iv)
            /\ b' = Append(b, iv) /\ UNCHANGED <<phase, a, i, j, out>>
Start == /\ phase = "build" /\ b # <<>> /\ phase' = "merge"
         /\ UNCHANGED <<a, b, i, j, out>>

Both(x, y) == Meet(<<x, y>>)

Merge ==
  /\ phase = "merge" /\ i <= Len(a) /\ j <= Len(b)
  /\ LET m == Both(a[i], b[j]) IN
     out' = IF IsEmpty(m) THEN out ELSE Append(out, <<m[1], m[2], i, j>>)
  /\ IF b[j][2] < a[i][2] THEN j' = j + 1 /\ UNCHANGED i
                          ELSE i' = i + 1 /\ UNCHANGED j
  /\ UNCHANGED <<phase, a, b>>

Done ==
  /\ phase = "merge" /\ (i > Len(a) \/ j > Len(b)) /\ phase' = "done"
  /\ CSVWrite("%1$s", <<ToJson(<<a, b>>)>>, IOEnv.OUT)
  /\ UNCHANGED <<a, b, i, j, out>>

Next == (\E iv \in Intervals : AddA(iv) \/ AddB(iv)) \/ Start \/ Merge \/ Done
Spec == Init /\ [][Next]_vars

\* every piece is the intersection of its sources, pieces ascend
Sound == \A k \in DOMAIN out :
           /\ <<out[k][1], out[k][2]>> = Both(a[out[k][3]], b[out[k][4]])
           /\ k > 1 => out[k - 1][2] <= out[k][1]
\* every intersection of more than one instant is there
CompleteMerge ==
  phase = "done" =>
    \A x \in DOMAIN a, y \in DOMAIN b :
      LET m == Both(a[x], b[y]) IN
      m[1] < m[2] => \E k \in DOMAIN out : out[k] = <<m[1], m[2], x, y>>
\* and every shared instant is covered
Covered ==
  phase = "done" =>
    \A x \in DOMAIN a, y \in DOMAIN b :
      LET m == Both(a[x], b[y]) IN
      ~IsEmpty(m) => \E k \in DOMAIN out : out[k][1] <= m[1] /\ m[2] <= out[k][2]
=============================================================================
