------------------------------ MODULE Layouts -------------------------------
(***************************************************************************)
(* Memory layouts of arrays.  A view of a buffer is made from a plain      *)
(* array of the buffer by selecting every s-th element, reversing and      *)
(* exchanging the axes; an element of the view is read from the cell       *)
(* offset + SUM(index*stride).  All views reachable by the operations are  *)
(* exported; their description is independent of the number of axes (an    *)
(* axis k of an array uses the axis k modulo 2 of the description).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Shape, MaxStep, MaxPad, MaxOps

\* per axis: elements in the buffer, first element, step
VARIABLES swap, axes, ops
vars == <<swap, axes, ops>>

\* the buffer has padding before and behind each axis
Size(k) == Shape[k]*MaxStep + 2*MaxPad
Axis(k) == [first |-> 0, step |-> 1, n |-> Size(k)]

Init == swap = 0 /\ axes = <<Axis(1), Axis(2)>> /\ ops = 0

Change(k, a) == axes' = [axes EXCEPT ![k] = a] /\ ops' = ops + 1 /\ UNCHANGED swap
Reverse(k) == Change(k, [first |-> axes[k].first + (axes[k].n - 1)*axes[k].step, step |-> -axes[k].step, n |-> axes[k].n])
Select(k, s) == /\ axes[k].n >= s*(Shape[k] - 1) + 1 /\ axes[k].step \in {1, -1}
                /\ Change(k, [axes[k] EXCEPT !.step = @*s, !.n = ((@ - 1) \div s) + 1])
\* drop leading elements, or keep the leading elements
Skip(k, d) == /\ axes[k].n - d >= Shape[k]
              /\ Change(k, [axes[k] EXCEPT !.first = @ + d*axes[k].step, !.n = @ - d])
Crop(k) == axes[k].n > Shape[k] /\ Change(k, [axes[k] EXCEPT !.n = Shape[k]])
Transpose == swap' = 1 - swap /\ ops' = ops + 1 /\ UNCHANGED axes
Next == /\ ops < MaxOps
        /\ \/ Transpose
           \/ \E k \in 1..2 : Reverse(k) \/ Crop(k) \/ (\E s \in 2..MaxStep : Select(k, s)) \/ (\E d \in 1..MaxPad : Skip(k, d))
Spec == Init /\ [][Next]_vars

Full == axes[1].n = Shape[1] /\ axes[2].n = Shape[2]
Indices == {<<i, j>> : i \in 0..(Shape[1] - 1), j \in 0..(Shape[2] - 1)}
\* buffer ordered by the first axis, or by the second one
Stride(k) == IF swap = 0 THEN (IF k = 1 THEN Size(2) ELSE 1) ELSE (IF k = 1 THEN 1 ELSE Size(1))
Cell(x) == (axes[1].first + x[1]*axes[1].step)*Stride(1) + (axes[2].first + x[2]*axes[2].step)*Stride(2)

S == <<2, 3>>
Inside == \A x \in Indices : Cell(x) \in 0..(Size(1)*Size(2) - 1)
OneToOne == \A x, y \in Indices : Cell(x) = Cell(y) => x = y
Export == ~Full \/ CSVWrite("%1$s", <<ToJson([swap |-> swap, axes |-> axes])>>, IOEnv.OUT)
=============================================================================
