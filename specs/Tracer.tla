------------------------------- MODULE Tracer -------------------------------
(***************************************************************************)
(* Generic trace validation skeleton.  The recorded behaviour of the       *)
(* implementation is consumed line by line; the verdict is total: a line   *)
(* that the specification does not allow is added to `bad` with the names  *)
(* of the failed clauses and the validation goes on with the next line.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)

MaxReported == 200

\* functions from clause names to numbers of evaluations
Tally(counts, names) ==
  [c \in DOMAIN counts |-> counts[c] + (IF c \in names THEN 1 ELSE 0)]

Report(list, line, names) ==
  IF names = {} \/ Len(list) >= MaxReported THEN list
  ELSE Append(list, [line |-> line, clauses |-> names])

WriteVerdict(bad, known, counts) ==
  JsonSerialize(IOEnv.VERDICT,
    [lines |-> NLines, bad |-> bad, known |-> known, counts |-> counts])
=============================================================================
