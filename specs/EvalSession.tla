----------------------------- MODULE EvalSession ----------------------------
(***************************************************************************)
(* Design model of the life of evaluated objects: a session of calls of    *)
(* two living objects.  A call is made with an object, options, frames,    *)
(* time, place and form (one value or an array).  Each implementation may  *)
(* remember what it calculated (coefficients of a time, converted places,  *)
(* selected degrees) in memories keyed by a part of the call.  The         *)
(* ghost of a memory entry is the call it was calculated for.  A memory is *)
(* sound when its key holds everything its value depends on; then          *)
(* (Memoryless) whatever the session, a call is answered as if it was the  *)
(* first one.  All sessions are exported and replayed with new objects.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen, Options

VARIABLES session, memory, answer
vars == <<session, memory, answer>>

Parts == {"obj", "opt", "frame", "time", "place"}
Calls == [obj : 0..1, opt : 0..(Options - 1), frame : 0..1, time : 0..1, place : 0..1, form : {"one", "many"}]

\* what the memorized quantities depend on
Depends == [coefficients |-> {"obj", "opt", "time"}, places |-> {"frame", "place"},
            rotation |-> {"frame", "place"}, subset |-> {"obj", "opt"}]
Key(q, c) == [p \in Depends[q] |-> c[p]]
Names == DOMAIN Depends

Init == session = <<>> /\ memory = [q \in Names |-> {}] /\ answer = TRUE

Hit(q, c) == {e \in memory[q] : Key(q, e) = Key(q, c)}
Used(q, c) == IF Hit(q, c) = {} THEN c ELSE CHOOSE e \in Hit(q, c) : TRUE
Call(c) ==
  /\ Len(session) < MaxLen
  /\ session' = Append(session, c)
  /\ memory' = [q \in Names |-> IF Hit(q, c) = {} THEN memory[q] \cup {c} ELSE memory[q]]
  \* every quantity entering the result belongs to this call
  /\ answer' = (\A q \in Names, p \in Parts : p \in Depends[q] => Used(q, c)[p] = c[p])
  /\ (Len(session') = MaxLen => CSVWrite("%1$s", <<ToJson([k \in 1..MaxLen |->
        LET d == session'[k] IN <<d.obj, d.opt, d.frame, d.time, d.place, d.form>>])>>, IOEnv.OUT))

Next == \E c \in Calls : Call(c)
Spec == Init /\ [][Next]_vars
Memoryless == answer
\* the memory holds one entry of a key
Unique == \A q \in Names : \A a, b \in memory[q] : Key(q, a) = Key(q, b) => a = b
=============================================================================
