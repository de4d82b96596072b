------------------------------ MODULE CallWalk ------------------------------
(***************************************************************************)
(* A process executing calls.  A call acquires its arguments one by one,   *)
(* works with them and releases them.  A faulty argument ends the call     *)
(* at once.  The only memory which outlives a call is the loaded file of   *)
(* the quasi-dipole coefficients; it is replaced by a complete new file.   *)
(* A refused call is a stuttering step of the observable state.            *)
(***************************************************************************)
EXTENDS Contracts, Integers, TLC, IOUtils, Json, CSV
CONSTANTS Depth, MaxArity
VARIABLES pc, call, held, next, loaded, result, past, ghost
vars == <<pc, call, held, next, loaded, result, past, ghost>>

Good == {"a.dat", "b.dat"}
Broken == {"qd-short", "qd-header", "missing", "garbage"}
\* kinds of calls: of functions without memory, of the ones with the file
Kernels == [kind : {"kernel"}, arity : {MaxArity}, bad : 0..MaxArity, file : {""}]
Qd == [kind : {"qd"}, arity : {1}, bad : {0, 1}, file : Good \cup Broken]
Calls == Kernels \cup Qd
None == [kind |-> "none", arity |-> 0, bad |-> 0, file |-> ""]

Init == /\ pc = "idle" /\ call = None /\ held = {} /\ next = 0 /\ loaded = "" /\ result = "" /\ past = <<>> /\ ghost = ""

Enter(c) == /\ pc = "idle" /\ Len(past) < Depth
            /\ call' = c /\ next' = 1 /\ held' = {} /\ result' = "" /\ pc' = "parse"
            /\ UNCHANGED <<loaded, past, ghost>>
Acquire == /\ pc = "parse" /\ next <= call.arity
           /\ IF next = call.bad THEN pc' = "exit" /\ result' = "refused" /\ UNCHANGED <<held, next>>
              ELSE held' = held \cup {next} /\ next' = next + 1 /\ UNCHANGED <<pc, result>>
           /\ UNCHANGED <<call, loaded, past, ghost>>
Work == /\ pc = "parse" /\ next > call.arity /\ pc' = "exit"
        /\ IF call.kind # "qd" THEN result' = "value" /\ loaded' = loaded
           ELSE IF call.file = loaded THEN result' = loaded /\ loaded' = loaded
           ELSE IF call.file \in Good THEN loaded' = call.file /\ result' = call.file
           ELSE result' = "refused" /\ loaded' = loaded
        /\ UNCHANGED <<call, held, next, past, ghost>>
Leave == /\ pc = "exit" /\ pc' = "idle" /\ held' = {}
         /\ past' = Append(past, [kind |-> call.kind, bad |-> call.bad, file |-> call.file, result |-> result])
         /\ ghost' = IF call.kind = "qd" /\ result # "refused" THEN call.file ELSE ghost
         /\ call' = None /\ next' = 0 /\ UNCHANGED <<loaded, result>>
         /\ (Len(past') = Depth) => CSVWrite("%1$s", <<ToJson([history |-> past'])>>, IOEnv.OUT)
Next == (\E c \in Calls : Enter(c)) \/ Acquire \/ Work \/ Leave
Spec == Init /\ [][Next]_vars

\* the faults of all parameters are exported once
ASSUME \A f \in Names : \A k \in DOMAIN Params(f) : \A x \in Faults(Params(f)[k]) :
         CSVWrite("%1$s", <<ToJson([func |-> f, param |-> Params(f)[k].name, fault |-> x])>>, IOEnv.OUT)
ASSUME \A f \in Names : /\ Functions[f].least <= Len(Params(f))
                        /\ \A j, k \in DOMAIN Params(f) : Params(f)[j].name = Params(f)[k].name => j = k
                        /\ \A k \in DOMAIN Params(f) : Params(f)[k].shapes \cap FreeFaults(Params(f)[k].type) \subseteq
                                                          {"zero", "minus", "negative", "deepest"}

Released == pc = "idle" => held = {}
\* what is loaded follows from the accepted calls only
Erased == pc = "idle" => loaded = ghost
\* results do not depend on the history
Pure == \A k \in DOMAIN past : past[k].result =
          IF past[k].bad # 0 \/ past[k].file \in Broken THEN "refused" ELSE IF past[k].kind = "qd" THEN past[k].file ELSE "value"
Stutter == [][(pc = "exit" /\ result = "refused") => loaded' = loaded]_vars
=============================================================================
