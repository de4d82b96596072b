------------------------------ MODULE TraceHeap -----------------------------
(***************************************************************************)
(* Validation of recorded histories of calls sharing their inputs and of   *)
(* modifications of results by the user against a machine, where a call    *)
(* adds new objects and changes none of the existing ones, and where the   *)
(* result is a function of the values of the inputs only (whatever their   *)
(* memory layout and type and whatever happened before).                   *)
(* Lines:                                                                  *)
(*   [ev |-> "start"] beginning of an independent history                  *)
(*   [ev |-> "call", key, form, args, made, tok, res, shared, heap]        *)
(*     key: number of the input values; args: inputs; made: <<object,      *)
(*     content>> of the inputs created before the call; tok: number of the *)
(*     result (0: exception); res: result objects; shared: 1 if the result *)
(*     is a view of another object; heap: contents of all objects after    *)
(*   [ev |-> "write", obj, heap]                                           *)
(*   [ev |-> "refill", objs, heap]  new contents of the inputs objs given  *)
(*     by the user, the later calls use them as inputs of the other key    *)
(*     (again: 1 in the lines of such calls)                               *)
(***************************************************************************)
EXTENDS Tracer

VARIABLES l, bad, known, counts, heap, memo
vars == <<l, bad, known, counts, heap, memo>>
Forms == {"plain", "integer", "single", "sequence", "swapped", "unaligned", "reversed", "transposed", "strided",
          "number", "readonly"}
Clauses == Forms \cup {"refused", "input", "earlier", "fresh", "write", "refill", "again"}
Keys == 1..2

Init == /\ l = 1 /\ bad = <<>> /\ known = <<>> /\ counts = [c \in Clauses |-> 0]
        /\ heap = <<>> /\ memo = [k \in Keys |-> 0]

Range(s) == {s[i] : i \in DOMAIN s}
Changed(old, new, skip) == {i \in DOMAIN old \ skip : i \notin DOMAIN new \/ old[i] # new[i]}

JudgeCall(o) ==
  LET made == [i \in {x[1] : x \in Range(o.made)} |-> (CHOOSE x \in Range(o.made) : x[1] = i)[2]]
      before == [i \in DOMAIN heap \cup DOMAIN made |-> IF i \in DOMAIN made THEN made[i] ELSE heap[i]]
      changed == Changed(before, o.heap, {})
      args == Range(o.args)
      expected == memo[o.key] IN
  <<(IF o.tok = 0 THEN {"refused"} ELSE {})
    \cup (IF o.tok # 0 /\ expected # 0 /\ o.tok # expected THEN {o.form} \cup (IF o.again = 1 THEN {"again"} ELSE {}) ELSE {})
    \cup (IF changed \cap args = {} THEN {} ELSE {"input"})
    \cup (IF changed \subseteq args THEN {} ELSE {"earlier"})
    \cup (IF o.shared = 0 THEN {} ELSE {"fresh"}),
    {o.form, "refused", "input", "fresh"} \cup (IF o.again = 1 /\ expected # 0 THEN {"again"} ELSE {}) \cup (IF DOMAIN heap = {} THEN {} ELSE {"earlier"})>>

JudgeWrite(o) == <<IF Changed(heap, o.heap, {o.obj}) = {} THEN {} ELSE {"write"}, {"write"}>>

JudgeRefill(o) == <<IF Changed(heap, o.heap, Range(o.objs)) = {} THEN {} ELSE {"refill"}, {"refill"}>>

Step == /\ l <= NLines /\ l' = l + 1
        /\ LET o == Trace[l]
               crashed == o.ev = "crash"
               start == o.ev = "start" \/ crashed
               j == TLCEval(CASE o.ev = "call" -> JudgeCall(o)
                              [] o.ev = "write" -> JudgeWrite(o)
                              [] o.ev = "refill" -> JudgeRefill(o)
                              [] o.ev = "start" -> <<{}, {}>>
                              [] OTHER -> <<{"crash"}, {}>>) IN
           /\ heap' = IF start THEN <<>> ELSE o.heap
           /\ memo' = IF start THEN [k \in Keys |-> 0]
                      ELSE IF o.ev = "call" /\ o.tok # 0 /\ memo[o.key] = 0 THEN [memo EXCEPT ![o.key] = o.tok] ELSE memo
           /\ bad' = Report(bad, l, j[1])
           /\ counts' = Tally(counts, j[2])
        /\ UNCHANGED known
Finish == /\ l = NLines + 1 /\ WriteVerdict(bad, known, counts) /\ l' = l + 1
          /\ UNCHANGED <<bad, known, counts, heap, memo>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
