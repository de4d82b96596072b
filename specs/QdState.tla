------------------------------ MODULE QdState ------------------------------
(***************************************************************************)
(* Design model of the state kept by the quasi-dipole library between and  *)
(* within calls: the name of the loaded coefficient file, the epoch of the *)
(* time-interpolated coefficients, the altitude of the height-dependent    *)
(* coefficients and the load flag.  A call evaluates a batch of points     *)
(* [t, a] (time and altitude) with one coefficient file.  Some files are   *)
(* corrupt - their load overwrites the coefficients and is refused.        *)
(* Times: an epoch class, NaN, or a near-by time (t + 1 for odd t - within *)
(* the limit of one day, sharing the epoch within a batch).                *)
(* Checked: whatever has been called before, each point is evaluated with  *)
(* the coefficients of its file, epoch (clamped to the range of the file)  *)
(* and altitude, refused calls return nothing.                             *)
(* All histories are exported and replayed.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Files, Corrupt, Times, Alts, MaxLen, MaxCalls
QuickTimes == {-1, 0, 3, 4}
DeepTimes == {-1, 0, 3, 4, 6, 8}
VARIABLES hist, last, name, loaded, content, epochlast, coeffs, altlast, altcoeffs
vars == <<hist, last, name, loaded, content, epochlast, coeffs, altlast, altcoeffs>>

NaN == -1
None == -9
\* range of times of a file
First(f) == IF f = 1 THEN 3 ELSE 1
Final(f) == IF f = 1 THEN 5 ELSE 7
Clamp(f, t) == IF t < First(f) THEN First(f) ELSE IF t > Final(f) THEN Final(f) ELSE t
Near(t, s) == t = s \/ (t % 2 = 1 /\ s = t + 1) \/ (s % 2 = 1 /\ t = s + 1)

Batches == UNION {[1..n -> [t : Times, a : Alts]] : n \in 1..MaxLen}
State == [name |-> name, loaded |-> loaded, content |-> content, epochlast |-> epochlast,
          coeffs |-> coeffs, altlast |-> altlast, altcoeffs |-> altcoeffs]

\* LOADAPXSH: <<state, ok>>
Load(s, f, t) ==
  LET reread == f # s.name \/ ~s.loaded
      read == [s EXCEPT !.loaded = IF reread THEN FALSE ELSE @, !.content = IF reread THEN f ELSE @] IN
  IF reread /\ f \in Corrupt THEN <<[read EXCEPT !.coeffs = <<None, None>>], FALSE>>
  ELSE LET renew == t # s.epochlast \/ f # s.name \/ ~read.loaded
           new == IF renew THEN [read EXCEPT !.coeffs = <<read.content, Clamp(read.content, t)>>,
                                             !.altlast = None]
                  ELSE read IN
       <<[new EXCEPT !.loaded = TRUE, !.name = f, !.epochlast = t], TRUE>>
\* APXG2Q: <<state, value>>
Point(s, a) ==
  LET new == IF a # s.altlast THEN [s EXCEPT !.altcoeffs = <<s.coeffs, a>>, !.altlast = a] ELSE s IN
  <<new, new.altcoeffs>>

\* loop over the points: <<state, results, ok>>
RECURSIVE Eval(_, _, _, _, _, _)
Eval(s, f, batch, i, old, out) ==
  IF i > Len(batch) THEN <<s, out, TRUE>>
  ELSE IF batch[i].t = NaN THEN Eval(s, f, batch, i + 1, old, Append(out, <<NaN>>))
  ELSE LET reload == old = None \/ ~Near(batch[i].t, old)
           load == IF reload THEN Load(s, f, batch[i].t) ELSE <<s, TRUE>> IN
       IF ~load[2] THEN <<load[1], <<>>, FALSE>>
       ELSE LET p == Point(load[1], batch[i].a) IN
            Eval(p[1], f, batch, i + 1, IF reload THEN batch[i].t ELSE old, Append(out, p[2]))

Init == /\ hist = <<>> /\ last = <<>> /\ name = None /\ loaded = FALSE /\ content = None
        /\ epochlast = None /\ coeffs = <<None, None>> /\ altlast = None /\ altcoeffs = <<>>
Call == /\ Len(hist) < MaxCalls
        /\ \E f \in Files, b \in Batches :
             LET r == Eval(State, f, b, 1, None, <<>>)
                 s == r[1]
                 h == Append(hist, [f |-> f, b |-> b]) IN
             /\ hist' = h /\ last' = <<r[2], r[3]>>
             /\ name' = s.name /\ loaded' = s.loaded /\ content' = s.content
             /\ epochlast' = s.epochlast /\ coeffs' = s.coeffs
             /\ altlast' = s.altlast /\ altcoeffs' = s.altcoeffs
             /\ Len(h) = MaxCalls => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
Next == Call
Spec == Init /\ [][Next]_vars

Pointwise ==
  hist # <<>> =>
    LET c == hist[Len(hist)] IN
    /\ last[2] = (c.f \notin Corrupt \/ \A i \in DOMAIN c.b : c.b[i].t = NaN)
    /\ last[2] => \A i \in DOMAIN c.b :
         IF c.b[i].t = NaN THEN last[1][i] = <<NaN>>
         ELSE \E j \in 1..i :
                /\ Near(c.b[i].t, c.b[j].t)
                /\ last[1][i] = <<<<c.f, Clamp(c.f, c.b[j].t)>>, c.b[i].a>>
=============================================================================
