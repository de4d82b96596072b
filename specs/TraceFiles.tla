----------------------------- MODULE TraceFiles -----------------------------
(***************************************************************************)
(* Validation of the models loaded from files against the grammars.        *)
(* ev "load": [format, file, u, order (forced order or 0), start, end      *)
(*   (forced validity or [])] obs [ok, degree, low, valid, agree (the      *)
(*   model evaluates these coefficients), probes [at, v]] v: non-zero      *)
(*   [n, m, doubled value] at the mean of the times at[1] and at[2]        *)
(* ev "info": header of an SHC file; obs [ok, head, times, valid]          *)
(* ev "mio": [file, u, part] obs [ok, degree, low, aux, probes [q, v]]     *)
(*   at the quarters q of the year and of the day                          *)
(* ev "several": [files, u, mode (0 composed, 1 combined)] of files with   *)
(*   values constant in time; obs [ok, degree, low, valid, agree, probes]  *)
(* ok 0: refused                                                           *)
(***************************************************************************)
EXTENDS Tracer, FileGrammar

VARIABLES l, bad, known, counts
Clauses == {"refused", "accepted", "values", "mean", "step", "degree", "validity", "free", "model", "header",
            "mio", "aux", "composed", "combined", "gap", "igrf", "wmm", "emm", "shc"}
\* clauses of the formats
Own(f) == IF f \in {"igrf", "wmm", "emm", "shc"} THEN {f} ELSE {}

ToSet(s) == {s[i] : i \in DOMAIN s}
Triples(nm, v(_)) == {<<nm[i][1], nm[i][2], v(i)>> : i \in {j \in DOMAIN nm : v(j) # 0}}
At(times, t) == CHOOSE i \in DOMAIN times : times[i] = t
Adjacent(times, a, b) == /\ a < b /\ {a, b} \subseteq ToSet(times)
                         /\ ~\E t \in ToSet(times) : a < t /\ t < b
\* doubled values at the probe
Double(r, at, order) ==
  LET Two(i) ==
        IF Len(r.times) = 1 THEN 2*r.rows[i][1]
        ELSE IF at[1] = at[2] \/ order = 1 THEN 2*r.rows[i][At(r.times, at[1])]
        ELSE r.rows[i][At(r.times, at[1])] + r.rows[i][At(r.times, at[2])] IN
  Triples(r.nm, Two)
Relevant(r, at) == \/ Len(r.times) = 1
                   \/ at[1] = at[2] /\ at[1] \in ToSet(r.times)
                   \/ Adjacent(r.times, at[1], at[2])
Degrees(nm) == [i \in DOMAIN nm |-> nm[i][1]]
\* the range of degrees covers the coefficients which are not zero and does not exceed the written ones
DegreeOk(r, b) ==
  LET d == TLCEval(Degrees(r.nm))
      used == TLCEval({d[i] : i \in {j \in DOMAIN d : \E k \in DOMAIN r.rows[j] : r.rows[j][k] # 0}})
      all == TLCEval(ToSet(d) \cup (IF "written" \in DOMAIN r THEN ToSet(r.written) ELSE {})) IN
  /\ b.degree \in all /\ b.low \in all /\ b.low <= b.degree
  /\ \A n \in used : b.low <= n /\ n <= b.degree

JudgeLoaded(r, o) ==
  LET b == o.obs
      order == IF o.order > 0 THEN o.order ELSE r.order
      valid == <<IF o.start = <<>> THEN r.valid[1] ELSE o.start[1],
                 IF o.end = <<>> THEN r.valid[2] ELSE o.end[1]>>
      probes == SelectSeq(b.probes, LAMBDA p : Relevant(r, p.at))
      good == \A i \in DOMAIN probes : ToSet(probes[i].v) = Double(r, probes[i].at, order)
      means == Len(r.times) > 1 /\ \E i \in DOMAIN probes : probes[i].at[1] # probes[i].at[2] IN
  <<(IF good THEN {} ELSE {"values"}) \cup (IF DegreeOk(r, b) THEN {} ELSE {"degree"})
    \cup (IF b.valid = valid THEN {} ELSE {"validity"}) \cup (IF b.agree = 1 THEN {} ELSE {"model"}),
    {"values", "degree", "validity", "model"} \cup (IF means THEN {IF order = 1 THEN "step" ELSE "mean"} ELSE {})>>

JudgeLoad(o) ==
  LET r == TLCEval(Read(o.format, o.file, o.u)) IN
  CASE r.st = "bad" -> <<IF o.obs.ok = 0 THEN {} ELSE {"refused"}, {"refused"}>>
    [] r.st = "any" -> <<{}, {}>>
    [] r.st = "free" /\ o.obs.ok = 0 -> <<{}, {"free"}>>
    [] o.obs.ok = 0 -> <<{"accepted"}, {"accepted"}>>
    [] OTHER -> LET v == JudgeLoaded(r, o) IN <<v[1], v[2] \cup {"accepted"} \cup Own(o.format)>>

JudgeInfo(o) ==
  LET s == TLCEval(Stripped(o.file))
      good == Len(s) >= 2 /\ ShcHeader(s[1]) /\ ShcTimes(s[2], s[1]) IN
  IF ~good THEN <<IF o.obs.ok = 0 THEN {} ELSE {"header"}, {"header"}>>
  ELSE LET times == Vals(s[2], o.u) IN
       <<IF /\ o.obs.ok = 1 /\ o.obs.head = [i \in 1..5 |-> s[1][i][2]]
            /\ o.obs.times = times /\ o.obs.valid = ShcValid(s[1], times, o.u) THEN {} ELSE {"header"}, {"header"}>>

\* cosine and sine of the quarter turns
Cos4(k) == LET q == k % 4 IN IF q = 0 THEN 1 ELSE IF q = 2 THEN -1 ELSE 0
Sin4(k) == LET q == k % 4 IN IF q = 1 THEN 1 ELSE IF q = 3 THEN -1 ELSE 0
RECURSIVE Fourier(_, _, _, _)
Fourier(r, row, q, i) ==
  IF 2*i > Len(row) THEN 0
  ELSE LET width == r.pmax - r.pmin + 1
           s == r.smin + ((i - 1) \div width)
           p == r.pmin + ((i - 1) % width)
           k == s*q[1] + p*q[2] IN
       row[2*i - 1]*Cos4(k) + row[2*i]*Sin4(k) + Fourier(r, row, q, i + 1)
JudgeMio(o) ==
  LET r == TLCEval(Read("mio", o.file, o.u))
      b == o.obs IN
  CASE r.st = "bad" -> <<IF b.ok = 0 THEN {} ELSE {"refused"}, {"refused"}>>
    [] r.st = "any" -> <<{}, {}>>
    [] b.ok = 0 -> <<{"accepted"}, {"accepted"}>>
    [] OTHER ->
      LET rows == IF o.part = "gh" THEN r.gh ELSE r.qs
          Value(q) == LET V(i) == Fourier(r, rows[i], q, 1) IN Triples(r.nm, V)
          turn == 180*o.u - ((180*o.u - r.aux[2]) % (360*o.u))
          d == Degrees(r.nm) IN
      <<(IF \A i \in DOMAIN b.probes : ToSet(b.probes[i].v) = Value(b.probes[i].q) THEN {} ELSE {"mio"})
        \cup (IF b.aux = <<90*o.u - r.aux[1], turn, r.aux[3], r.aux[4]>> THEN {} ELSE {"aux"})
        \cup (IF b.degree = SeqMax(d) /\ b.low = SeqMin(d) THEN {} ELSE {"degree"}),
        {"mio", "aux", "degree", "accepted"}>>

\* values of files constant in time
Values(r) == LET V(i) == 2*r.rows[i][1] IN Triples(r.nm, V)
RECURSIVE Sum(_, _, _)
Sum(rs, nm, k) ==
  IF k = 0 THEN 0
  ELSE Sum(rs, nm, k - 1) +
       (IF \E i \in DOMAIN rs[k].nm : rs[k].nm[i] = nm
        THEN 2*rs[k].rows[CHOOSE i \in DOMAIN rs[k].nm : rs[k].nm[i] = nm][1] ELSE 0)
Total(rs) == LET all == UNION {ToSet(rs[i].nm) : i \in DOMAIN rs} IN
             {<<x[1], x[2], Sum(rs, x, Len(rs))>> : x \in {y \in all : Sum(rs, y, Len(rs)) # 0}}
Covers(r, t) == r.valid[1] <= t /\ t <= r.valid[2]
\* no gaps between the ranges
Reach(rs) == \* every range but the first starts inside of or at the end of an earlier one
  \A i \in DOMAIN rs :
    \/ \A j \in DOMAIN rs : rs[i].valid[1] <= rs[j].valid[1]
    \/ \E j \in DOMAIN rs : rs[j].valid[1] < rs[i].valid[1] /\ rs[i].valid[1] <= rs[j].valid[2]
JudgeSeveral(o) ==
  LET rs == TLCEval([i \in DOMAIN o.files |-> Read("shc", o.files[i], o.u)])
      b == o.obs
      n == Len(rs)
      starts == [i \in DOMAIN rs |-> rs[i].valid[1]]
      ends == [i \in DOMAIN rs |-> rs[i].valid[2]]
      degree == SeqMax(Flat([i \in DOMAIN rs |-> Degrees(rs[i].nm)]))
      low == SeqMin(Flat([i \in DOMAIN rs |-> Degrees(rs[i].nm)])) IN
  IF \E i \in DOMAIN rs : rs[i].st = "bad"
  THEN <<IF b.ok = 0 THEN {} ELSE {"refused"}, {"refused"}>>
  ELSE IF \E i \in DOMAIN rs : rs[i].st # "ok" THEN <<{}, {}>>
  ELSE IF o.mode = 0 /\ ~Reach(rs) THEN <<IF b.ok = 0 THEN {} ELSE {"gap"}, {"gap"}>>
  ELSE IF b.ok = 0 THEN <<{"accepted"}, {"accepted"}>>
  ELSE LET name == IF o.mode = 0 THEN "composed" ELSE "combined"
           good ==
             \A i \in DOMAIN b.probes :
               LET t == b.probes[i].at[1] IN
               IF o.mode = 1 THEN ToSet(b.probes[i].v) = Total(rs)
               ELSE LET fit == {j \in DOMAIN rs : Covers(rs[j], t)} IN
                    fit # {} => ToSet(b.probes[i].v) = Values(rs[CHOOSE j \in fit : \A k \in fit : j <= k])
           valid == IF o.mode = 0 THEN <<SeqMin(starts), SeqMax(ends)>> ELSE <<SeqMax(starts), SeqMin(ends)>> IN
       <<(IF good THEN {} ELSE {name}) \cup (IF b.valid = valid THEN {} ELSE {"validity"})
         \cup (IF b.agree = 1 THEN {} ELSE {"model"})
         \cup (IF b.degree = degree /\ b.low = low THEN {} ELSE {"degree"}),
         {name, "validity", "model", "degree"}>>

Judge(o) == CASE o.ev = "load" -> JudgeLoad(o)
              [] o.ev = "info" -> JudgeInfo(o)
              [] o.ev = "mio" -> JudgeMio(o)
              [] o.ev = "several" -> JudgeSeveral(o)
INSTANCE TraceMachine
=============================================================================
