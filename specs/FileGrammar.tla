---------------------------- MODULE FileGrammar ----------------------------
(***************************************************************************)
(* Grammars and meaning of the model files.  A file is a sequence of       *)
(* lines, a line is a sequence of tokens <<kind, value>>:                  *)
(*   "i" integer literal, "r" decimal literal in units 1/u, "w" word,      *)
(*   "#" start of a comment, "n" nines (number of digits), "-" dashes,     *)
(*   "g", "h" labels, "e" the label of the epoch, "next" end of a file     *)
(* The meaning of a file is [st, nm, rows, times, order, valid]: st "ok"   *)
(* accepted, "bad" refused, "free" either refused or loaded as described,  *)
(* "any" not specified; nm the degrees and orders, rows the values at the  *)
(* times (in units), order of the interpolation, valid the validity range, *)
(* written the degrees of the file if not all terms have to be kept.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INFTY == 2000000000
Num(t) == t[1] \in {"i", "r"}
Val(t, u) == IF t[1] = "i" THEN u*t[2] ELSE t[2]
Vals(s, u) == [i \in DOMAIN s |-> Val(s[i], u)]
AllNum(s) == \A i \in DOMAIN s : Num(s[i])
AllInt(s) == \A i \in DOMAIN s : s[i][1] = "i"
From(s, k) == SubSeq(s, k, Len(s))
Strip(l) ==
  LET marks == {i \in DOMAIN l : l[i][1] = "#"} IN
  IF marks = {} THEN l ELSE SubSeq(l, 1, (CHOOSE i \in marks : \A j \in marks : i <= j) - 1)
Full(lines) == SelectSeq(lines, LAMBDA l : Len(l) > 0)
Stripped(lines) == Full([i \in DOMAIN lines |-> Strip(lines[i])])
Distinct(s) == \A i \in DOMAIN s : \A j \in DOMAIN s : i # j => s[i] # s[j]
Abs(x) == IF x < 0 THEN -x ELSE x
Term(n, m) == n >= 0 /\ Abs(m) <= n
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Refused == [st |-> "bad"]
SeqMin(s) == LET S == {s[i] : i \in DOMAIN s} IN CHOOSE x \in S : \A y \in S : x <= y
SeqMax(s) == LET S == {s[i] : i \in DOMAIN s} IN CHOOSE x \in S : \A y \in S : x >= y
Meaning(st, nm, rows, times, order, valid) ==
  [st |-> IF st # "bad" /\ ~(Distinct(nm) /\ Distinct(times)) THEN "any" ELSE st,
   nm |-> nm, rows |-> rows, times |-> times, order |-> order, valid |-> valid]

----------------------------------------------------------------------------
(* SHC: header nmin nmax ntime order nstep [start end], times, rows n m v.. *)
ShcHeader(l) == Len(l) >= 5 /\ Len(l) # 6 /\ AllInt(SubSeq(l, 1, 5))
                /\ (Len(l) > 6 => AllNum(SubSeq(l, 6, 7)))
ShcTimes(l, h) == AllNum(l) /\ Len(l) = h[3][2]
ShcRow(l, h) == Len(l) = 2 + h[3][2] /\ AllNum(l) /\ AllInt(SubSeq(l, 1, 2)) /\ Term(l[1][2], l[2][2])
ShcOrder(h) == h[3][2] = 1 \/ h[4][2] >= 1
ShcValid(h, times, u) ==
  IF Len(h) > 6 THEN <<Val(h[6], u), Val(h[7], u)>>
  ELSE IF Len(times) = 1 THEN <<-INFTY, INFTY>> ELSE <<SeqMin(times), SeqMax(times)>>
Shc(file, u) ==
  LET s == TLCEval(Stripped(file)) IN
  IF ~(Len(s) >= 3 /\ ShcHeader(s[1])) THEN Refused
  ELSE LET h == s[1] IN
       IF ~(ShcOrder(h) /\ ShcTimes(s[2], h) /\ \A i \in 3..Len(s) : ShcRow(s[i], h)) THEN Refused
       ELSE LET times == Vals(s[2], u)
                body == From(s, 3)
                nm == TLCEval([i \in DOMAIN body |-> <<body[i][1][2], body[i][2][2]>>])
                rows == TLCEval([i \in DOMAIN body |-> Vals(From(body[i], 3), u)]) IN
            Meaning("ok", nm, rows, times, IF h[4][2] > 1 THEN 2 ELSE 1, ShcValid(h, times, u))

----------------------------------------------------------------------------
(* WMM: epoch name version, rows n m g h dg dh, lines of nines *)
WmmEnd(l) == Len(l) = 1 /\ l[1][1] = "n"
WmmBody(lines) ==
  LET ends == {i \in DOMAIN lines : WmmEnd(lines[i])} IN
  IF ends = {} THEN lines
  ELSE SubSeq(lines, 1, (CHOOSE i \in ends : \A j \in ends : i <= j) - 1)
WmmHeader(l) == Len(l) >= 3 /\ Num(l[1])
WmmRow(l) == Len(l) >= 6 /\ AllNum(SubSeq(l, 1, 6)) /\ AllInt(SubSeq(l, 1, 2))
             /\ Term(l[1][2], l[2][2])
WmmTerms(l, u) ==
  LET n == l[1][2]
      m == l[2][2]
      v == Vals(SubSeq(l, 3, 6), u)
      g == <<<<n, m>>, <<v[1], v[1] + 5*v[3]>>>>
      h == <<<<n, -m>>, <<v[2], v[2] + 5*v[4]>>>> IN
  (IF v[1] # 0 \/ v[3] # 0 THEN <<g>> ELSE <<>>) \o (IF m > 0 /\ (v[2] # 0 \/ v[4] # 0) THEN <<h>> ELSE <<>>)
Wmm(file, u) ==
  IF Len(file) = 0 \/ ~WmmHeader(file[1]) THEN Refused
  ELSE LET lines == WmmBody(Tail(file))
           body == Full(lines)
           epoch == Val(file[1][1], u) IN
       IF \E i \in DOMAIN body : ~WmmRow(body[i]) THEN Refused
       ELSE LET terms == TLCEval(Flat([i \in DOMAIN body |-> WmmTerms(body[i], u)]))
                st == IF \E i \in DOMAIN body : body[i][2][2] < 0 THEN "any"
                      ELSE IF terms = <<>> \/ Len(body) < Len(lines) \/ \E i \in DOMAIN body : Len(body[i]) > 6 THEN "free"
                      ELSE "ok" IN
            \* terms which are zero may be left out of the model, and a model of none may be refused
            IF body = <<>> THEN Refused
            ELSE Meaning(st, [i \in DOMAIN terms |-> terms[i][1]], [i \in DOMAIN terms |-> terms[i][2]],
                         <<epoch, epoch + 5*u>>, 2, <<epoch, epoch + 5*u>>)
                 @@ [written |-> [i \in DOMAIN body |-> body[i][1][2]]]

----------------------------------------------------------------------------
(* IGRF: labels, g/h n m times.. last, rows label n m values.. change *)
IgrfTimes(l) == Len(l) >= 5 /\ AllNum(SubSeq(l, 4, Len(l) - 1))
IgrfRow(l, count) == /\ Len(l) = 4 + count /\ l[1][1] \in {"g", "h"} /\ AllNum(Tail(l))
                     /\ AllInt(SubSeq(l, 2, 3)) /\ Term(l[2][2], l[3][2])
Igrf(file, u) ==
  LET s == TLCEval(Stripped(file)) IN
  IF ~(Len(s) >= 3 /\ IgrfTimes(s[2])) THEN Refused
  ELSE LET given == Vals(SubSeq(s[2], 4, Len(s[2]) - 1), u)
           count == Len(given)
           last == given[count]
           body == From(s, 3) IN
       IF \E i \in DOMAIN body : ~IgrfRow(body[i], count) THEN Refused
       ELSE LET times == Append(given, last + 5*u)
                nm == TLCEval([i \in DOMAIN body |->
                        <<body[i][2][2], IF body[i][1][1] = "g" THEN body[i][3][2] ELSE -body[i][3][2]>>])
                rows == TLCEval([i \in DOMAIN body |->
                          LET v == Vals(From(body[i], 4), u) IN
                          [v EXCEPT ![count + 1] = v[count] + 5*v[count + 1]]])
                \* the labels give the signs of the orders
                st == IF \E i \in DOMAIN body : body[i][3][2] < 0 \/ (body[i][1][1] = "h" /\ body[i][3][2] = 0)
                         \/ last # SeqMax(given)
                      THEN "any" ELSE "ok" IN
            Meaning(st, nm, rows, times, 2, <<SeqMin(times), SeqMax(times)>>)

----------------------------------------------------------------------------
(* EMM: header up to the dashes with the epoch, rows n m g h; two files *)
EmmRow(l) == Len(l) >= 4 /\ AllNum(SubSeq(l, 1, 4)) /\ AllInt(SubSeq(l, 1, 2)) /\ Term(l[1][2], l[2][2])
EmmFile(file, u) ==
  LET dashes == {i \in DOMAIN file : Len(file[i]) = 1 /\ file[i][1][1] = "-"}
      start == IF dashes = {} THEN Len(file) ELSE CHOOSE i \in dashes : \A j \in dashes : i <= j
      epochs == {i \in 1..start : Len(file[i]) = 2 /\ file[i][1][1] = "e"}
      lines == From(file, start + 1)
      body == Full(lines) IN
  IF dashes = {} \/ epochs = {} \/ body = <<>> \/ (\E i \in epochs : ~Num(file[i][2]))
     \/ (\E i \in DOMAIN body : ~EmmRow(body[i])) THEN Refused
  ELSE LET last == CHOOSE i \in epochs : \A j \in epochs : i >= j
           terms == Flat([i \in DOMAIN body |->
             LET n == body[i][1][2]
                 m == body[i][2][2]
                 v == Vals(SubSeq(body[i], 3, 4), u) IN
             <<<<<<n, m>>, v[1]>>>> \o (IF m > 0 THEN <<<<<<n, -m>>, v[2]>>>> ELSE <<>>)]) IN
       [st |-> IF Cardinality(epochs) > 1 \/ \E i \in DOMAIN body : body[i][2][2] < 0 THEN "any"
               ELSE IF Len(body) < Len(lines) \/ \E i \in DOMAIN body : Len(body[i]) > 4 THEN "free"
               ELSE "ok",
        epoch |-> Val(file[last][2], u), terms |-> terms]
\* all lines of the both files with a line <<<<"next", 0>>>> between them
Emm(file, u) ==
  LET marks == {i \in DOMAIN file : file[i] = <<<<"next", 0>>>>} IN
  IF marks = {} THEN Refused
  ELSE LET k == CHOOSE i \in marks : \A j \in marks : i <= j
           static == TLCEval(EmmFile(SubSeq(file, 1, k - 1), u))
           change == TLCEval(EmmFile(From(file, k + 1), u)) IN
       IF static.st = "bad" \/ change.st = "bad" THEN Refused
       ELSE LET size == Len(change.terms)
                total == Len(static.terms) IN
            IF static.epoch # change.epoch \/ size > total THEN Refused
            ELSE IF \E i \in 1..size : static.terms[i][1] # change.terms[i][1] THEN Refused
            ELSE LET kept == SelectSeq([i \in 1..total |-> i],
                                       LAMBDA i : i <= size \/ static.terms[i][2] # 0)
                     sts == {static.st, change.st}
                     st == IF "any" \in sts THEN "any" ELSE IF "free" \in sts THEN "free"
                           ELSE IF Len(kept) = size THEN "free" ELSE "ok" IN
                 Meaning(st, [i \in DOMAIN kept |-> static.terms[kept[i]][1]],
                         [i \in DOMAIN kept |->
                           LET v == static.terms[kept[i]][2] IN
                           IF kept[i] > size THEN <<v, v>> ELSE <<v, v + 5*change.terms[kept[i]][2]>>],
                         <<static.epoch, static.epoch + 5*u>>, 2, <<static.epoch, static.epoch + 5*u>>)
                 @@ [written |-> [i \in 1..total |-> static.terms[i][1][1]]]

----------------------------------------------------------------------------
(* MIO: nmax mmax pmin pmax smin smax colatitude longitude height ratio,    *)
(* rows n m values.. of the external and then of the internal field         *)
MioHeader(l) == Len(l) >= 10 /\ AllInt(SubSeq(l, 1, 6)) /\ AllNum(SubSeq(l, 7, 10))
                /\ l[3][2] <= l[4][2] /\ l[5][2] <= l[6][2]
MioSize(h) == (h[4][2] - h[3][2] + 1)*(h[6][2] - h[5][2] + 1)*2
MioRow(l, h) == Len(l) = 2 + MioSize(h) /\ AllNum(l) /\ AllInt(SubSeq(l, 1, 2)) /\ Term(l[1][2], l[2][2])
Mio(file, u) ==
  LET s == TLCEval(Stripped(file)) IN
  IF ~(Len(s) >= 3 /\ MioHeader(s[1])) THEN Refused
  ELSE LET h == s[1]
           body == From(s, 2)
           half == Len(body) \div 2 IN
       IF (\E i \in DOMAIN body : ~MioRow(body[i], h)) \/ (Len(body) % 2) = 1 THEN Refused
       ELSE LET nm == TLCEval([i \in DOMAIN body |-> <<body[i][1][2], body[i][2][2]>>]) IN
            IF \E i \in 1..half : nm[i] # nm[i + half] THEN Refused
            ELSE [st |-> IF Distinct(SubSeq(nm, 1, half)) THEN "ok" ELSE "any",
                  nm |-> SubSeq(nm, 1, half),
                  qs |-> [i \in 1..half |-> Vals(From(body[i], 3), u)],
                  gh |-> [i \in 1..half |-> Vals(From(body[i + half], 3), u)],
                  pmin |-> h[3][2], pmax |-> h[4][2], smin |-> h[5][2], smax |-> h[6][2],
                  aux |-> Vals(SubSeq(h, 7, 10), u)]

Read(format, file, u) ==
  CASE format = "shc" -> Shc(file, u)
    [] format = "wmm" -> Wmm(file, u)
    [] format = "igrf" -> Igrf(file, u)
    [] format = "emm" -> Emm(file, u)
    [] format = "mio" -> Mio(file, u)
=============================================================================
