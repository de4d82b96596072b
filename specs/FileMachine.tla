---------------------------- MODULE FileMachine ----------------------------
(***************************************************************************)
(* Design model of the line-by-line parsers: each line of the file moves   *)
(* the parser to the next phase, is stored, skipped, or refused; the file  *)
(* is decided at its end.  All files of the bounded alphabet of lines are  *)
(* explored, up to the line refused by the machine.                        *)
(* Checked: the machine accepts exactly the files of the grammar and reads *)
(* exactly the terms and values described by it.  All files are exported   *)
(* and replayed in the real parsers.                                       *)
(***************************************************************************)
EXTENDS FileGrammar, Json, CSV, IOUtils
CONSTANTS Format, MaxLines
U == 8
I(x) == <<"i", x>>
R(x) == <<"r", x>>
W == <<"w", 0>>
C == <<"#", 0>>
Blank == <<>>
Comment == <<C, I(1)>>

Alphabet ==
  CASE Format = "shc" ->
    {Blank, Comment, <<I(1), I(2), I(1), I(1), I(1)>>, <<I(1), I(2), I(2), I(6), I(5), C, I(1)>>,
     <<I(1), I(2), I(2), I(1), I(1), I(1999), I(2006)>>, <<I(1), I(2), I(2), I(2), I(1), I(1999)>>,
     <<R(16012)>>, <<I(2000), I(2002)>>, <<I(2003), I(2002)>>,
     <<I(1), I(0), R(5)>>, <<I(1), I(0), R(5), R(7)>>, <<I(2), I(-1), I(3), I(4)>>,
     <<I(1), I(2), R(3), R(4)>>, <<I(1), I(1), R(3), W>>}
    [] Format = "wmm" ->
    {Blank, <<I(2000), W, W>>, <<I(2000), W>>, <<I(1), I(0), R(5), I(0), R(3), I(0)>>,
     <<I(1), I(1), R(5), I(4), R(3), I(2)>>, <<I(2), I(1), I(0), I(4), I(0), I(0)>>,
     <<I(1), I(1), R(5), I(4), R(3)>>, <<I(2), I(2), R(5), I(4), R(3), R(1), R(6)>>,
     <<I(2), I(3), R(5), I(4), R(3), I(4)>>, <<I(2), W, R(5), I(4), R(3), I(4)>>, <<<<"n", 12>>>>}
    [] Format = "igrf" ->
    {Blank, Comment, <<W, W, W, W>>, <<W, W, W, I(2000), I(2005), W>>, <<W, W, W, I(2000), W>>,
     <<W, W, W, W, I(2005), W>>,
     <<<<"g", 0>>, I(1), I(0), I(7), R(4), R(3)>>, <<<<"h", 0>>, I(1), I(1), I(8), R(1), I(2)>>,
     <<<<"g", 0>>, I(1), I(0), I(7), R(4)>>, <<W, I(1), I(1), I(8), R(1), I(2)>>,
     <<<<"g", 0>>, I(1), I(2), I(7), R(4), R(3)>>}
    [] Format = "emm" ->
    {Blank, <<W, I(2)>>, <<<<"e", 0>>, I(2000)>>, <<<<"e", 0>>, I(2005)>>, <<<<"-", 6>>>>, <<<<"next", 0>>>>,
     <<I(1), I(0), I(7), I(0)>>, <<I(1), I(1), I(8), R(9)>>, <<I(2), I(0), I(0), I(0)>>,
     <<I(2), I(1), I(3), I(4)>>, <<I(2), I(1), I(3)>>}
    [] Format = "mio" ->
    {Blank, Comment, <<I(1), I(1), I(0), I(1), I(0), I(0), R(77), I(287), I(110), R(1)>>,
     <<I(1), I(1), I(0), I(0), I(-1), I(0), R(77), I(287), I(110), R(1), C>>,
     <<I(1), I(1), I(1), I(0), I(-1), I(0), R(77), I(287), I(110), R(1), C>>,
     <<I(1), I(1), I(0), I(1), I(0), I(0), R(77), I(287), I(110)>>,
     <<I(1), I(0), I(1), I(2), I(3), R(4)>>, <<I(1), I(-1), I(5), I(6), I(7), R(8)>>,
     <<I(1), I(0), I(1), I(2), I(3)>>, <<I(1), I(2), I(1), I(2), I(3), R(4)>>}

VARIABLES file, phase, head, times, body, epoch, first, state
vars == <<file, phase, head, times, body, epoch, first, state>>
Init == /\ file = <<>> /\ phase = IF Format = "emm" THEN "epoch" ELSE "head"
        /\ head = <<>> /\ times = <<>> /\ body = <<>> /\ epoch = <<>> /\ first = <<>> /\ state = "reading"

Strips == Format \in {"shc", "igrf", "mio"}
\* the parser at one line: next phase or "refuse"
Store(l) == body' = Append(body, l) /\ UNCHANGED <<phase, head, times, epoch, first>>
Skip == UNCHANGED <<phase, head, times, body, epoch, first>>
Refuse == /\ state' = "bad" /\ Skip
To(p) == phase' = p
Good == state' = "reading"
Line(l) ==
  CASE Strips /\ l = <<>> -> Good /\ Skip
    [] Format = "shc" /\ phase = "head" ->
       IF ShcHeader(l) /\ ShcOrder(l) THEN Good /\ To("times") /\ head' = l /\ UNCHANGED <<times, body, epoch, first>>
       ELSE Refuse
    [] Format = "shc" /\ phase = "times" ->
       IF ShcTimes(l, head) THEN Good /\ To("body") /\ times' = l /\ UNCHANGED <<head, body, epoch, first>> ELSE Refuse
    [] Format = "shc" -> IF ShcRow(l, head) THEN Good /\ Store(l) ELSE Refuse
    [] Format = "wmm" /\ phase = "head" ->
       IF WmmHeader(l) THEN Good /\ To("body") /\ head' = l /\ UNCHANGED <<times, body, epoch, first>> ELSE Refuse
    [] Format = "wmm" /\ phase = "end" -> Good /\ Skip
    [] Format = "wmm" -> IF WmmEnd(l) THEN Good /\ To("end") /\ UNCHANGED <<head, times, body, epoch, first>>
                         ELSE IF l = <<>> THEN Good /\ Skip
                         ELSE IF WmmRow(l) THEN Good /\ Store(l) ELSE Refuse
    [] Format = "igrf" /\ phase = "head" -> Good /\ To("times") /\ head' = l /\ UNCHANGED <<times, body, epoch, first>>
    [] Format = "igrf" /\ phase = "times" ->
       IF IgrfTimes(l) THEN Good /\ To("body") /\ times' = l /\ UNCHANGED <<head, body, epoch, first>> ELSE Refuse
    [] Format = "igrf" -> IF IgrfRow(l, Len(times) - 4) THEN Good /\ Store(l) ELSE Refuse
    [] Format = "mio" /\ phase = "head" ->
       IF MioHeader(l) THEN Good /\ To("body") /\ head' = l /\ UNCHANGED <<times, body, epoch, first>> ELSE Refuse
    [] Format = "mio" -> IF MioRow(l, head) THEN Good /\ Store(l) ELSE Refuse
    [] l = <<<<"next", 0>>>> ->
       IF first # <<>> \/ phase # "body" \/ epoch = <<>> \/ body = <<>> THEN Refuse
       ELSE /\ Good /\ first' = <<epoch, body>> /\ body' = <<>> /\ epoch' = <<>> /\ To("epoch")
            /\ UNCHANGED <<head, times>>
    [] phase = "epoch" ->
       IF l = <<<<"-", 6>>>> THEN Good /\ To("body") /\ UNCHANGED <<head, times, body, epoch, first>>
       ELSE IF Len(l) = 2 /\ l[1][1] = "e" THEN Good /\ epoch' = <<l[2]>> /\ UNCHANGED <<phase, head, times, body, first>>
       ELSE Good /\ Skip
    [] OTHER -> IF l = <<>> THEN Good /\ Skip
                ELSE IF EmmRow(l) THEN Good /\ Store(l) ELSE Refuse

Loose(l) == IF Strips THEN Strip(l) = <<>> ELSE l = <<>>
Loosened == Cardinality({i \in DOMAIN file : Loose(file[i])})
\* lines with nothing to decide are not repeated
Useful(l) ==
  CASE Format = "emm" /\ phase = "epoch" -> l \in {<<<<"e", 0>>, I(2000)>>, <<<<"e", 0>>, I(2005)>>, <<<<"-", 6>>>>,
                                                 <<<<"next", 0>>>>} \/ (file = <<>> /\ l = <<W, I(2)>>)
    [] Format = "igrf" /\ phase = "head" -> Loose(l) \/ l = <<W, W, W, W>> \/ l[1][1] = "g"
    [] Format = "wmm" /\ phase = "end" -> WmmEnd(file[Len(file)])
    [] OTHER -> TRUE
Export(f) == CSVWrite("%1$s", <<ToJson(f)>>, IOEnv.OUT)
Read1 == /\ state = "reading" /\ Len(file) < MaxLines
         /\ \E l \in Alphabet :
              /\ Loose(l) => Loosened = 0
              /\ Useful(l) = TRUE
              /\ file' = Append(file, l)
              /\ Line(IF Strips THEN Strip(l) ELSE l)
              /\ state' = "bad" => Export(file')
\* the decision at the end of the file
Halves == LET half == Len(body) \div 2 IN
          (Len(body) % 2) = 0 /\ \A i \in 1..half : SubSeq(body[i], 1, 2) = SubSeq(body[half + i], 1, 2)
Known(rows) == \* degrees and orders in the order of the coefficients
  Flat([i \in DOMAIN rows |-> <<<<rows[i][1][2], rows[i][2][2]>>>> \o
        (IF rows[i][2][2] > 0 THEN <<<<rows[i][1][2], -rows[i][2][2]>>>> ELSE <<>>)])
Joins == /\ first # <<>> /\ epoch # <<>>
         /\ Val(first[1][1], U) = Val(epoch[1], U)
         /\ LET a == Known(first[2])
                b == Known(body) IN
            Len(b) <= Len(a) /\ \A i \in DOMAIN b : a[i] = b[i]
Nonzero == \E i \in DOMAIN body : WmmTerms(body[i], U) # <<>>
End == /\ state = "reading"
       /\ state' = IF /\ phase \in {"body", "end"} /\ body # <<>>
                      /\ Format = "mio" => Halves
                      /\ Format = "emm" => Joins
                      /\ Format = "wmm" => Nonzero
                   THEN "ok" ELSE "bad"
       /\ Export(file)
       /\ UNCHANGED <<file, phase, head, times, body, epoch, first>>
Next == Read1 \/ End
Spec == Init /\ [][Next]_vars

Agrees ==
  state \in {"ok", "bad"} =>
    LET read == Read(Format, file, U) IN
    \* a file of zeros may be refused
    /\ (state = "bad") = (read.st = "bad") \/ (Format = "wmm" /\ read.st = "free" /\ read.nm = <<>>)
    /\ (state = "ok" /\ Format \in {"shc", "igrf"}) =>
         /\ Len(read.nm) = Len(body)
         /\ Len(read.times) = Len(times) - (IF Format = "igrf" THEN 3 ELSE 0)
    /\ (state = "ok" /\ Format = "mio") => Len(body) = 2*Len(read.nm)
=============================================================================
