---------------------------- MODULE TraceCalendar ----------------------------
(***************************************************************************)
(* Validation of recorded time conversions.  Lines (ev):                   *)
(*  years  y0 and sequences over the years y0, y0 + 1, ..                  *)
(*     start   decimal_year_to_mjd2000(y), exact                           *)
(*     back    mjd2000_to_decimal_year(start), exact                       *)
(*     frac    mjd2000_to_year_fraction(start), exact                      *)
(*     before  whole year of the time 1/1024 day before the start          *)
(*     dt      datetime_to_decimal_year (years 1..9998), exact             *)
(*  days   y and items: <<k, q>> the time k days and q/16 day after the    *)
(*     start of the year; dy, frac, dt: position in the year multiplied by *)
(*     16*365*366; inv: 16 * decimal_year_to_mjd2000(decimal year)         *)
(*     sixt: 16 * decimal_year_to_mjd2000(y + j/16) for j = 0..15          *)
(*  instants  y and items <<month, day, second, 1/64 second>>; dt, dy, frac *)
(*     position within the year in 1/64 second                             *)
(*  order  number of order violations among sorted times and their results *)
(*  edges  [side, inside, year, close, off, spacing] for times just before *)
(*     and after the start of the year y: the fraction is in [0, 1), the   *)
(*     sign of the decimal year less y, off: the error of the fraction in  *)
(*     10^-12 day, spacing: of the numbers there                           *)
(*  layout flags of equality of the array results and the scalar results   *)
(*  simple conversions of quarters of Julian years                         *)
(***************************************************************************)
EXTENDS Calendar, Sequences, Tracer
VARIABLES l, bad, known, counts

Clauses == {"year_start", "year_back", "year_frac", "year_before", "year_datetime",
            "day_decimal_year", "day_fraction", "day_datetime", "day_inverse",
            "sixteenths", "instant_datetime", "instant_mjd", "order", "roundtrip", "layout", "special", "simple", "edge"}

\* the year length used by the conversion; the year 1582 keeps the nominal one
Nominal(y) == IF Leap(y) THEN 366 ELSE 365
Other(y) == 365 + 366 - Nominal(y)

OfYear(o, seq, F(_)) == \A i \in DOMAIN seq : seq[i] = F(o.y0 + i - 1)

Years(o) ==
  LET r == o.obs
      Same(y) == y
      Zero(y) == 0
      Previous(y) == y - 1 IN
  << (IF OfYear(o, r.start, Start) THEN {} ELSE {"year_start"})
     \cup (IF OfYear(o, r.back, Same) THEN {} ELSE {"year_back"})
     \cup (IF OfYear(o, r.frac, Zero) THEN {} ELSE {"year_frac"})
     \cup (IF OfYear(o, r.before, Previous) THEN {} ELSE {"year_before"})
     \cup (IF \A i \in DOMAIN r.dt : r.dt[i] = o.y0 + i - 1
           THEN {} ELSE {"year_datetime"}),
     {"year_start", "year_back", "year_frac", "year_before"}
     \cup (IF Len(r.dt) > 0 THEN {"year_datetime"} ELSE {}) >>

Days_(o) ==
  LET r == o.obs
      pos == [i \in DOMAIN o.items |-> 16 * o.items[i][1] + o.items[i][2]]
      scaled == TLCEval([i \in DOMAIN pos |-> pos[i] * Other(o.y)]) IN
  << (IF r.dy = scaled THEN {} ELSE {"day_decimal_year"})
     \cup (IF r.frac = scaled THEN {} ELSE {"day_fraction"})
     \cup (IF r.dt = scaled \/ r.dt = <<>> THEN {} ELSE {"day_datetime"})
     \cup (IF r.inv = [i \in DOMAIN pos |-> 16 * Start(o.y) + pos[i]]
           THEN {} ELSE {"day_inverse"})
     \cup (IF r.sixt = [j \in 1..16 |-> 16 * Start(o.y) + (j - 1) * Nominal(o.y)]
           THEN {} ELSE {"sixteenths"}),
     {"day_decimal_year", "day_fraction", "day_inverse", "sixteenths"}
     \cup (IF r.dt = <<>> THEN {} ELSE {"day_datetime"}) >>

RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + MonthDays(y, m - 1)

Instants(o) ==
  LET pos == TLCEval([i \in DOMAIN o.items |->
               LET x == o.items[i] IN
               64 * (86400 * (DaysBefore(o.y, x[1]) + x[2] - 1) + x[3]) + x[4]])
  IN << (IF o.obs.dt = pos THEN {} ELSE {"instant_datetime"})
        \cup (IF o.obs.dy = pos /\ o.obs.frac = pos THEN {} ELSE {"instant_mjd"}),
        {"instant_datetime", "instant_mjd"} >>

Judge(o) ==
  CASE o.ev = "years" -> Years(o)
    [] o.ev = "days" -> Days_(o)
    [] o.ev = "instants" -> Instants(o)
    [] o.ev = "order" ->
         << (IF o.obs.order = 0 THEN {} ELSE {"order"})
            \cup (IF o.obs.roundtrip = 0 THEN {} ELSE {"roundtrip"}),
            {"order", "roundtrip"} >>
    [] o.ev = "edges" ->
         << IF \A i \in DOMAIN o.obs.steps :
                 LET s == o.obs.steps[i] IN
                 /\ s.inside = 1 /\ s.close = 1 /\ s.off <= s.spacing
                 /\ s.year = 0 \/ s.year = s.side
            THEN {} ELSE {"edge"}, {"edge"} >>
    [] o.ev = "layout" ->
         << (IF \A i \in DOMAIN o.obs.same : o.obs.same[i] = 1 THEN {} ELSE {"layout"})
            \cup (IF \A i \in DOMAIN o.obs.special : o.obs.special[i] = 1
                  THEN {} ELSE {"special"}),
            {"layout", "special"} >>
    [] o.ev = "simple" ->   \* k quarters of a Julian year after 2000.0
         << IF \A i \in DOMAIN o.items :
                 /\ o.obs.dy[i] = 8000 + o.items[i]
                 /\ o.obs.frac[i] = o.items[i] % 4
                 /\ o.obs.mjd[i] = 1461 * o.items[i]
            THEN {} ELSE {"simple"}, {"simple"} >>

INSTANCE TraceMachine
=============================================================================
