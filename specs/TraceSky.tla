------------------------------ MODULE TraceSky ------------------------------
(***************************************************************************)
(* Validation of recorded walks under the Sun.                             *)
(* ev "see": what is seen from a place, clock: correction (quarters of days)*)
(*   time (quarters of hours from midnight), lon (degrees), lat <<p, q, c>>*)
(*   (sin = p/c, cos = q/c), rad, obs: angles [dec, ra, ha, az, zen] in    *)
(*   10^-6 degrees, eq and hor: directions in the equatorial (to the       *)
(*   meridian, west, pole) and horizontal (north, east, up) frame (10^-7), *)
(*   tilt: of the ecliptic by the angles and expected (the same close to   *)
(*   equinoxes), alm: independent almanac,                                 *)
(*   undefined: some value is not a number                                 *)
(* ev "step": p the same before the action act n, obs after                *)
(* ev "overhead": from the points below and opposite to the Sun            *)
(* ev "gaze": eq and hor (10^-8) seen from the latitude lat (sine, cosine) *)
(*   next to special places, ha: sine and cosine of the hour angle, lon:   *)
(*   the longitude from the meridian below the Sun                         *)
(* ev "clock": differences of the position at a corrected time and the     *)
(*   position with the same correction in 10^-9 degrees (the hour angle    *)
(*   less the rotation of the Earth)                                       *)
(* ev "refraction": obs: refraction for pressures and temperatures, height *)
(***************************************************************************)
EXTENDS Tracer, Fixed

VARIABLES l, bad, known, counts
Clauses == {"range", "horizon", "noon", "ecliptic", "almanac", "again", "wait", "correct", "shift", "travel", "turn",
            "move", "radius", "other", "overhead", "refraction", "clock", "gaze"}
Turn == 360000000
Wrap(x) == LET w == x % Turn IN IF 2 * w > Turn THEN w - Turn ELSE w
Near(a, b, tol) == Abs(Wrap(a - b)) <= tol
Failed(name, ok) == IF ok THEN {} ELSE {name}

\* rotation by the latitude
Horizon(e, t) == <<t[2] * e[3] - t[1] * e[1], -t[3] * e[2], t[1] * e[3] + t[2] * e[1]>>

JudgeSee(o) ==
  LET s == o.obs
      ranges == /\ Abs(s.dec) <= 23460000 /\ s.ra >= 0 /\ s.ra <= Turn /\ Abs(s.ha) <= Turn \div 2
                /\ Abs(s.az) <= Turn \div 2 /\ s.zen >= 0 /\ s.zen <= Turn \div 2 + 23500
      h == Horizon(s.eq, o.lat)
      horizon == \A i \in 1..3 : Abs(h[i] - o.lat[3] * s.hor[i]) <= 4 * o.lat[3]
      \* 15 minutes are 3.75 degrees, the equation of time is up to 4.3 degrees
      noon == Near(s.ha, 3750000 * (o.time % 96) + 1000000 * (o.lon % 360) - Turn \div 2, 4300000 + 300000 * Abs(o.clock))
      ecliptic == Abs(s.tilt[1] - s.tilt[2]) <= 500
      almanac == Abs(s.dec - s.alm[1]) <= 20000 /\ Near(s.ra, s.alm[2], 30000) IN
  IF s.undefined = 1 THEN <<{"range"}, {"range"}>>
  ELSE <<Failed("range", ranges) \cup Failed("horizon", o.rad # 0 \/ horizon) \cup Failed("noon", noon)
         \cup Failed("ecliptic", ecliptic) \cup Failed("almanac", almanac),
         {"range", "noon", "ecliptic", "almanac"} \cup (IF o.rad = 0 THEN {"horizon"} ELSE {})>>

JudgeStep(o) ==
  LET p == o.p
      s == o.obs
      n == o.n
      a == o.act
      Equatorial(tol) == Abs(s.dec - p.dec) <= tol /\ Near(s.ra, p.ra, tol)
      Hour(tol) == Near(s.ha, p.ha, tol)
      Zenith(tol) == Abs(s.zen - p.zen) <= tol
      Direction(tol) == \A i \in 1..3 : Abs(s.hor[i] - p.hor[i]) <= tol
      Moves == /\ Abs(s.dec - p.dec) <= 102000 * Abs(n)
               /\ Near(s.ra, p.ra + 250000 * n, 30000 * Abs(n))
      ok == CASE a = "again" -> p = s
              [] a = "wait" -> Moves /\ Near(s.ha - p.ha, 90000000 * (n % 4), IF Abs(n) > 100 THEN 8000000 ELSE 40000 * Abs(n))
              [] a = "correct" -> Moves /\ Near(s.ha - p.ha, p.ra - s.ra, 30)
              [] a = "shift" -> Equatorial(20) /\ Near(s.ha - p.ha, 90000000 * n + 246412 * n, 22)
              [] a = "travel" -> Equatorial(1) /\ Near(s.ha - p.ha, 45000000 * n, 2)
              [] a = "turn" -> Equatorial(1) /\ Hour(2) /\ Zenith(4) /\ Direction(8)
              [] a = "move" -> Equatorial(0) /\ Hour(0)
              \* the parallax is the ratio of the radius and the distance of the Sun (180/pi 10^6 / 149597870.7)
              [] a = "radius" -> /\ Equatorial(0) /\ Hour(0) /\ s.az = p.az
                                 /\ Abs(s.zen - p.zen - ((((s.rad - p.rad) * 383) \div 1000) * (IF s.rad = 0 THEN s.sinz ELSE p.sinz)) \div 10000) <= 8
              [] a = "other" -> Equatorial(100) /\ Hour(100) /\ Zenith(110) /\ Direction(60)
              [] OTHER -> FALSE IN
  IF s.undefined + p.undefined > 0 THEN <<{"range"}, {"range"}>> ELSE <<Failed(a, ok), {a}>>

JudgeOverhead(o) ==
  LET s == o.obs IN
  <<Failed("overhead", /\ s.undefined = 0 /\ \A i \in DOMAIN s.up : s.up[i] <= 4
                       /\ \A i \in DOMAIN s.down : Abs(s.down[i] - Turn \div 2) <= 4
                       /\ \A i \in DOMAIN s.ha : Abs(s.ha[i]) <= 2), {"overhead"}>>

\* heights in 10^-6 degrees, refraction in 10^-6 degrees
JudgeRefraction(o) ==
  LET s == o.obs
      above == s.height > 0
      ok == /\ s.undefined = 0
            /\ s.none = 0
            /\ IF above THEN /\ s.one > 0
                             /\ Abs(s.two - 2 * s.one) <= 3
                             \* (273 + 10)/(273 - 20) = 283/253
                             /\ Abs(s.cold * 253 - s.one * 283) <= 600
                             \* Saemundsson's formula
                             /\ Abs(s.one - s.expected) <= 3 + s.expected \div 100
               ELSE s.one = 0 /\ s.two = 0 /\ s.cold = 0 IN
  <<Failed("refraction", ok), {"refraction"}>>

\* rotation by the latitude in numbers of 8 decimal places
JudgeGaze(o) ==
  LET s == o.obs
      e == s.eq
      h == <<Mul(o.lat[2], e[3]) - Mul(o.lat[1], e[1]), -e[2], Mul(o.lat[1], e[3]) + Mul(o.lat[2], e[1])>> IN
  <<Failed("gaze", /\ s.undefined = 0
                   /\ \A i \in 1..3 : Abs(h[i] - s.hor[i]) <= 8
                   /\ \A i \in 1..2 : Abs(s.ha[i] - o.lon[i]) <= 4), {"gaze"}>>

JudgeClock(o) ==
  <<Failed("clock", \A i \in DOMAIN o.obs.diff : Abs(o.obs.diff[i]) <= 200), {"clock"}>>

Judge(o) ==
  CASE o.ev = "see" -> JudgeSee(o)
    [] o.ev = "step" -> JudgeStep(o)
    [] o.ev = "overhead" -> JudgeOverhead(o)
    [] o.ev = "gaze" -> JudgeGaze(o)
    [] o.ev = "clock" -> JudgeClock(o)
    [] OTHER -> JudgeRefraction(o)

INSTANCE TraceMachine
=============================================================================
