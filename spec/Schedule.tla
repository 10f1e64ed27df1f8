------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* When a session is in session. Instants are <<seconds since 1970 UTC,    *)
(* nanoseconds>>; times of a day are <<seconds, nanoseconds>>; weekdays     *)
(* count from Monday = 0. A schedule is [kind: "always" | "daily" |        *)
(* "weekly", st, en: times of a day, sd, ed: weekdays, zone: name].        *)
(* The civil calendar and the rules of a few time zones (as they are since *)
(* at least 2013) are part of the specification.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Day == 86400
H(n) == n * 3600

\* ------------------------------------------------------------- the calendar
\* days since 1970-01-01 of a date (Gregorian)
DaysOf(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        doy == (153 * (m + (IF m > 2 THEN 0 - 3 ELSE 9)) + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy IN
    era * 146097 + doe - 719468
YearOf(day) == CHOOSE y \in 1969..2038 : DaysOf(y, 1, 1) <= day /\ day < DaysOf(y + 1, 1, 1)
Weekday(day) == (day + 3) % 7

\* the n-th weekday wd of a month, the last one if n = 5
NthDay(y, m, n, wd) ==
    LET d1 == DaysOf(y, m, 1)
        next == IF m = 12 THEN DaysOf(y + 1, 1, 1) ELSE DaysOf(y, m + 1, 1)
        first == d1 + ((wd - Weekday(d1) + 7) % 7) IN
    IF n < 5 THEN first + 7 * (n - 1)
    ELSE CHOOSE d \in first..(next - 1) : d + 7 >= next /\ (d - first) % 7 = 0

\* ---------------------------------------------------------------- time zones
\* a change: in month m on the n-th Sunday at time t, of the wall clock ("w"), of standard
\* time ("s") or UTC ("u")
Change(m, n, t, ref) == [m |-> m, n |-> n, t |-> t, ref |-> ref]
Fixed(off) == [std |-> off, dst |-> off, rule |-> << >>]
Zone(std, dst, on, off) == [std |-> std, dst |-> dst, rule |-> <<on, off>>]
Zones == [
    UTC |-> Fixed(0),
    GMT |-> Fixed(0),
    AsiaTokyo |-> Fixed(H(9)),
    AsiaKolkata |-> Fixed(H(5) + 1800),
    AsiaKathmandu |-> Fixed(H(5) + 2700),
    PacificHonolulu |-> Fixed(0 - H(10)),
    PacificKiritimati |-> Fixed(H(14)),
    AmericaNew_York |-> Zone(0 - H(5), 0 - H(4), Change(3, 2, H(2), "w"), Change(11, 1, H(2), "w")),
    AmericaChicago |-> Zone(0 - H(6), 0 - H(5), Change(3, 2, H(2), "w"), Change(11, 1, H(2), "w")),
    AmericaSt_Johns |-> Zone(0 - H(3) - 1800, 0 - H(2) - 1800, Change(3, 2, H(2), "w"), Change(11, 1, H(2), "w")),
    AmericaHavana |-> Zone(0 - H(5), 0 - H(4), Change(3, 2, 0, "s"), Change(11, 1, 0, "s")),
    EuropeLondon |-> Zone(0, H(1), Change(3, 5, H(1), "u"), Change(10, 5, H(1), "u")),
    EuropeBerlin |-> Zone(H(1), H(2), Change(3, 5, H(1), "u"), Change(10, 5, H(1), "u")),
    AtlanticAzores |-> Zone(0 - H(1), 0, Change(3, 5, H(1), "u"), Change(10, 5, H(1), "u")),
    AsiaBeirut |-> Zone(H(2), H(3), Change(3, 5, 0, "w"), Change(10, 5, 0, "w")),
    AustraliaSydney |-> Zone(H(10), H(11), Change(10, 1, H(2), "s"), Change(4, 1, H(2), "s")),
    AustraliaLord_Howe |-> Zone(H(10) + 1800, H(11), Change(10, 1, H(2), "w"), Change(4, 1, H(2), "w")),
    PacificAuckland |-> Zone(H(12), H(13), Change(9, 5, H(2), "s"), Change(4, 1, H(2), "s"))]

\* the instant (UTC seconds) of a change in year y; before is the offset in force before it
At(z, c, y, before) ==
    NthDay(y, c.m, c.n, 6) * Day + c.t -
      (CASE c.ref = "w" -> before [] c.ref = "s" -> z.std [] c.ref = "u" -> 0)

Offset(name, u) ==
    LET z == Zones[name] IN
    IF z.rule = << >> THEN z.std
    ELSE LET y == YearOf((u + z.std) \div Day)
             on == At(z, z.rule[1], y, z.std)
             off == At(z, z.rule[2], y, z.dst) IN
         IF on < off THEN (IF on <= u /\ u < off THEN z.dst ELSE z.std)
         ELSE (IF off <= u /\ u < on THEN z.std ELSE z.dst)

\* the wall clock: [wd: weekday, t: time of the day]
Wall(name, inst) ==
    LET l == inst[1] + Offset(name, inst[1]) IN
    [wd |-> Weekday(l \div Day), t |-> <<l % Day, inst[2]>>]

\* ---------------------------------------------------------------- the window
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Within(s, e, p) == IF Leq(s, e) THEN Leq(s, p) /\ Leq(p, e) ELSE Leq(s, p) \/ Leq(p, e)
InWeek(wd, t) == <<wd * Day + t[1], t[2]>>

OpenAtWall(sch, w) ==
    CASE sch.kind = "always" -> TRUE
      [] sch.kind = "daily" -> Within(sch.st, sch.en, w.t)
      [] sch.kind = "weekly" -> Within(InWeek(sch.sd, sch.st), InWeek(sch.ed, sch.en), InWeek(w.wd, w.t))
Open(sch, inst) == OpenAtWall(sch, Wall(sch.zone, inst))

\* the settings of a schedule: st, en, sd, ed optional
Refused(o) == (o.st = << >>) # (o.en = << >>) \/ (o.sd = << >>) # (o.ed = << >>)
SchedOf(o) == [kind |-> IF o.st = << >> THEN "always" ELSE IF o.sd = << >> THEN "daily" ELSE "weekly",
               st |-> IF o.st = << >> THEN <<0, 0>> ELSE o.st[1], en |-> IF o.en = << >> THEN <<0, 0>> ELSE o.en[1],
               sd |-> IF o.sd = << >> THEN 0 ELSE o.sd[1], ed |-> IF o.ed = << >> THEN 0 ELSE o.ed[1],
               zone |-> o.zone]
=============================================================================
