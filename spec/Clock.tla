------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* The date and time a message carries as its SendingTime. Instants are    *)
(* [day: days since 1970-01-01, s: second of the day, ns: nanosecond], UTC. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the calendar, day by day
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
Tomorrow(d) == IF d.d < MonthLen(d.y, d.m) THEN [d EXCEPT !.d = @ + 1]
               ELSE IF d.m < 12 THEN [d EXCEPT !.m = @ + 1, !.d = 1]
               ELSE [y |-> d.y + 1, m |-> 1, d |-> 1]

\* the same at once: the date of a day, from the number of days before a year and before a month
DaysBefore(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
RECURSIVE YearFrom(_, _)
YearFrom(y, day) == IF DaysBefore(y + 1) > day THEN y ELSE YearFrom(y + 1, day)
RECURSIVE MonthFrom(_, _, _)
MonthFrom(y, m, rest) == IF rest < MonthLen(y, m) THEN [y |-> y, m |-> m, d |-> rest + 1] ELSE MonthFrom(y, m + 1, rest - MonthLen(y, m))
DateOf(day) == LET y == YearFrom(1970 + (day \div 366), day) IN MonthFrom(y, 1, day - DaysBefore(y))

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Padded(_, _)
Padded(n, w) == IF w = 0 THEN "" ELSE Padded(n \div 10, w - 1) \o Digit[(n % 10) + 1]

\* YYYYMMDD-HH:MM:SS.sss, the millisecond not rounded
Stamp(i) ==
    LET c == DateOf(i.day) IN
    Padded(c.y, 4) \o Padded(c.m, 2) \o Padded(c.d, 2) \o "-" \o Padded(i.s \div 3600, 2) \o ":"
      \o Padded((i.s \div 60) % 60, 2) \o ":" \o Padded(i.s % 60, 2) \o "." \o Padded(i.ns \div 1000000, 3)
=============================================================================
