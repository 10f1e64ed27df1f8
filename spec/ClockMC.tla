------------------------------ MODULE ClockMC ------------------------------
(***************************************************************************)
(* A calendar that is turned one day at a time, from 1970 on or from the   *)
(* beginning of another year: the date is always the one DateOf computes.  *)
(* Emits the stamps of the stops of every day, for replay.                 *)
(***************************************************************************)
EXTENDS Clock, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.LOG)
VARIABLES day, date
vars == <<day, date>>
Init == \E k \in DOMAIN In.from : day = DaysBefore(In.from[k]) /\ date = [y |-> In.from[k], m |-> 1, d |-> 1]
Next == /\ \E k \in DOMAIN In.from : DaysBefore(In.from[k]) <= day /\ day < DaysBefore(In.from[k] + In.years[k])
        /\ day' = day + 1 /\ date' = Tomorrow(date)
Spec == Init /\ [][Next]_vars
Agrees == DateOf(day) = date
Valid == date.m \in 1..12 /\ date.d \in 1..MonthLen(date.y, date.m)
\* an hour and a second of its own for every day
Stop == [day |-> day, s |-> ((day % 86400) * 7919) % 86400, ns |-> In.ns[(day % Len(In.ns)) + 1]]
Emit == PrintT(<<"E", ToJson([i |-> Stop, x |-> Stamp(Stop)])>>)
=============================================================================
