----------------------------- MODULE ClockTrace -----------------------------
(***************************************************************************)
(* Validates logs of messages stamped with the sending time, several times *)
(* if need be. Entry: [b, a: header before and after as sequences of        *)
(* <<tag, value>>, i: instants of the stampings, rest: the rest of the      *)
(* message before and after is the same]                                    *)
(***************************************************************************)
EXTENDS Clock, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.LOG)
Log == In.log
VARIABLES n, k, hdr
vars == <<n, k, hdr>>
Fields(q) == {<<q[j][1], q[j][2]>> : j \in DOMAIN q}
Init == n \in 1..Len(Log) /\ k = 1 /\ hdr = Fields(Log[n].b)
SetTime == /\ k <= Len(Log[n].i)
           /\ hdr' = {f \in hdr : f[1] # "52"} \cup {<<"52", Stamp(Log[n].i[k])>>}
           /\ k' = k + 1 /\ UNCHANGED n
Spec == Init /\ [][SetTime]_vars
Report == k > Len(Log[n].i) =>
    IF Log[n].ok /\ hdr = Fields(Log[n].a) /\ Log[n].rest THEN PrintT(<<"D", n>>)
    ELSE PrintT(<<"X", ToJson([n |-> n, hdr |-> hdr])>>)
=============================================================================
