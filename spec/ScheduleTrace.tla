--------------------------- MODULE ScheduleTrace ---------------------------
(***************************************************************************)
(* Validates a log of schedules and what the code said at some instants.   *)
(* Entry: [o: settings, r: "ok"/"refused", times: instants, got: 1 or 0]   *)
(***************************************************************************)
EXTENDS Schedule, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
Log == In.log
VARIABLES n, k, bad, opens
vars == <<n, k, bad, opens>>
E == Log[n]
Want(j) == IF Open(SchedOf(E.o), E.times[j]) THEN 1 ELSE 0
Init == n \in 1..Len(Log) /\ k = 0 /\ bad = << >> /\ opens = 0
Check == /\ k <= Len(E.times) /\ ~Refused(E.o) /\ E.r = "ok"
         /\ k' = k + 1
         /\ IF k = 0 THEN UNCHANGED <<bad, opens>>
            ELSE /\ opens' = opens + Want(k)
                 /\ bad' = IF E.got[k] = Want(k) THEN bad ELSE Append(bad, k)
         /\ UNCHANGED n
Next == Check
Spec == Init /\ [][Next]_vars
Done == k > Len(E.times) \/ Refused(E.o) \/ E.r # "ok"
VerdictOk == Refused(E.o) <=> E.r = "refused"
Report == Done =>
    IF VerdictOk /\ bad = << >> THEN PrintT(<<"D", n, opens>>)
    ELSE PrintT(<<"X", ToJson([n |-> n, refused |-> Refused(E.o), bad |-> bad,
                               wall |-> [j \in DOMAIN bad |-> Wall(E.o.zone, E.times[bad[j]])]])>>)
=============================================================================
