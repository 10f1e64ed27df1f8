----------------------------- MODULE ScheduleMC -----------------------------
(***************************************************************************)
(* A clock that runs through two weeks, for every schedule of a small      *)
(* universe. Next to the window definition (Open) it carries a switch      *)
(* which is turned on when the clock passes a start and off when it leaves *)
(* an end: both views must agree. Prints the instants the session is open. *)
(***************************************************************************)
EXTENDS Schedule, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
Times == In.times         \* times of a day at which the clock stops, ascending
Ends == In.ends           \* those at which sessions start or end
Days == In.days           \* weekdays at which weekly sessions start or end
\* the first day of the fortnight: a Monday
Day0 == DaysOf(2021, 6, 7)

VARIABLES o, d, i, on, opened
vars == <<o, d, i, on, opened>>

Some(S) == {<<x>> : x \in S} \cup {<< >>}
Range(s) == {s[k] : k \in DOMAIN s}
Opts == [st : Some(Range(Ends)), en : Some(Range(Ends)), sd : Some(Range(Days)), ed : Some(Range(Days)), zone : {"UTC"}]
\* days without times: nothing is said about that
Universe == {x \in Opts : (x.st = << >> /\ x.en = << >>) => (x.sd = << >> /\ x.ed = << >>)}

Inst(dd, ii) == <<(Day0 + dd) * Day + Times[ii][1], Times[ii][2]>>
Sch == SchedOf(o)
IsStart(dd, ii) == Sch.kind # "always" /\ Times[ii] = Sch.st /\ (Sch.kind = "daily" \/ Weekday(Day0 + dd) = Sch.sd)
IsEnd(dd, ii) == Sch.kind # "always" /\ Times[ii] = Sch.en /\ (Sch.kind = "daily" \/ Weekday(Day0 + dd) = Sch.ed)

Init == o \in Universe /\ d = 0 /\ i = 1 /\ on = Open(SchedOf(o), Inst(0, 1))
        /\ opened = IF Open(SchedOf(o), Inst(0, 1)) THEN <<1>> ELSE << >>
Tick ==
    /\ ~Refused(o) /\ d < 14
    /\ d' = IF i = Len(Times) THEN d + 1 ELSE d
    /\ i' = IF i = Len(Times) THEN 1 ELSE i + 1
    /\ d' < 14
    /\ on' = IF IsStart(d', i') THEN TRUE ELSE IF IsEnd(d, i) THEN FALSE ELSE on
    /\ opened' = IF d' < 7 /\ on' THEN Append(opened, d' * Len(Times) + i') ELSE opened
    /\ UNCHANGED o
Next == Tick
Spec == Init /\ [][Next]_vars

SwitchAgrees == ~Refused(o) => on = Open(Sch, Inst(d, i))
\* an hour is an hour: same wall clock a week later, same answer
Weekly == (~Refused(o) /\ d < 7) => Open(Sch, Inst(d, i)) = Open(Sch, Inst(d + 7, i))
Emit == (Refused(o) \/ (d = 7 /\ i = 1)) =>
    PrintT(<<"E", ToJson([o |-> o, refused |-> Refused(o), open |-> opened])>>)
=============================================================================
