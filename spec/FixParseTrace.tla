--------------------------- MODULE FixParseTrace ---------------------------
(***************************************************************************)
(* Validates a log of texts and of what the code made of them. Every log   *)
(* entry is one initial state; its text is read field by field, then fed   *)
(* to the machine of FixParse, and the result is compared with the logged  *)
(* one. Entries which do not match are printed with the expected result.   *)
(* Log entry: [d: dictionary index, s: text, r: "ok"/"rej"/..., k: reason, *)
(* m: <<>> or <<[h, b, t]>> dump of the message, mem: bytes allocated]     *)
(***************************************************************************)
EXTENDS FixParse, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
SOH == In.soh
Log == In.log

VARIABLES n, ph, at, fs, st
vars == <<n, ph, at, fs, st>>

Init == n \in 1..Len(Log) /\ ph = "read" /\ at = 1 /\ fs = << >> /\ st = Start

\* read the next field of the text
Read ==
    /\ ph = "read" /\ at <= Len(Log[n].s)
    /\ LET s == Log[n].s
           j == FieldEnd(s, at, SOH)
           r == LexField(SubSeq(s, at, j - 1)) IN
       IF r[1] = "fault" THEN ph' = "done" /\ st' = Reject(st, r[2]) /\ UNCHANGED <<at, fs>>
       ELSE /\ at' = j + 1 /\ fs' = Append(fs, [t |-> r[2], v |-> r[3]])
            /\ UNCHANGED <<ph, st>>
    /\ UNCHANGED n
ReadEnd ==
    /\ ph = "read" /\ at > Len(Log[n].s)
    /\ ph' = "feed" /\ at' = 1
    /\ UNCHANGED <<n, fs, st>>
FeedOne ==
    /\ ph = "feed" /\ at <= Len(fs) /\ st.rej = ""
    /\ st' = Step(In.dicts[Log[n].d], st, fs[at], Len(fs) - at)
    /\ at' = at + 1
    /\ UNCHANGED <<n, ph, fs>>
End ==
    /\ ph = "feed" /\ (at > Len(fs) \/ st.rej # "")
    /\ ph' = "done" /\ st' = Finish(st)
    /\ UNCHANGED <<n, at, fs>>
Next == Read \/ ReadEnd \/ FeedOne \/ End
Spec == Init /\ [][Next]_vars
View == <<n, ph, at>>

---------------------------------------------------------------------------
RECURSIVE FMOf(_)
FMOf(d) == [f |-> {<<d.f[i][1], d.f[i][2]>> : i \in DOMAIN d.f},
            g |-> {<<d.g[i][1], [j \in 1..Len(d.g[i][2]) |-> FMOf(d.g[i][2][j])]>> : i \in DOMAIN d.g}]
\* the number of fields written from a field map agrees with its content
RECURSIVE CountsAgree(_)
CountsAgree(d) == /\ d.n = Size(FMOf(d))
                  /\ \A i \in DOMAIN d.g : \A j \in DOMAIN d.g[i][2] : CountsAgree(d.g[i][2][j])

E == Log[n]
CodeAccepts == E.r = "ok"
CodeMsg == [h |-> FMOf(E.m[1].h), b |-> FMOf(E.m[1].b), t |-> FMOf(E.m[1].t)]
SpecAccepts == st.rej = ""
CodeCounts == CountsAgree(E.m[1].h) /\ CountsAgree(E.m[1].b) /\ CountsAgree(E.m[1].t)
GroupFaults == {"IncorrectNumInGroupCountForRepeatingGroup", "RequiredTagMissing",
                "RepeatingGroupsOutOfOrder", "IncorrectDataFormatForValue"}
LexFault == ph = "done" /\ st.pos = 0 /\ st.rej \in {"InvalidTag", "TagSpecifiedWithoutValue"}
HasGroups == st.fm.h.g # {} \/ st.fm.b.g # {} \/ st.fm.t.g # {}

\* memory in proportion to the text: a constant plus so much per character
MemOk == E.mem <= 65536 + 4000 * Len(E.s)

C01 == E.r \in {"ok", "rej"} /\ MemOk
C02 == CodeAccepts =>
         /\ ~LexFault /\ st.rej # "TagAppearsMoreThanOnce"
         /\ SameFields(fs, CodeMsg) /\ CodeCounts
         /\ SpecAccepts => CodeMsg = st.fm
C03 == /\ st.rej \in GroupFaults => ~CodeAccepts
       /\ (SpecAccepts /\ HasGroups) => CodeAccepts /\ CodeMsg = st.fm
C04 == /\ st.rej = "TagSpecifiedOutOfOrder" => ~CodeAccepts
       /\ SpecAccepts => CodeAccepts /\ CodeMsg = st.fm
C05 == IF SpecAccepts THEN CodeAccepts ELSE E.r = "rej" /\ E.k = st.rej
\* C08, second half: an accepted message is written as a text with the same content
Rewritten ==
    LET r == Lex(E.p, 1, SOH, << >>) IN
    /\ r[1] = "ok"
    /\ LET m == ParseFields(In.dicts[E.d], r[2]) IN m.rej = "" /\ m.fm = CodeMsg
C08 == CodeAccepts /\ SpecAccepts => CodeMsg = st.fm /\ Rewritten

Holds == CASE In.prop = "C01" -> C01 [] In.prop = "C02" -> C02 [] In.prop = "C03" -> C03
           [] In.prop = "C04" -> C04 [] In.prop = "C05" -> C05 [] In.prop = "C08" -> C08

Report == ph = "done" =>
    IF Holds THEN PrintT(<<"D", n, st.rej>>)
    ELSE PrintT(<<"X", ToJson([n |-> n, rej |-> st.rej, fm |-> st.fm])>>)
=============================================================================
