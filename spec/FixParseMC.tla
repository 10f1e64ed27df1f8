----------------------------- MODULE FixParseMC -----------------------------
(***************************************************************************)
(* The parser fed by an environment which first chooses how many fields    *)
(* the text has and then chooses every field from a given alphabet: all    *)
(* field sequences up to a bound. A rejected prefix is not extended.       *)
(* Checks the machine against FixDescent and against what acceptance means,*)
(* and prints the expected verdict of every sequence for replay.           *)
(***************************************************************************)
EXTENDS FixDescent, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
D == In.dict
Alphabet == In.alphabet      \* sequence of [t, v, u]: tag, value, "1" if the value is made unique
Prefix == In.prefix          \* indices into the alphabet every sequence starts with
MaxLen == In.maxlen          \* number of fields after the prefix
PrintIt == In.print = "1"

VARIABLES len,   \* number of fields of the text
          seq,   \* indices of the symbols chosen so far
          fs,    \* the fields
          st     \* the machine
vars == <<len, seq, fs, st>>

FieldOf(k, i) == [t |-> Alphabet[k].t, v |-> IF Alphabet[k].u = "1" THEN Alphabet[k].v \o ToString(i) ELSE Alphabet[k].v]

PrefixFields == [i \in 1..Len(Prefix) |-> FieldOf(Prefix[i], i)]
RECURSIVE Feeds(_, _, _)
Feeds(s, i, total) == IF i > Len(Prefix) THEN s ELSE Feeds(Step(D, s, PrefixFields[i], total - i), i + 1, total)

Init == \E n \in 0..MaxLen :
          /\ len = Len(Prefix) + n
          /\ seq = Prefix
          /\ fs = PrefixFields
          /\ st = Feeds(Start, 1, len)

Consume(k) ==
    /\ Len(fs) < len /\ st.rej = ""
    /\ LET f == FieldOf(k, Len(fs) + 1) IN
         /\ fs' = Append(fs, f)
         /\ seq' = Append(seq, k)
         /\ st' = Step(D, st, f, len - Len(fs) - 1)
    /\ UNCHANGED len

Next == \E k \in DOMAIN Alphabet : Consume(k)
Spec == Init /\ [][Next]_vars

Ended == Len(fs) = len
Verdict == Finish(st)

\* when the text is rejected early its remaining fields do not matter
Filled == fs \o [i \in 1..(len - Len(fs)) |-> FieldOf(1, Len(fs) + i)]
AgreesWithDescent ==
    (Ended \/ st.rej # "") =>
        LET d == Descent(D, Filled) IN
        /\ d.rej = Verdict.rej
        /\ d.rej = "" => d.fm = Verdict.fm

Accepted == Ended /\ Verdict.rej = ""
SameFieldsInv == Accepted => SameFields(fs, Verdict.fm)
UniqueInv == Accepted => UniqueTags(Verdict.fm.h) /\ UniqueTags(Verdict.fm.b) /\ UniqueTags(Verdict.fm.t)
GroupsInv == Accepted => /\ GoodGroups(D.hdr, Verdict.fm.h)
                         /\ GoodGroups(MsgItems(D, MsgType(Verdict)), Verdict.fm.b)
                         /\ GoodGroups(D.trl, Verdict.fm.t)
SectionsInv == Accepted => GoodSections(D, fs, Verdict.fm)
\* the machine never goes back to an earlier section and never drops what it has stored
Rank == [h |-> 1, b |-> 2, t |-> 3]
Forward == [][Rank[st.sec] <= Rank[st'.sec]]_vars
\* memory: what is stored is never more than what was read, open groups included
RECURSIVE FrameSize(_, _)
FrameSize(s, i) == IF i > Len(s) THEN 0
    ELSE SumSeq([j \in 1..Len(s[i].insts) |-> Size(s[i].insts[j])], 1) + FrameSize(s, i + 1)
Bounded == Size(st.fm.h) + Size(st.fm.b) + Size(st.fm.t) + FrameSize(st.stack, 1) <= Len(fs)
\* groups still expected never exceed what is left to read plus what has been read
DeclBounded == \A i \in DOMAIN st.stack : st.stack[i].decl <= len

Emit == (PrintIt /\ (Ended \/ st.rej # "")) =>
          PrintT(<<"E", ToJson([n |-> len - Len(Prefix), s |-> SubSeq(seq, Len(Prefix) + 1, Len(seq)), k |-> Verdict.rej,
                                m |-> IF Verdict.rej = "" THEN <<Verdict.fm>> ELSE << >>])>>)
=============================================================================
