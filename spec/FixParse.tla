------------------------------ MODULE FixParse ------------------------------
(***************************************************************************)
(* The FIX message parser as a machine which consumes one field per step.  *)
(*                                                                         *)
(* A dictionary D is [hdr, trl: items, msgs: [message type -> items]].     *)
(* Items are a sequence of [t |-> tag] (field) or [t |-> tag, g |-> items] *)
(* (count field of a repeating group, with the items of its instances).    *)
(*                                                                         *)
(* A field map is [f |-> set of <<tag, value>>, g |-> set of <<count tag,  *)
(* sequence of field maps>>].                                              *)
(*                                                                         *)
(* The state of the machine: the number of fields consumed, the section it *)
(* is in, the field maps of the three sections, the stack of open groups   *)
(* and, once a fault is found, the reject reason.                          *)
(***************************************************************************)
EXTENDS FixText, FiniteSets, SequencesExt

IsGroupItem(it) == "g" \in DOMAIN it
TagsOf(items) == {items[i].t : i \in DOMAIN items}
PosOf(items, t) == CHOOSE i \in DOMAIN items : items[i].t = t
IsGroup(items, t) == \E i \in DOMAIN items : items[i].t = t /\ IsGroupItem(items[i])
SubItems(items, t) == items[PosOf(items, t)].g
Delim(items) == items[1].t
MsgItems(D, mt) == IF mt \in DOMAIN D.msgs THEN D.msgs[mt] ELSE << >>

EmptyFM == [f |-> {}, g |-> {}]
HasTag(fm, t) == \E p \in fm.f : p[1] = t
ValueOf(fm, t) == (CHOOSE p \in fm.f : p[1] = t)[2]

Start == [pos |-> 0, sec |-> "h", fm |-> [h |-> EmptyFM, b |-> EmptyFM, t |-> EmptyFM],
          stack |-> << >>, rej |-> ""]

Reject(st, why) == [st EXCEPT !.rej = why]

\* the field map new fields go to: the current instance of the innermost group, or the section
Top(st) == st.stack[Len(st.stack)]
Current(st) == IF st.stack = << >> THEN st.fm[st.sec] ELSE Last(Top(st).insts)
SetCurrent(st, fm) ==
    IF st.stack = << >> THEN [st EXCEPT !.fm[st.sec] = fm]
    ELSE [st EXCEPT !.stack[Len(st.stack)].insts[Len(Top(st).insts)] = fm]
AddField(st, f) ==
    LET c == Current(st) IN SetCurrent(st, [c EXCEPT !.f = @ \cup {<<f.t, f.v>>}])

SetUnique(st, f) ==
    IF HasTag(Current(st), f.t) THEN Reject(st, "TagAppearsMoreThanOnce") ELSE AddField(st, f)

\* a count field opens a group; rem fields follow it
OpenGroup(st, f, items, rem) ==
    IF HasTag(Current(st), f.t) THEN Reject(st, "TagAppearsMoreThanOnce")
    ELSE IF ~IsU32(f.v) THEN Reject(st, "IncorrectDataFormatForValue")
    ELSE IF Value(f.v) > rem THEN Reject(st, "IncorrectNumInGroupCountForRepeatingGroup")
    ELSE [AddField(st, f) EXCEPT !.stack =
            Append(@, [tag |-> f.t, items |-> items, decl |-> Value(f.v), off |-> 0, insts |-> << >>])]

\* the innermost group ends
CloseGroup(st) ==
    LET g == Top(st) IN
    IF Len(g.insts) # g.decl THEN Reject(st, "IncorrectNumInGroupCountForRepeatingGroup")
    ELSE LET s2 == [st EXCEPT !.stack = Front(@)]
             c == Current(s2) IN
         SetCurrent(s2, [c EXCEPT !.g = @ \cup {<<g.tag, g.insts>>}])

MsgType(st) == ValueOf(st.fm.h, "35")
SectionItems(D, st) == IF st.sec = "h" THEN D.hdr ELSE IF st.sec = "t" THEN D.trl ELSE MsgItems(D, MsgType(st))

RECURSIVE InSection(_, _, _, _)
InSection(D, st, f, rem) ==
    IF st.pos <= 3 /\ f.t # <<"8", "9", "35">>[st.pos] THEN Reject(st, "TagSpecifiedOutOfOrder")
    ELSE CASE st.sec = "h" ->
                 IF f.t \notin TagsOf(D.hdr) THEN InSection(D, [st EXCEPT !.sec = "b"], f, rem)
                 ELSE IF IsGroup(D.hdr, f.t) THEN OpenGroup(st, f, SubItems(D.hdr, f.t), rem)
                 ELSE SetUnique(st, f)
           [] st.sec = "b" ->
                 IF f.t \in TagsOf(D.hdr) THEN Reject(st, "TagSpecifiedOutOfOrder")
                 ELSE IF f.t \in TagsOf(D.trl) THEN InSection(D, [st EXCEPT !.sec = "t"], f, rem)
                 ELSE LET items == SectionItems(D, st) IN
                      IF IsGroup(items, f.t) THEN OpenGroup(st, f, SubItems(items, f.t), rem)
                      ELSE SetUnique(st, f)
           [] st.sec = "t" ->
                 IF f.t \notin TagsOf(D.trl) THEN Reject(st, "TagSpecifiedOutOfOrder")
                 ELSE IF IsGroup(D.trl, f.t) THEN OpenGroup(st, f, SubItems(D.trl, f.t), rem)
                 ELSE SetUnique(st, f)

NewInstance(st) ==
    LET k == Len(st.stack) IN
    [st EXCEPT !.stack[k].insts = Append(@, EmptyFM), !.stack[k].off = 0]

RECURSIVE Feed(_, _, _, _)
Feed(D, st, f, rem) ==
    IF st.stack = << >> THEN InSection(D, st, f, rem)
    ELSE LET g == Top(st)
             sub == IsGroup(g.items, f.t) IN
         IF f.t \notin TagsOf(g.items) THEN      \* does not belong to the group: it ends here
            LET s2 == CloseGroup(st) IN IF s2.rej # "" THEN s2 ELSE Feed(D, s2, f, rem)
         ELSE IF f.t = Delim(g.items) THEN
            IF Len(g.insts) >= g.decl THEN Reject(st, "IncorrectNumInGroupCountForRepeatingGroup")
            ELSE IF sub THEN OpenGroup(NewInstance(st), f, SubItems(g.items, f.t), rem)
            ELSE AddField(NewInstance(st), f)
         ELSE IF g.insts = << >> THEN Reject(st, "RequiredTagMissing")
         ELSE IF sub THEN OpenGroup(st, f, SubItems(g.items, f.t), rem)
         ELSE IF PosOf(g.items, f.t) < g.off THEN Reject(st, "RepeatingGroupsOutOfOrder")
         ELSE SetUnique([st EXCEPT !.stack[Len(st.stack)].off = PosOf(g.items, f.t)], f)

\* one step of the machine: field f, followed by rem more fields
Step(D, st, f, rem) ==
    IF st.rej # "" THEN st ELSE Feed(D, [st EXCEPT !.pos = @ + 1], f, rem)

\* the end of the text closes all open groups
RECURSIVE Finish(_)
Finish(st) ==
    IF st.rej # "" THEN st
    ELSE IF st.pos < 3 THEN Reject(st, "TagSpecifiedOutOfOrder")
    ELSE IF st.stack # << >> THEN Finish(CloseGroup(st))
    ELSE st

RECURSIVE Run(_, _, _, _)
Run(D, st, fs, i) ==
    IF i > Len(fs) THEN Finish(st) ELSE Run(D, Step(D, st, fs[i], Len(fs) - i), fs, i + 1)

ParseFields(D, fs) == Run(D, Start, fs, 1)

---------------------------------------------------------------------------
(* What acceptance means, stated on the result and the consumed fields.    *)

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)

\* number of occurrences of a field in a field map, groups included
RECURSIVE Occ(_, _)
Occ(fm, p) == (IF p \in fm.f THEN 1 ELSE 0) +
    LET gs == SetToSeq(fm.g) IN
    SumSeq([i \in 1..Len(gs) |-> SumSeq([j \in 1..Len(gs[i][2]) |-> Occ(gs[i][2][j], p)], 1)], 1)

RECURSIVE Size(_)
Size(fm) == Cardinality(fm.f) +
    LET gs == SetToSeq(fm.g) IN
    SumSeq([i \in 1..Len(gs) |-> SumSeq([j \in 1..Len(gs[i][2]) |-> Size(gs[i][2][j])], 1)], 1)

OccIn(fs, p) == Cardinality({i \in DOMAIN fs : <<fs[i].t, fs[i].v>> = p})

\* C02: the message holds exactly the fields of the text
SameFields(fs, m) ==
    /\ Size(m.h) + Size(m.b) + Size(m.t) = Len(fs)
    /\ \A i \in DOMAIN fs : LET p == <<fs[i].t, fs[i].v>> IN
          Occ(m.h, p) + Occ(m.b, p) + Occ(m.t, p) = OccIn(fs, p)
\* ... and no tag twice in one field map
RECURSIVE UniqueTags(_)
UniqueTags(fm) ==
    /\ \A p, q \in fm.f : p[1] = q[1] => p = q
    /\ \A g \in fm.g : \A i \in DOMAIN g[2] : UniqueTags(g[2][i])

\* C03: every group of the dictionary is there with as many instances as declared, every
\* instance has the delimiter and only items of the group
RECURSIVE GoodGroups(_, _)
GoodGroups(items, fm) ==
    /\ \A p \in fm.f : IsGroup(items, p[1]) =>
          /\ IsU32(p[2])
          /\ \E g \in fm.g : g[1] = p[1] /\ Len(g[2]) = Value(p[2])
    /\ \A g \in fm.g :
          /\ IsGroup(items, g[1]) /\ HasTag(fm, g[1])
          /\ LET sub == SubItems(items, g[1]) IN
             \A i \in DOMAIN g[2] :
                /\ HasTag(g[2][i], Delim(sub))
                /\ \A p \in g[2][i].f : p[1] \in TagsOf(sub)
                /\ GoodGroups(sub, g[2][i])

\* C04
GoodSections(D, fs, m) ==
    /\ Len(fs) >= 3 /\ fs[1].t = "8" /\ fs[2].t = "9" /\ fs[3].t = "35"
    /\ \A p \in m.h.f : p[1] \in TagsOf(D.hdr)
    /\ \A p \in m.b.f : p[1] \notin TagsOf(D.hdr) \cup TagsOf(D.trl)
    /\ \A p \in m.t.f : p[1] \in TagsOf(D.trl)
    /\ LET nh == Size(m.h)
           nb == Size(m.b) IN
       \A i \in DOMAIN fs : LET p == <<fs[i].t, fs[i].v>> IN
          /\ i <= nh <=> Occ(m.h, p) > 0
          /\ i > nh + nb <=> Occ(m.t, p) > 0
=============================================================================
