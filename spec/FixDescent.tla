----------------------------- MODULE FixDescent -----------------------------
(***************************************************************************)
(* The same language once more, as a recursive descent over positions of   *)
(* the field sequence. Written independently of the machine in FixParse    *)
(* and compared with it for every field sequence up to a bound.            *)
(* Results: [at |-> next position, fm |-> field map, why |-> "" or reason] *)
(***************************************************************************)
EXTENDS FixParse

Res(at, fm, why) == [at |-> at, fm |-> fm, why |-> why]
With(fm, f) == [fm EXCEPT !.f = @ \cup {<<f.t, f.v>>}]
WithGroup(fm, t, insts) == [fm EXCEPT !.g = @ \cup {<<t, insts>>}]

RECURSIVE DGroup(_, _, _, _), DInstances(_, _, _, _, _), DInstance(_, _, _, _, _)

\* count field at i
DGroup(items, fs, i, fm) ==
    IF HasTag(fm, fs[i].t) THEN Res(i, fm, "TagAppearsMoreThanOnce")
    ELSE IF ~IsU32(fs[i].v) THEN Res(i, fm, "IncorrectDataFormatForValue")
    ELSE LET n == Value(fs[i].v) IN
      IF n > Len(fs) - i THEN Res(i, fm, "IncorrectNumInGroupCountForRepeatingGroup")
      ELSE LET r == DInstances(items, fs, i + 1, n, << >>) IN
           Res(r.at, WithGroup(With(fm, fs[i]), fs[i].t, r.fm), r.why)

\* here fm of the result is the sequence of instances
DInstances(items, fs, i, n, acc) ==
    IF i > Len(fs) \/ fs[i].t \notin TagsOf(items)
    THEN Res(i, acc, IF Len(acc) = n THEN "" ELSE "IncorrectNumInGroupCountForRepeatingGroup")
    ELSE IF fs[i].t # Delim(items) THEN Res(i, acc, "RequiredTagMissing")
    ELSE IF Len(acc) = n THEN Res(i, acc, "IncorrectNumInGroupCountForRepeatingGroup")
    ELSE LET first == IF IsGroup(items, fs[i].t)
                      THEN DGroup(SubItems(items, fs[i].t), fs, i, EmptyFM)
                      ELSE Res(i + 1, With(EmptyFM, fs[i]), "")
             r == IF first.why # "" THEN first ELSE DInstance(items, fs, first.at, 1, first.fm) IN
         IF r.why # "" THEN Res(r.at, acc, r.why)
         ELSE DInstances(items, fs, r.at, n, Append(acc, r.fm))

\* the rest of an instance: up to the next delimiter or a foreign field
DInstance(items, fs, i, low, fm) ==
    IF i > Len(fs) \/ fs[i].t \notin TagsOf(items) \/ fs[i].t = Delim(items) THEN Res(i, fm, "")
    ELSE LET k == PosOf(items, fs[i].t) IN
      IF IsGroupItem(items[k]) THEN
         LET r == DGroup(items[k].g, fs, i, fm) IN
         IF r.why # "" THEN r ELSE DInstance(items, fs, r.at, low, r.fm)
      ELSE IF k < low THEN Res(i, fm, "RepeatingGroupsOutOfOrder")
      ELSE IF HasTag(fm, fs[i].t) THEN Res(i, fm, "TagAppearsMoreThanOnce")
      ELSE DInstance(items, fs, i + 1, k, With(fm, fs[i]))

\* fields of a section: everything up to the first field for which stop holds
RECURSIVE DSection(_, _, _, _, _, _)
DSection(items, stop, bad, fs, i, fm) ==
    IF i > Len(fs) \/ fs[i].t \in stop THEN Res(i, fm, "")
    ELSE IF fs[i].t \in bad THEN Res(i, fm, "TagSpecifiedOutOfOrder")
    ELSE IF IsGroup(items, fs[i].t) THEN
         LET r == DGroup(SubItems(items, fs[i].t), fs, i, fm) IN
         IF r.why # "" THEN r ELSE DSection(items, stop, bad, fs, r.at, r.fm)
    ELSE IF HasTag(fm, fs[i].t) THEN Res(i, fm, "TagAppearsMoreThanOnce")
    ELSE DSection(items, stop, bad, fs, i + 1, With(fm, fs[i]))

Descent(D, fs) ==
    LET H == TagsOf(D.hdr)
        T == TagsOf(D.trl)
        all == {fs[i].t : i \in DOMAIN fs}
        none(why) == [rej |-> why, fm |-> << >>]
    IN
    IF ~(Len(fs) >= 3 /\ fs[1].t = "8" /\ fs[2].t = "9" /\ fs[3].t = "35")
    THEN none("TagSpecifiedOutOfOrder")
    ELSE LET h == DSection(D.hdr, all \ H, {}, fs, 1, EmptyFM) IN
      IF h.why # "" THEN none(h.why)
      ELSE LET b == DSection(MsgItems(D, ValueOf(h.fm, "35")), T, H, fs, h.at, EmptyFM) IN
        IF b.why # "" THEN none(b.why)
        ELSE LET t == DSection(D.trl, {}, all \ T, fs, b.at, EmptyFM) IN
          IF t.why # "" THEN none(t.why)
          ELSE [rej |-> "", fm |-> [h |-> h.fm, b |-> b.fm, t |-> t.fm]]
=============================================================================
