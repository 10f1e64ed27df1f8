------------------------------ MODULE FixBuild ------------------------------
(***************************************************************************)
(* The message interface: messages are built field by field, group by      *)
(* group, cloned, read back, finished (BodyLength, CheckSum) and written.  *)
(*                                                                         *)
(* A field map is [f: set of <<tag, value>>, g: set of <<count tag,        *)
(* sequence of field maps>>, o: configured field order, d: tags which must *)
(* be written first]. A message is [h, b, t, len, sum]: its sections, and  *)
(* whether BodyLength / CheckSum have been computed since the last change. *)
(***************************************************************************)
EXTENDS FixParse, TLC

Fresh(first) == [f |-> {}, g |-> {}, o |-> << >>, d |-> first]
\* the data field Signature is preceded by its length
TrailerOrder == <<"93", "89">>
NewMessage == [h |-> Fresh(<<"8", "9", "35">>), b |-> Fresh(<< >>), t |-> [Fresh(<< >>) EXCEPT !.o = TrailerOrder], len |-> FALSE, sum |-> FALSE]

Put(fm, t, v) == [fm EXCEPT !.f = {p \in @ : p[1] # t} \cup {<<t, v>>}]

\* an action on a field map: [t, v] sets a field, [t, n, d, insts] sets a group of n fresh
\* instances with delimiter d and then works on them
RECURSIVE Apply(_, _), Fill(_, _, _), SetGroup(_, _)
SetGroup(fm, it) ==
    LET fresh == [i \in 1..it.n |-> Fresh(<<it.d>>)]
        insts == [i \in 1..it.n |-> IF i <= Len(it.insts)
                    THEN LET w == it.insts[i] IN
                         Fill(IF w.order = << >> THEN fresh[i] ELSE [fresh[i] EXCEPT !.o = w.order], w.items, 1)
                    ELSE fresh[i]]
        c == Put(fm, it.t, ToString(it.n)) IN
    [c EXCEPT !.g = {g \in @ : g[1] # it.t} \cup {<<it.t, insts>>}]
Apply(fm, it) == IF "n" \in DOMAIN it THEN SetGroup(fm, it) ELSE Put(fm, it.t, it.v)
Fill(fm, items, i) == IF i > Len(items) THEN fm ELSE Fill(Apply(fm, items[i]), items, i + 1)

\* a message as it is after parsing: the instances have the order of the dictionary
RECURSIVE Dress(_, _)
Dress(items, fm) ==
    [f |-> fm.f, o |-> << >>, d |-> << >>,
     g |-> {<<g[1], LET sub == SubItems(items, g[1])
                        o == [j \in 1..Len(sub) |-> sub[j].t] IN
                    [i \in 1..Len(g[2]) |-> [Dress(sub, g[2][i]) EXCEPT !.o = o, !.d = <<o[1]>>]]>> : g \in fm.g}]
Loaded(D, fm) ==
    [h |-> [Dress(D.hdr, fm.h) EXCEPT !.d = <<"8", "9", "35">>],
     b |-> Dress(MsgItems(D, ValueOf(fm.h, "35")), fm.b), t |-> [Dress(D.trl, fm.t) EXCEPT !.o = TrailerOrder],
     len |-> FALSE, sum |-> FALSE]

Changed(m) == [m EXCEPT !.len = FALSE, !.sum = FALSE]

\* the field map at the end of a path <<tag, index, tag, index...>> (indices from 0), or "none"
RECURSIVE Walk(_, _, _)
Walk(fm, path, i) ==
    IF i > Len(path) THEN <<fm>>
    ELSE LET gs == {g \in fm.g : g[1] = path[i]} IN
         IF gs = {} THEN << >>
         ELSE LET insts == (CHOOSE g \in gs : TRUE)[2] IN
              IF path[i + 1] >= Len(insts) THEN << >> ELSE Walk(insts[path[i + 1] + 1], path, i + 2)

---------------------------------------------------------------------------
(* conversion of values to types                                           *)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
AtMost(s, max) == LET z == StripZeros(s) IN Len(z) < Len(max) \/ (Len(z) = Len(max) /\ LeqDigits(z, max, 1))
Good(v) == <<"ok", v>>
Bad == <<"err">>
Unsigned(v, max) == IF AllDigits(v) /\ AtMost(v, max) THEN Good(StripZeros(v)) ELSE Bad
Signed(v, max, min) ==
    IF Len(v) > 1 /\ Ch(v, 1) = "-" THEN
       LET a == SubSeq(v, 2, Len(v)) IN
       IF AllDigits(a) /\ AtMost(a, min)
       THEN Good(IF StripZeros(a) = "0" THEN "0" ELSE "-" \o StripZeros(a)) ELSE Bad
    ELSE Unsigned(v, max)
Convert(ty, v) ==
    CASE ty = "str" -> Good(v)
      [] ty = "u8" -> Unsigned(v, "255")
      [] ty = "u16" -> Unsigned(v, "65535")
      [] ty = "u32" -> Unsigned(v, MaxU32)
      [] ty \in {"u64", "usize"} -> Unsigned(v, "18446744073709551615")
      [] ty = "i8" -> Signed(v, "127", "128")
      [] ty = "i32" -> Signed(v, "2147483647", "2147483648")
      [] ty = "i64" -> Signed(v, "9223372036854775807", "9223372036854775808")
      [] ty = "bool" -> IF v \in {"true", "false"} THEN Good(v) ELSE Bad
      [] ty = "char" -> IF Len(v) = 1 THEN Good(v) ELSE Bad

GetField(fm, t, ty) == IF HasTag(fm, t) THEN Convert(ty, ValueOf(fm, t)) ELSE Bad

---------------------------------------------------------------------------
(* the text of a message                                                   *)
\* fields of a text, values may be empty: [t, v]
RECURSIVE Fields(_, _, _, _)
Fields(s, i, soh, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET j == FieldEnd(s, i, soh)
             w == SubSeq(s, i, j - 1)
             e == Find(w, 1, "=") IN
         Fields(s, j + 1, soh, Append(acc, IF e = 0 THEN [t |-> "?", v |-> w]
                 ELSE [t |-> SubSeq(w, 1, e - 1), v |-> SubSeq(w, e + 1, Len(w))]))

IndexIn(o, t) == IF \E i \in DOMAIN o : o[i] = t THEN CHOOSE i \in DOMAIN o : o[i] = t ELSE 0

\* may tag t be written next when the tags in left are still to be written?
MayFollow(fm, t, left, last) ==
    /\ \A i \in DOMAIN fm.d : fm.d[i] \in left =>
          IndexIn(fm.d, t) # 0 /\ IndexIn(fm.d, t) <= i
    /\ t \in last => left = {t}
    /\ \A i \in DOMAIN fm.o : (fm.o[i] \in left /\ IndexIn(fm.o, t) # 0) => IndexIn(fm.o, t) <= i

\* toks[i..] starts with the fields of fm in an allowed order: the position after them, 0 if not
RECURSIVE Written(_, _, _, _, _), WrittenAll(_, _, _, _)
Written(fm, left, toks, i, last) ==
    IF left = {} THEN i
    ELSE IF i > Len(toks) THEN 0
    ELSE LET t == toks[i].t IN
         IF t \notin left \/ ~MayFollow(fm, t, left, last) \/ <<t, toks[i].v>> \notin fm.f THEN 0
         ELSE LET gs == {g \in fm.g : g[1] = t}
                  j == IF gs = {} THEN i + 1 ELSE WrittenAll((CHOOSE g \in gs : TRUE)[2], 1, toks, i + 1) IN
              IF j = 0 THEN 0 ELSE Written(fm, left \ {t}, toks, j, last)
WrittenAll(insts, k, toks, i) ==
    IF k > Len(insts) THEN i
    ELSE LET j == Written(insts[k], {p[1] : p \in insts[k].f}, toks, i, {}) IN
         IF j = 0 THEN 0 ELSE WrittenAll(insts, k + 1, toks, j)

TagSet(fm) == {p[1] : p \in fm.f}
\* C06
GoodLayout(m, toks) ==
    LET a == Written(m.h, TagSet(m.h), toks, 1, {})
        b == IF a = 0 THEN 0 ELSE Written(m.b, TagSet(m.b), toks, a, {})
        c == IF b = 0 THEN 0 ELSE Written(m.t, TagSet(m.t), toks, b, {"10"}) IN
    c = Len(toks) + 1

---------------------------------------------------------------------------
(* lengths and sums, over the bytes of the text (a sequence of numbers)    *)
RECURSIVE NextByte(_, _, _)
NextByte(bs, i, b) == IF i > Len(bs) THEN 0 ELSE IF bs[i] = b THEN i ELSE NextByte(bs, i + 1, b)
StartsWith(bs, i, pre) == i + Len(pre) - 1 <= Len(bs) /\ \A k \in 1..Len(pre) : bs[i + k - 1] = pre[k]
Sum256(bs, to) == FoldLeft(LAMBDA a, b : (a + b) % 256, 0, SubSeq(bs, 1, to))
ThreeDigits(n) == (IF n < 10 THEN "00" ELSE IF n < 100 THEN "0" ELSE "") \o ToString(n)

FieldAt(bs, pre) == {i \in 1..Len(bs) : (i = 1 \/ bs[i - 1] = 1) /\ StartsWith(bs, i, pre)}
\* C07: length and sum as they are, computed from the bytes
Nine == <<57, 61>>
Ten == <<49, 48, 61>>
\* (BodyLength is the first field of tag 9, CheckSum the last field of the text: see GoodLayout)
Lengths(m, bs) ==
    /\ FieldAt(bs, Nine) # {}
    /\ FieldAt(bs, Ten) # {}
    /\ LET a == CHOOSE i \in FieldAt(bs, Nine) : \A j \in FieldAt(bs, Nine) : i <= j
           z == CHOOSE i \in FieldAt(bs, Ten) : \A j \in FieldAt(bs, Ten) : j <= i
           e == NextByte(bs, a, 1) IN       \* SOH after BodyLength
       /\ ValueOf(m.h, "9") = ToString(z - e - 1)
       /\ ValueOf(m.t, "10") = ThreeDigits(Sum256(bs, z - 1))

\* the same for a text given as runs <<byte, how often>> (of texts of many megabytes); "=" does not start a value
RunsAt(rs, pre) == {i \in 1..Len(rs) - Len(pre) : (i = 1 \/ rs[i - 1][1] = 1) /\ \A k \in 1..Len(pre) : rs[i + k - 1] = <<pre[k], 1>>}
RunLengths(m, rs) ==
    /\ RunsAt(rs, Nine) # {}
    /\ RunsAt(rs, Ten) # {}
    /\ LET a == CHOOSE i \in RunsAt(rs, Nine) : \A j \in RunsAt(rs, Nine) : i <= j
           z == CHOOSE i \in RunsAt(rs, Ten) : \A j \in RunsAt(rs, Ten) : j <= i
           e == CHOOSE i \in a..z : rs[i][1] = 1 /\ \A j \in a..z : rs[j][1] = 1 => i <= j IN
       /\ ValueOf(m.h, "9") = ToString(FoldLeft(LAMBDA x, r : x + r[2], 0, SubSeq(rs, e + 1, z - 1)))
       /\ ValueOf(m.t, "10") = ThreeDigits(FoldLeft(LAMBDA x, r : (x + r[1] * (r[2] % 256)) % 256, 0, SubSeq(rs, 1, z - 1)))
=============================================================================
