------------------------------ MODULE FixText ------------------------------
(***************************************************************************)
(* Text level of a FIX message: fields terminated by SOH, each "tag=value".*)
(* A text is a TLA+ string; SOH is passed in because it can't be written.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Ch(s, i) == SubSeq(s, i, i)

\* position of the first c in s at or after i, 0 if there is none
RECURSIVE Find(_, _, _)
Find(s, i, c) == IF i > Len(s) THEN 0
                 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, i + 1, c)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in Digits |->
    CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
      [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s

\* s <= t for digit strings of equal length
RECURSIVE LeqDigits(_, _, _)
LeqDigits(s, t, i) ==
    IF i > Len(s) THEN TRUE
    ELSE IF Ch(s, i) = Ch(t, i) THEN LeqDigits(s, t, i + 1)
    ELSE DigitVal[Ch(s, i)] < DigitVal[Ch(t, i)]

MaxU32 == "4294967295"

\* a number of 32 bits, written in decimal
IsU32(s) ==
    /\ Len(s) > 0
    /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
    /\ LET z == StripZeros(s) IN
         \/ Len(z) < Len(MaxU32)
         \/ Len(z) = Len(MaxU32) /\ LeqDigits(z, MaxU32, 1)

RECURSIVE NumOf(_, _, _)
NumOf(s, i, acc) == IF i > Len(s) THEN acc ELSE NumOf(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])

Huge == 1000000000
\* its value; numbers which do not fit TLC's integers are all "Huge"
Value(s) == LET z == StripZeros(s) IN IF Len(z) > 9 THEN Huge ELSE NumOf(z, 1, 0)

\* one field of the text: <<"ok", tag, value>> or <<"fault", reason>>
LexField(fld) ==
    LET e == Find(fld, 1, "=") IN
    IF e = 0 THEN <<"fault", "InvalidTag">>
    ELSE LET t == SubSeq(fld, 1, e - 1)
             v == SubSeq(fld, e + 1, Len(fld)) IN
         IF ~IsU32(t) THEN <<"fault", "InvalidTag">>
         ELSE IF v = "" THEN <<"fault", "TagSpecifiedWithoutValue">>
         ELSE <<"ok", StripZeros(t), v>>

\* where the field that begins at i ends (the terminator of the last one may be missing)
FieldEnd(s, i, soh) == LET j == Find(s, i, soh) IN IF j = 0 THEN Len(s) + 1 ELSE j

\* the whole text: <<"ok", fields>> or <<"fault", reason>> of the leftmost fault
RECURSIVE Lex(_, _, _, _)
Lex(s, i, soh, acc) ==
    IF i > Len(s) THEN <<"ok", acc>>
    ELSE LET j == FieldEnd(s, i, soh)
             r == LexField(SubSeq(s, i, j - 1)) IN
         IF r[1] = "fault" THEN r
         ELSE Lex(s, j + 1, soh, Append(acc, [t |-> r[2], v |-> r[3]]))
=============================================================================
