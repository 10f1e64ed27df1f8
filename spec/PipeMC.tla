------------------------------- MODULE PipeMC -------------------------------
(***************************************************************************)
(* Two things on small instances. mode "cut": a reader that takes a stream *)
(* in chunks of any length, byte by byte, with no more memory than the     *)
(* bytes of the message so far and where its last field began, cuts all    *)
(* streams over an alphabet as Pieces says. mode "fields": all sequences   *)
(* of fields over an alphabet; what the application is handed, for replay. *)
(***************************************************************************)
EXTENDS Pipe, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.LOG)
SOH == "|"
VARIABLES s, seen, buf, fld, out
vars == <<s, seen, buf, fld, out>>

\* ------------------------------------------------------------------- cut
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET T == Texts(n - 1) IN T \cup {t \o c : t \in {x \in T : Len(x) = n - 1}, c \in {In.chars[i] : i \in DOMAIN In.chars}}
\* the reader takes one byte
Take(r, c) ==
    LET b == r.buf \o c IN
    IF c # SOH THEN [r EXCEPT !.buf = b]
    ELSE IF Len(b) >= r.fld + 3 /\ SubSeq(b, r.fld, r.fld + 2) = CutAfter THEN [buf |-> "", fld |-> 1, out |-> Append(r.out, b)]
    ELSE [r EXCEPT !.buf = b, !.fld = Len(b) + 1]
RECURSIVE TakeAll(_, _)
TakeAll(r, t) == IF t = "" THEN r ELSE TakeAll(Take(r, Ch(t, 1)), SubSeq(t, 2, Len(t)))
InitCut == s \in Texts(In.maxlen) /\ seen = 0 /\ buf = "" /\ fld = 1 /\ out = << >>
NextCut == \E j \in 1..(Len(s) - seen) :
              LET r == TakeAll([buf |-> buf, fld |-> fld, out |-> out], SubSeq(s, seen + 1, seen + j)) IN
              seen' = seen + j /\ buf' = r.buf /\ fld' = r.fld /\ out' = r.out /\ UNCHANGED s
SpecCut == InitCut /\ [][NextCut]_vars
\* at every moment the reader has cut what it has seen so far; nothing is lost or made up
RECURSIVE Joined(_)
Joined(q) == IF q = << >> THEN "" ELSE Head(q) \o Joined(Tail(q))
CutsRight == out = Pieces(SubSeq(s, 1, seen), 1, SOH)
NothingLost == Joined(out) \o buf = SubSeq(s, 1, seen)

\* ---------------------------------------------------------------- fields
Sym == In.alphabet
Text(q) == Joined([i \in DOMAIN q |-> Sym[q[i]]])
Sess == SessionsOf(In.secs)
RECURSIVE Meanings(_)
Meanings(ps) == IF ps = << >> THEN << >> ELSE Meaning(Head(ps), Sess, In.dicts, SOH) \o Meanings(Tail(ps))
InitF == s = << >> /\ seen = 0 /\ buf = "" /\ fld = 1 /\ out = << >>
NextF == /\ Len(s) < In.maxlen
         /\ \E c \in DOMAIN Sym : s' = Append(s, c)
         /\ UNCHANGED <<seen, buf, fld, out>>
SpecF == InitF /\ [][NextF]_vars
Full == Text(In.prefix) \o Text(s) \o In.suffix
EmitF == PrintT(<<"E", ToJson([x |-> Full, m |-> Meanings(Pieces(Full, 1, SOH))])>>)
=============================================================================
