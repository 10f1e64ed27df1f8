-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* From the bytes a client writes to what the application is handed: the   *)
(* stream is cut after every CheckSum field; every piece is read with the  *)
(* dictionary of the session its header names, and handed over with the    *)
(* identity of that session; a piece that names no session, or which its   *)
(* dictionary rejects, is left out. Composes FixParse and Settings.        *)
(***************************************************************************)
EXTENDS FixParse
St == INSTANCE Settings

CutAfter == "10="
\* the end of the piece that begins at i (the terminator of its last field), j being the begin of a
\* field of it; 0 if the stream ends before
RECURSIVE PieceEnd(_, _, _)
PieceEnd(s, j, soh) ==
    LET e == Find(s, j, soh) IN
    IF e = 0 THEN 0
    ELSE IF e >= j + 3 /\ SubSeq(s, j, j + 2) = CutAfter THEN e
    ELSE PieceEnd(s, e + 1, soh)
RECURSIVE Pieces(_, _, _)
Pieces(s, i, soh) ==
    LET e == PieceEnd(s, i, soh) IN IF e = 0 THEN << >> ELSE <<SubSeq(s, i, e)>> \o Pieces(s, e + 1, soh)

\* a session of a configuration, a sequence of sections of which the first is the default one:
\* its identity and the name of its dictionary
Shipped == "resources/FIX43.xml"
SessionOf(dkv, kv) ==
    LET d == St!Effective(kv, dkv, "data_dictionary") IN
    [id |-> St!SessionIdent(kv, dkv), d |-> IF d = << >> THEN Shipped ELSE d[1]]
SessionsOf(secs) == [i \in 1..(Len(secs) - 1) |-> SessionOf(secs[1].kv, secs[i + 1].kv)]

\* what becomes of a piece: << >> or <<[s: session (from 0), m: field maps]>>
Meaning(piece, sess, dicts, soh) ==
    LET r == Lex(piece, 1, soh, << >>) IN
    IF r[1] = "fault" THEN << >>
    ELSE LET id == St!Incoming(r[2])
             at == {i \in DOMAIN sess : sess[i].id = id} IN
         IF at = {} THEN << >>
         ELSE LET i == CHOOSE x \in at : TRUE
                  p == ParseFields(dicts[sess[i].d], r[2]) IN
              IF p.rej # "" THEN << >> ELSE <<[s |-> i - 1, m |-> p.fm]>>
=============================================================================
