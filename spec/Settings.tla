------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The session configuration: sections of key/value pairs, read one after  *)
(* the other, and the identities of sessions and messages.                 *)
(*                                                                         *)
(* A section is [d: is it the default section, kv: sequence of <<key,      *)
(* value>>, no key twice]. Optional values are << >> or <<value>>. An      *)
(* identity is [begin, snd, tgt: string, ssub, sloc, tsub, tloc: optional]. *)
(***************************************************************************)
EXTENDS FixText, FiniteSets

\* ------------------------------------------------------------- the machine
\* [dflt: optional section, sess: sequence of sections, why: "" or why it is unusable]
Blank == [dflt |-> << >>, sess |-> << >>, why |-> ""]
Fail(c, w) == [c EXCEPT !.why = w]

Has(kv, k) == \E i \in DOMAIN kv : kv[i][1] = k
Val(kv, k) == kv[CHOOSE i \in DOMAIN kv : kv[i][1] = k][2]
Own(kv, k) == IF Has(kv, k) THEN <<Val(kv, k)>> ELSE << >>
\* a session's own value, else the default
Effective(kv, dkv, k) == IF Has(kv, k) THEN <<Val(kv, k)>> ELSE Own(dkv, k)

ReadSection(c, s) ==
    IF c.why # "" THEN c
    ELSE IF s.d THEN IF c.dflt # << >> THEN Fail(c, "second default") ELSE [c EXCEPT !.dflt = <<s.kv>>]
    ELSE IF c.dflt = << >> THEN Fail(c, "session first")
    ELSE [c EXCEPT !.sess = Append(@, s.kv)]

U16(v) == /\ Len(v) > 0 /\ \A i \in 1..Len(v) : Ch(v, i) \in Digits
          /\ Value(v) < 65536
Begins == {"FIX.4.2", "FIX.4.3", "FIX.4.4"}
IsIn(o, S) == o # << >> /\ o[1] \in S

\* why a session of a configuration is unusable, "" if it is usable
Fault(kv, dkv, ct) ==
    LET E(k) == Effective(kv, dkv, k)
        Port(k) == E(k) # << >> /\ U16(E(k)[1]) IN
    IF ~IsIn(E("begin_string"), Begins) THEN "begin string"
    ELSE IF E("sender_comp_id") = << >> \/ E("target_comp_id") = << >> THEN "comp id"
    ELSE IF ct = "acceptor" /\ ~Port("socket_accept_port") THEN "accept port"
    ELSE IF ct = "initiator" /\ (E("socket_connect_host") = << >> \/ ~Port("socket_connect_port")) THEN "host or port"
    ELSE ""

\* after the last section
Finish(c) ==
    IF c.why # "" THEN c
    ELSE IF c.dflt = << >> THEN Fail(c, "no default")
    ELSE LET ct == Own(c.dflt[1], "connection_type") IN
         IF ~IsIn(ct, {"acceptor", "initiator"}) THEN Fail(c, "connection type")
         ELSE LET bad == {i \in DOMAIN c.sess : Fault(c.sess[i], c.dflt[1], ct[1]) # ""} IN
              IF bad = {} THEN c ELSE Fail(c, Fault(c.sess[CHOOSE i \in bad : \A j \in bad : i <= j], c.dflt[1], ct[1]))

RECURSIVE LoadFrom(_, _, _)
LoadFrom(c, secs, i) == IF i > Len(secs) THEN Finish(c) ELSE LoadFrom(ReadSection(c, secs[i]), secs, i + 1)
Load(secs) == LoadFrom(Blank, secs, 1)

\* -------------------------------------------------------------- identities
NonEmpty(o) == IF o = <<"">> THEN << >> ELSE o
Ident(b, s, ss, sl, t, ts, tl) ==
    [begin |-> b, snd |-> s, ssub |-> NonEmpty(ss), sloc |-> NonEmpty(sl), tgt |-> t, tsub |-> NonEmpty(ts), tloc |-> NonEmpty(tl)]

SessionIdent(kv, dkv) ==
    LET E(k) == Effective(kv, dkv, k) IN
    Ident(E("begin_string")[1], E("sender_comp_id")[1], E("sender_sub_id"), E("sender_location_id"),
          E("target_comp_id")[1], E("target_sub_id"), E("target_location_id"))

\* fs: the fields of a message [t, v] in order; the header has every tag at most once
FieldVal(fs, t) == IF \E i \in DOMAIN fs : fs[i].t = t
                   THEN <<fs[CHOOSE i \in DOMAIN fs : fs[i].t = t].v>> ELSE << >>
OrEmpty(o) == IF o = << >> THEN "" ELSE o[1]
Outgoing(fs) == LET V(t) == FieldVal(fs, t) IN
    Ident(OrEmpty(V("8")), OrEmpty(V("49")), V("50"), V("142"), OrEmpty(V("56")), V("57"), V("143"))
Swap(id) == [id EXCEPT !.snd = id.tgt, !.ssub = id.tsub, !.sloc = id.tloc,
                       !.tgt = id.snd, !.tsub = id.ssub, !.tloc = id.sloc]
\* C10: the identity of an incoming message is that of our side
Incoming(fs) == Swap(Outgoing(fs))

\* -------------------------------------------------- what loading guarantees
\* C12: the faults, independent of the machine
Unusable(secs) ==
    LET ds == {i \in DOMAIN secs : secs[i].d} IN
    \/ Cardinality(ds) # 1
    \/ \E i \in ds : i # 1
    \/ \E i \in ds : LET dkv == secs[i].kv
                         ct == Own(dkv, "connection_type") IN
          \/ ct = << >>
          \/ ct[1] \notin {"acceptor", "initiator"}
          \/ \E j \in DOMAIN secs \ ds : LET E(k) == Effective(secs[j].kv, dkv, k) IN
                \/ ~IsIn(E("begin_string"), Begins)
                \/ E("sender_comp_id") = << >>
                \/ E("target_comp_id") = << >>
                \/ ct[1] = "acceptor" /\ (E("socket_accept_port") = << >> \/ ~U16(E("socket_accept_port")[1]))
                \/ ct[1] = "initiator" /\ \/ E("socket_connect_host") = << >>
                                          \/ E("socket_connect_port") = << >>
                                          \/ ~U16(E("socket_connect_port")[1])
Idents(c) == {SessionIdent(c.sess[i], c.dflt[1]) : i \in DOMAIN c.sess}
\* every session is one of its own (also if it lacks something)
IdKeys == {"begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id",
           "target_comp_id", "target_sub_id", "target_location_id"}
DistinctIdents(c) ==
    Cardinality({[k \in IdKeys |-> NonEmpty(Effective(c.sess[i], c.dflt[1], k))] : i \in DOMAIN c.sess}) = Len(c.sess)
=============================================================================
