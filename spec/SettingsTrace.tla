--------------------------- MODULE SettingsTrace ---------------------------
(***************************************************************************)
(* Validates a log of loaded configurations. Entry: [secs: sections as     *)
(* written, r: "ok"/"refused", names: settings read, sess: the sessions    *)
(* the code has: [id, own, own2, eff, eff2, num], dflt: values of the      *)
(* default section, ask: [k: "text", s: text] or [k: "id", id], found:     *)
(* <<by map, by equality>> positions from 0 in sess or -1, ids: for every  *)
(* text of texts, [fwd, rev] identities]                                   *)
(***************************************************************************)
EXTENDS Settings, TLC, Json, IOUtils, Integers

In == JsonDeserialize(IOEnv.LOG)
SOH == In.soh
Log == In.log

VARIABLES n, i, conf, ph
vars == <<n, i, conf, ph>>
E == Log[n]

Init == n \in 1..Len(Log) /\ i = 1 /\ conf = Blank /\ ph = "load"
Read == ph = "load" /\ i <= Len(E.secs) /\ conf' = ReadSection(conf, E.secs[i]) /\ i' = i + 1 /\ UNCHANGED <<n, ph>>
End == ph = "load" /\ i > Len(E.secs) /\ conf' = Finish(conf) /\ ph' = "done" /\ UNCHANGED <<n, i>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars
View == <<n, i, ph>>

Canon(o) == IF o # << >> /\ U16(o[1]) THEN <<StripZeros(o[1])>> ELSE << >>

\* C12
Verdict == (E.r = "ok") <=> (conf.why = "")
\* C11: the session the code has under an identity, and what it reads from it
SessionOk(kv, s) ==
    LET dkv == conf.dflt[1] IN
    \A j \in DOMAIN E.names : LET k == E.names[j] IN
        /\ s.own[j] = Own(kv, k) /\ s.own2[j] = Own(kv, k)
        /\ s.eff[j] = Effective(kv, dkv, k) /\ s.eff2[j] = Effective(kv, dkv, k)
        /\ s.num[j] = Canon(Effective(kv, dkv, k))
Values == E.r = "ok" /\ conf.why = "" =>
    /\ Len(E.sess) = Len(conf.sess)
    /\ \A x \in DOMAIN conf.sess : \E y \in DOMAIN E.sess :
          /\ E.sess[y].id = SessionIdent(conf.sess[x], conf.dflt[1])
          /\ SessionOk(conf.sess[x], E.sess[y])
    /\ \A j \in DOMAIN E.names : E.dflt[j] = Own(conf.dflt[1], E.names[j])
\* C10
RECURSIVE Fields(_, _, _)
Fields(s, at, acc) ==
    IF at > Len(s) THEN acc
    ELSE LET j == FieldEnd(s, at, SOH)
             w == SubSeq(s, at, j - 1)
             e == Find(w, 1, "=") IN
         Fields(s, j + 1, Append(acc, [t |-> SubSeq(w, 1, e - 1), v |-> SubSeq(w, e + 1, Len(w))]))
Position(id) == IF \E y \in DOMAIN E.sess : E.sess[y].id = id
                THEN (CHOOSE y \in DOMAIN E.sess : E.sess[y].id = id) - 1 ELSE 0 - 1
Attributed ==
    /\ E.r = "ok" /\ conf.why = "" =>
       /\ {E.sess[y].id : y \in DOMAIN E.sess} = Idents(conf)
       /\ \A q \in DOMAIN E.ask :
             LET id == IF E.ask[q].k = "id" THEN E.ask[q].id ELSE Incoming(Fields(E.ask[q].s, 1, << >>)) IN
             E.found[q] = <<Position(id), Position(id)>>
    /\ \A q \in DOMAIN E.texts : LET fs == Fields(E.texts[q], 1, << >>) IN
          E.ids[q].fwd = Outgoing(fs) /\ E.ids[q].rev = Incoming(fs)

Holds == CASE In.prop = "C10" -> Attributed [] In.prop = "C11" -> Values [] In.prop = "C12" -> Verdict
Hits == Cardinality({q \in DOMAIN E.found : E.found[q][1] >= 0})
Report == ph = "done" =>
    IF Holds THEN PrintT(<<"D", n, conf.why, Hits>>)
    ELSE PrintT(<<"X", ToJson([n |-> n, why |-> conf.why,
             sess |-> IF conf.why # "" THEN << >> ELSE [x \in DOMAIN conf.sess |-> SessionIdent(conf.sess[x], conf.dflt[1])],
             ids |-> [q \in DOMAIN E.texts |-> Incoming(Fields(E.texts[q], 1, << >>))]])>>)
=============================================================================
