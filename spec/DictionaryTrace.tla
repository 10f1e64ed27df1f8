-------------------------- MODULE DictionaryTrace --------------------------
(***************************************************************************)
(* Validates a log of loaded dictionaries. Entry: [root: the XML, r:       *)
(* "ok"/"err"/other, k: kind of error, d: what the code knows: types:      *)
(* message type -> [f, q, g, known, disagree], hdr, trl, ft, fv]           *)
(***************************************************************************)
EXTENDS Dictionary, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
Log == In.log
VARIABLES n, k, doc, st
vars == <<n, k, doc, st>>
E == Log[n]
Init == n \in 1..Len(Log) /\ k = 0 /\ doc = Doc(Log[n].root) /\ st = Start
Next == ~Done(st) /\ st' = Step(st, doc) /\ k' = k + 1 /\ UNCHANGED <<n, doc>>
Spec == Init /\ [][Next]_vars
View == <<n, k>>

\* C14: the fields of a table (groups apart)
SameFields(t, got) == Range(got.f) = Range(t.f) /\ Range(got.q) = t.q /\ Len(got.f) = Len(t.f)
\* C15
RECURSIVE SameGroups(_, _)
SameGroups(t, got) ==
    /\ DOMAIN got.g = DOMAIN t.g
    /\ \A x \in DOMAIN t.g : LET w == t.g[x]
                                 o == got.g[x] IN
          /\ o.delim = (IF w.delim = "" THEN "0" ELSE w.delim) /\ o.order = w.in.f
          /\ SameFields(w.in, o.in) /\ SameGroups(w.in, o.in)
RECURSIVE Agree(_)
Agree(got) == got.disagree = << >> /\ \A x \in DOMAIN got.g : Agree(got.g[x].in)

\* what differs, << >> if nothing
Diff == LET T == DOMAIN E.d.types
            Has(mt) == mt \in DOMAIN st.tabs
            Tab(mt) == IF Has(mt) THEN st.tabs[mt] ELSE EmptyTable IN
    CASE In.prop = "C14" ->
            {mt \in T : ~(SameFields(Tab(mt), E.d.types[mt]) /\ E.d.types[mt].known = Has(mt) /\ E.d.types[mt].disagree = << >>)}
            \cup (IF Range(E.d.hdr) = Range(st.tabs["header"].f) THEN {} ELSE {"header fields"})
            \cup (IF Range(E.d.trl) = Range(st.tabs["trailer"].f) THEN {} ELSE {"trailer fields"})
            \cup {t \in DOMAIN st.ft \cup DOMAIN E.d.ft : ~(t \in DOMAIN st.ft /\ t \in DOMAIN E.d.ft /\ st.ft[t] = E.d.ft[t])}
            \cup {t \in DOMAIN st.fv \cup DOMAIN E.d.fv : ~(t \in DOMAIN st.fv /\ t \in DOMAIN E.d.fv /\ st.fv[t] = Range(E.d.fv[t]))}
      [] In.prop = "C15" -> {mt \in T : ~(SameGroups(Tab(mt), E.d.types[mt]) /\ Agree(E.d.types[mt]))}
      [] OTHER -> {}
Verdict == IF st.faults = {} THEN E.r = "ok" ELSE E.r = "err" /\ E.k \in st.faults
Size == IF st.faults # {} THEN 0 ELSE Cardinality(UNION {{<<mt, x>> : x \in DOMAIN st.tabs[mt].g} : mt \in DOMAIN st.tabs})
Good == IF In.prop = "C16" THEN Verdict ELSE st.faults = {} => E.r # "panic" /\ (E.r = "ok" => Diff = {})
Report == Done(st) =>
    IF Good THEN PrintT(<<"D", n, Size, ToJson(st.faults)>>)
    ELSE PrintT(<<"X", ToJson([n |-> n, faults |-> st.faults, diff |-> Diff,
               want |-> [mt \in {x \in Diff : x \in DOMAIN st.tabs} |-> st.tabs[mt]]])>>)
=============================================================================
