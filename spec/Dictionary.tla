----------------------------- MODULE Dictionary -----------------------------
(***************************************************************************)
(* Loading an XML data dictionary. An element is [n: tag name, a: sequence *)
(* of <<attribute, value>>, c: sequence of child elements]; the root is    *)
(* the document element. The machine reads one element per step with a     *)
(* stack of open messages, groups and components; what it must compute is  *)
(* defined a second time, without a machine, further down.                 *)
(*                                                                         *)
(* A table is [f: sequence of the tags listed, q: set of required tags,    *)
(* g: group tag -> [delim, in: table]].                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

HasAttr(e, k) == \E i \in DOMAIN e.a : e.a[i][1] = k /\ e.a[i][2] # ""
Attr(e, k) == e.a[CHOOSE i \in DOMAIN e.a : e.a[i][1] = k][2]
Lacks(e, ks) == \E i \in DOMAIN ks : ~HasAttr(e, ks[i])
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerMap == [c \in {SubSeq(Upper, i, i) : i \in 1..26} |-> LET i == CHOOSE j \in 1..26 : SubSeq(Upper, j, j) = c IN SubSeq(Lower, i, i)]
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN ""
              ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE c) \o ToLower(SubSeq(s, 2, Len(s)))
IsReq(e) == Attr(e, "required") \in {"Y", "y"}

\* numbers up to 4294967295
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip0(SubSeq(s, 2, Len(s))) ELSE s
DigVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE LeqDigits(_, _)
LeqDigits(a, b) == a = "" \/ LET x == DigVal(SubSeq(a, 1, 1))
                                 y == DigVal(SubSeq(b, 1, 1)) IN
                             x < y \/ (x = y /\ LeqDigits(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))))
IsNumber(s) == /\ Len(s) > 0 /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digit
               /\ LET z == Strip0(s) IN Len(z) < 10 \/ (Len(z) = 10 /\ LeqDigits(z, "4294967295"))

FixTypes == {"CHAR", "BOOLEAN", "DATA", "FLOAT", "AMT", "PERCENTAGE", "PRICE", "PRICEOFFSET", "QTY", "INT", "LENGTH",
             "NUMINGROUP", "SEQNUM", "TAGNUM", "STRING", "COUNTRY", "CURRENCY", "EXCHANGE", "LOCALMKTDATE", "MONTHYEAR",
             "MULTIPLEVALUESTRING", "UTCDATE", "UTCTIMEONLY", "UTCTIMESTAMP"}
TypeOf(s) == IF s \in FixTypes THEN s ELSE "UNKNOWN"

SectionNames == <<"fields", "components", "header", "trailer", "messages">>
\* the parts of the document that count: of every section (the first of that name) its children
Part(root, ix, name) ==
    LET at == {i \in DOMAIN ix : ix[i] = name} IN
    IF at = {} THEN << >>
    ELSE LET kids == root.c[CHOOSE i \in at : \A j \in at : i <= j].c IN
         CASE name = "fields" -> SelectSeq(kids, LAMBDA e : e.n = "field")
           [] name = "messages" -> SelectSeq(kids, LAMBDA e : e.n = "message" \/ ToLower(e.n) = "message")
           [] OTHER -> kids
Doc(root) ==
    LET ix == [i \in DOMAIN root.c |-> ToLower(root.c[i].n)] IN
    [root |-> [a |-> root.a], has |-> Range(ix) \cap Range(SectionNames),
     sec |-> [x \in Range(SectionNames) |-> Part(root, ix, x)]]

\* ------------------------------------------------------------- the machine
EmptyTable == [f |-> << >>, q |-> {}, g |-> << >>]
\* sec: section being read (1..6), pos: next child of it, name: field name -> tag, ft, fv: by tag,
\* comps: name -> children, tabs: message type -> table, names: message names seen, stack: open elements
Start == [sec |-> 0, pos |-> 1, name |-> << >>, ft |-> << >>, fv |-> << >>, comps |-> << >>, tabs |-> << >>,
                names |-> {}, stack |-> << >>, faults |-> {}]
Fault(st, k) == [st EXCEPT !.faults = @ \cup {k}]
FaultIf(st, b, k) == IF b THEN Fault(st, k) ELSE st

ReadRoot(st, doc) == [FaultIf(st, Lacks(doc.root, <<"type", "major", "minor">>), "AttributeNotFound") EXCEPT !.sec = 1]

\* at the start of a section
Missing(st, doc) == st.pos = 1 /\ st.stack = << >> /\ SectionNames[st.sec] \notin doc.has
SkipSection(st) == [Fault(st, "XmlNodeNotFound") EXCEPT !.sec = @ + 1]
NextSection(st) == [st EXCEPT !.sec = @ + 1, !.pos = 1]

Enums(e) == SelectSeq(e.c, LAMBDA v : v.n = "value")
\* a definition with a fault still defines what it can, so that further faults are told apart
ReadField(st, e) ==
    LET named == HasAttr(e, "name")
        num == HasAttr(e, "number") /\ IsNumber(Attr(e, "number"))
        nm == Attr(e, "name")
        tag == IF num THEN Strip0(Attr(e, "number")) ELSE "?" \o nm
        vs == Enums(e)
        ok == SelectSeq(vs, LAMBDA v : HasAttr(v, "enum"))
        set == {Attr(ok[i], "enum") : i \in DOMAIN ok}
        s1 == FaultIf([st EXCEPT !.pos = @ + 1], Lacks(e, <<"name", "number", "type">>) \/ Len(ok) # Len(vs), "AttributeNotFound")
        s2 == FaultIf(s1, HasAttr(e, "number") /\ ~num, "FieldNotParsed")
        s3 == FaultIf(s2, (named /\ nm \in DOMAIN st.name) \/ (num /\ tag \in DOMAIN st.ft) \/ Cardinality(set) # Len(ok), "DuplicateField") IN
    [s3 EXCEPT !.name = IF named THEN @ @@ (nm :> tag) ELSE @,
               !.ft = IF num THEN @ @@ (tag :> IF HasAttr(e, "type") THEN TypeOf(Attr(e, "type")) ELSE "") ELSE @,
               !.fv = IF set = {} \/ ~num THEN @ ELSE @ @@ (tag :> set)]

ReadComponent(st, e) ==
    LET s0 == [st EXCEPT !.pos = @ + 1] IN
    IF Lacks(e, <<"name">>) THEN Fault(s0, "AttributeNotFound")
    ELSE [s0 EXCEPT !.comps = (Attr(e, "name") :> e.c) @@ @]

Frame(k, kids, req, id, tab) == [k |-> k, kids |-> kids, at |-> 1, req |-> req, id |-> id, first |-> "", tab |-> tab]
OpenMessage(st, e) ==
    LET s0 == [st EXCEPT !.pos = @ + 1] IN
    IF Lacks(e, <<"name", "msgcat", "msgtype">>) THEN Fault(s0, "AttributeNotFound")
    ELSE LET mt == Attr(e, "msgtype") IN
         IF mt \in DOMAIN st.tabs \ {"header", "trailer"} \/ Attr(e, "name") \in st.names THEN Fault(s0, "DuplicateMessage")
         ELSE [s0 EXCEPT !.names = @ \cup {Attr(e, "name")}, !.stack = <<Frame("msg", e.c, TRUE, mt, EmptyTable)>>]
OpenSection(st, kids) == [st EXCEPT !.pos = @ + 1, !.stack = <<Frame("msg", kids, TRUE, SectionNames[st.sec], EmptyTable)>>]

Top(st) == st.stack[Len(st.stack)]
SetTop(st, fr) == [st EXCEPT !.stack[Len(st.stack)] = fr]
Push(st, fr) == [st EXCEPT !.stack = Append(@, fr)]
First(fr, tag) == IF fr.first = "" THEN tag ELSE fr.first

\* the next child of the element on top of the stack
ReadChild(st) ==
    LET fr == Top(st)
        e == fr.kids[fr.at]
        s0 == SetTop(st, [fr EXCEPT !.at = @ + 1]) IN
    IF e.n \notin {"field", "group", "component"} THEN Fault(s0, "UnknownXmlTag")
    ELSE IF Lacks(e, <<"name", "required">>) THEN Fault(s0, "AttributeNotFound")
    ELSE IF e.n = "component" THEN
        IF Attr(e, "name") \notin DOMAIN st.comps THEN Fault(s0, "XmlNodeNotFound")
        ELSE Push(s0, Frame("comp", st.comps[Attr(e, "name")], IsReq(e), "", fr.tab))
    ELSE IF Attr(e, "name") \notin DOMAIN st.name THEN Fault(s0, "XmlNodeNotFound")
    ELSE LET tag == st.name[Attr(e, "name")]
             dup == tag \in Range(fr.tab.f)
             tab == [fr.tab EXCEPT !.f = IF dup THEN @ ELSE Append(@, tag),
                                   !.q = IF IsReq(e) /\ fr.req THEN @ \cup {tag} ELSE @]
             s1 == FaultIf(SetTop(st, [fr EXCEPT !.at = @ + 1, !.tab = tab, !.first = First(fr, tag)]), dup, "DuplicateField") IN
         IF e.n = "field" THEN s1 ELSE Push(s1, Frame("group", e.c, IsReq(e), tag, EmptyTable))
Close(st) ==
    LET fr == Top(st)
        rest == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)] IN
    CASE fr.k = "msg" -> [rest EXCEPT !.tabs = (fr.id :> fr.tab) @@ @]
      [] fr.k = "comp" -> LET up == Top(rest) IN
            SetTop(rest, [up EXCEPT !.tab = fr.tab, !.first = IF fr.first = "" THEN @ ELSE First(up, fr.first)])
      [] fr.k = "group" -> LET up == Top(rest) IN
            SetTop(rest, [up EXCEPT !.tab.g = (fr.id :> [delim |-> fr.first, in |-> fr.tab]) @@ @])

Done(st) == st.sec = 6
Step(st, doc) ==
    IF st.sec = 0 THEN ReadRoot(st, doc)
    ELSE IF st.stack # << >> THEN IF Top(st).at <= Len(Top(st).kids) THEN ReadChild(st) ELSE Close(st)
    ELSE IF Missing(st, doc) THEN SkipSection(st)
    ELSE LET nm == SectionNames[st.sec]
             kids == doc.sec[nm] IN
         IF nm \in {"header", "trailer"} THEN IF st.pos = 1 THEN OpenSection(st, kids) ELSE NextSection(st)
         ELSE IF st.pos > Len(kids) THEN NextSection(st)
         ELSE LET e == kids[st.pos] IN
              CASE nm = "fields" -> ReadField(st, e)
                [] nm = "components" -> ReadComponent(st, e)
                [] nm = "messages" -> OpenMessage(st, e)

\* ------------------------------------- the same without a machine, C14-C16
\* what names stand for: env = [field: name -> tag, comp: name -> children]
AttrsOf(es, k) == LET have == SelectSeq(es, LAMBDA e : HasAttr(e, k)) IN [i \in DOMAIN have |-> Attr(have[i], k)]
Env(doc) ==
    LET fs == SelectSeq(doc.sec["fields"], LAMBDA e : HasAttr(e, "name"))
        cs == SelectSeq(doc.sec["components"], LAMBDA e : HasAttr(e, "name")) IN
    [field |-> [x \in Range(AttrsOf(fs, "name")) |->
                  LET f == fs[CHOOSE i \in DOMAIN fs : Attr(fs[i], "name") = x] IN
                  IF HasAttr(f, "number") THEN Strip0(Attr(f, "number")) ELSE ""],
     comp |-> [x \in Range(AttrsOf(cs, "name")) |-> cs[CHOOSE i \in DOMAIN cs : Attr(cs[i], "name") = x /\ \A j \in DOMAIN cs : Attr(cs[j], "name") = x => j <= i].c]]

\* for dictionaries without a fault: what an element lists, <<tag, required there, element>>, components expanded in place
RECURSIVE Listed(_, _, _, _)
Listed(env, kids, req, i) ==
    IF i > Len(kids) THEN << >>
    ELSE LET e == kids[i] IN
         (IF e.n = "component" THEN Listed(env, env.comp[Attr(e, "name")], IsReq(e), 1)
          ELSE <<<<env.field[Attr(e, "name")], IsReq(e) /\ req, e>>>>) \o Listed(env, kids, req, i + 1)
RECURSIVE TableOf(_, _, _)
TableOf(env, kids, req) ==
    LET ls == Listed(env, kids, req, 1)
        gs == SelectSeq(ls, LAMBDA l : l[3].n = "group") IN
    [f |-> [i \in DOMAIN ls |-> ls[i][1]],
     q |-> {l[1] : l \in {x \in Range(ls) : x[2]}},
     g |-> [t \in {l[1] : l \in Range(gs)} |->
              LET e == gs[CHOOSE i \in DOMAIN gs : gs[i][1] = t][3]
                  in == TableOf(env, e.c, IsReq(e)) IN
              [delim |-> IF in.f = << >> THEN "" ELSE in.f[1], in |-> in]]]
TablesOf(doc) ==
    LET env == Env(doc)
        ms == doc.sec["messages"] IN
    [mt \in {"header", "trailer"} \cup Range(AttrsOf(ms, "msgtype")) |->
        TableOf(env, IF mt \in {"header", "trailer"} THEN doc.sec[mt]
                     ELSE ms[CHOOSE i \in DOMAIN ms : Attr(ms[i], "msgtype") = mt].c, TRUE)]

\* the faults of a dictionary, each found by looking for it (C16)
Kinds3 == {"field", "group", "component"}
Known(env, e) == Attr(e, "name") \in DOMAIN (IF e.n = "component" THEN env.comp ELSE env.field)
Sound(env, e) == e.n \in Kinds3 /\ ~Lacks(e, <<"name", "required">>) /\ Known(env, e)
RECURSIVE Below(_, _, _)
Below(env, kids, i) ==
    IF i > Len(kids) THEN {}
    ELSE LET e == kids[i] IN
         {e} \cup (IF ~Sound(env, e) \/ e.n = "field" THEN {}
                   ELSE Below(env, IF e.n = "group" THEN e.c ELSE env.comp[Attr(e, "name")], 1))
             \cup Below(env, kids, i + 1)
\* field names an element lists, with repetition
RECURSIVE NamesIn(_, _, _)
NamesIn(env, kids, i) ==
    IF i > Len(kids) THEN << >>
    ELSE LET e == kids[i] IN
         (IF ~Sound(env, e) THEN << >>
          ELSE IF e.n = "component" THEN NamesIn(env, env.comp[Attr(e, "name")], 1)
          ELSE <<Attr(e, "name")>>) \o NamesIn(env, kids, i + 1)
Repeats(s) == Cardinality(Range(s)) # Len(s)
NumbersOf(fs) == LET ns == SelectSeq(AttrsOf(fs, "number"), LAMBDA x : IsNumber(x)) IN [i \in DOMAIN ns |-> Strip0(ns[i])]
FaultsOf(doc) ==
    LET env == Env(doc)
        fs == doc.sec["fields"]
        cs == doc.sec["components"]
        ms == doc.sec["messages"]
        tops == {ms[i].c : i \in DOMAIN ms} \cup {doc.sec["header"], doc.sec["trailer"]}
        els == UNION {Below(env, t, 1) : t \in tops}
        scopes == tops \cup {e.c : e \in {x \in els : x.n = "group" /\ Sound(env, x)}} IN
    (IF \/ Lacks(doc.root, <<"type", "major", "minor">>)
        \/ \E i \in DOMAIN fs : Lacks(fs[i], <<"name", "number", "type">>) \/ \E v \in Range(Enums(fs[i])) : ~HasAttr(v, "enum")
        \/ \E i \in DOMAIN cs : Lacks(cs[i], <<"name">>)
        \/ \E i \in DOMAIN ms : Lacks(ms[i], <<"name", "msgcat", "msgtype">>)
        \/ \E e \in els : e.n \in Kinds3 /\ Lacks(e, <<"name", "required">>)
     THEN {"AttributeNotFound"} ELSE {})
    \cup (IF \E i \in DOMAIN fs : HasAttr(fs[i], "number") /\ ~IsNumber(Attr(fs[i], "number")) THEN {"FieldNotParsed"} ELSE {})
    \cup (IF \/ doc.has # Range(SectionNames)
             \/ \E e \in els : e.n \in Kinds3 /\ ~Lacks(e, <<"name", "required">>) /\ ~Known(env, e)
          THEN {"XmlNodeNotFound"} ELSE {})
    \cup (IF \/ Repeats(AttrsOf(fs, "name")) \/ Repeats(NumbersOf(fs))
             \/ \E i \in DOMAIN fs : Repeats(AttrsOf(Enums(fs[i]), "enum"))
             \/ \E k \in scopes : Repeats(NamesIn(env, k, 1))
          THEN {"DuplicateField"} ELSE {})
    \cup (IF Repeats(AttrsOf(ms, "name")) \/ Repeats(AttrsOf(ms, "msgtype")) THEN {"DuplicateMessage"} ELSE {})
    \cup (IF \E e \in els : e.n \notin Kinds3 THEN {"UnknownXmlTag"} ELSE {})
=============================================================================
