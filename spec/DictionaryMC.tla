---------------------------- MODULE DictionaryMC ----------------------------
(***************************************************************************)
(* Dictionaries enumerated: mode "shapes", every message of a small        *)
(* universe; mode "faults", every single change (pairs of them, if         *)
(* In.pairs) at every place of one dictionary. The machine reads each      *)
(* one; what it computes is compared with the definitions and emitted for  *)
(* replay into the code.                                                   *)
(***************************************************************************)
EXTENDS Dictionary, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
VARIABLES root,  \* the XML
          doc,   \* the parts of it that count
          mut,   \* how it was changed
          st     \* the loader
vars == <<root, doc, mut, st>>

El(n, a, c) == [n |-> n, a |-> a, c |-> c]
YN == {"Y", "N"}
Field(nm, r) == El("field", <<<<"name", nm>>, <<"required", r>>>>, << >>)
Comp(nm, r) == El("component", <<<<"name", nm>>, <<"required", r>>>>, << >>)
Group(nm, r, kids) == El("group", <<<<"name", nm>>, <<"required", r>>>>, kids)
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

\* ------------------------------------------------------------------ shapes
Leaf == {Field(nm, r) : nm \in {"a", "b"}, r \in YN} \cup {Comp("K", r) : r \in YN}
Sub == {Group("h", r, <<x>>) : r \in YN, x \in Leaf}
Inner == Seqs(Leaf, 1, 2) \cup {<<x, y>> : x \in Sub, y \in Leaf} \cup {<<y, x>> : x \in Sub, y \in Leaf}
Top1 == Leaf \cup {Group("g", r, k) : r \in YN, k \in Inner}
Small == Leaf \cup {z \in Top1 \ Leaf : Len(z.c) = 1}
Single == Seqs(Top1, 1, 1) \cup Seqs(Leaf, 2, 2) \cup {<<x, y>> : x \in Leaf, y \in Small}
Double == {<<x, y>> : x \in Small, y \in Top1} \cup {<<y, x>> : x \in Small, y \in Top1}
ContentSeq == <<<< >>, <<Field("c", "Y")>>, <<Field("c", "N"), Field("d", "Y")>>,
             <<Group("h", "Y", <<Field("c", "Y")>>)>>, <<Group("k", "N", <<Field("c", "Y"), Comp("L", "Y")>>)>>,
             <<Comp("L", "N"), Field("c", "Y")>>, <<Comp("L", "Y")>>, <<Field("b", "Y"), Comp("L", "Y")>>>>
Contents == Range(ContentSeq)
Tags == <<<<"a", "101">>, <<"b", "7">>, <<"c", "42">>, <<"d", "9001">>, <<"e", "12">>, <<"g", "73">>, <<"h", "78">>, <<"k", "555">>,
          <<"x", "8">>, <<"y", "9">>, <<"z", "35">>, <<"w", "10">>>>
Shape(m, where, k) ==
    El("fix", <<<<"type", "FIX">>, <<"major", "4">>, <<"minor", "3">>>>,
       <<El("header", << >>, <<Field("x", "Y"), Field("y", "Y"), Field("z", "Y")>> \o (IF where = "header" THEN m ELSE << >>)),
         El("trailer", << >>, <<Field("w", "Y")>>),
         El("messages", << >>, <<El("message", <<<<"name", "M">>, <<"msgcat", "app">>, <<"msgtype", "D">>>>,
                                    IF where = "body" THEN m ELSE <<Field("a", "N")>>)>>),
         El("components", << >>, <<El("component", <<<<"name", "K">>>>, k),
                                   El("component", <<<<"name", "L">>>>, <<Field("e", "Y")>>)>>),
         El("fields", << >>, [i \in DOMAIN Tags |-> El("field", <<<<"number", Tags[i][2]>>, <<"name", Tags[i][1]>>, <<"type", "STRING">>>>, << >>)])>>)

\* ------------------------------------------------------------------ faults
RECURSIVE Paths(_)
Paths(e) == {<< >>} \cup UNION {{<<i>> \o p : p \in Paths(e.c[i])} : i \in DOMAIN e.c}
RECURSIVE At(_, _)
At(e, p) == IF p = << >> THEN e ELSE At(e.c[p[1]], Tail(p))
RECURSIVE Put(_, _, _)
Put(e, p, x) == IF p = << >> THEN x ELSE [e EXCEPT !.c[p[1]] = Put(@, Tail(p), x)]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Twice(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Kinds == {"drop", "empty", "swap", "bad", "remove", "repeat", "rename", "last"}
\* the values of the same attribute in the sibling before
Sibling(e, p) == At(e, Append(Parent(p), p[Len(p)] - 1))
Muts(e) == {m \in [p : Paths(e), k : Kinds, i : 0..4] :
               LET x == At(e, m.p) IN
               CASE m.k \in {"drop", "empty", "bad"} -> m.i \in DOMAIN x.a
                 [] m.k = "swap" -> /\ m.i \in DOMAIN x.a /\ m.p # << >> /\ m.p[Len(m.p)] > 1
                                    /\ m.i \in DOMAIN Sibling(e, m.p).a /\ Sibling(e, m.p).a[m.i][1] = x.a[m.i][1]
                 [] m.k \in {"remove", "repeat", "last"} -> m.i = 0 /\ m.p # << >>
                 [] m.k = "rename" -> m.i = 0 /\ m.p # << >>}
Apply(e, m) ==
    LET x == At(e, m.p)
        up == At(e, Parent(m.p))
        j == m.p[Len(m.p)] IN
    CASE m.k = "drop" -> Put(e, m.p, [x EXCEPT !.a = Without(@, m.i)])
      [] m.k = "empty" -> Put(e, m.p, [x EXCEPT !.a[m.i] = <<@[1], "">>])
      [] m.k = "bad" -> Put(e, m.p, [x EXCEPT !.a[m.i] = <<@[1], IF @[1] = "number" THEN "4294967296" ELSE "other">>])
      [] m.k = "swap" -> Put(e, m.p, [x EXCEPT !.a[m.i] = Sibling(e, m.p).a[m.i]])
      [] m.k = "remove" -> Put(e, Parent(m.p), [up EXCEPT !.c = Without(@, j)])
      [] m.k = "repeat" -> Put(e, Parent(m.p), [up EXCEPT !.c = Twice(@, j)])
      \* repeated far from the first
      [] m.k = "last" -> Put(e, Parent(m.p), [up EXCEPT !.c = Append(@, x)])
      [] m.k = "rename" -> Put(e, m.p, [x EXCEPT !.n = "other"])

Init == /\ \/ In.mode = "shapes" /\ mut = << >>
              /\ \/ \E m \in Single, k \in Contents, w \in (IF In.big THEN {"body", "header"} ELSE {"body"}) : root = Shape(m, w, k)
                 \/ In.big /\ \E m \in Double, k \in Range(In.contents) : root = Shape(m, "body", ContentSeq[k])
           \/ In.mode = "faults" /\ \E m \in Muts(In.base) : mut = <<m>> /\ root = Apply(In.base, m)
        /\ doc = Doc(root) /\ st = Start
More == In.mode = "faults" /\ In.pairs /\ Len(mut) = 1 /\ st.sec = 0
        /\ \E m \in Muts(root) : m.k \in Range(In.second) /\ mut' = Append(mut, m) /\ root' = Apply(root, m) /\ doc' = Doc(root') /\ st' = st
Next == More \/ (~Done(st) /\ st' = Step(st, doc) /\ UNCHANGED <<root, doc, mut>>)
Spec == Init /\ [][Next]_vars

TypeOK == st.sec \in 0..6
\* (the machine does not read the content of a message it has refused)
FaultsAgree == Done(st) => IF Len(mut) < 2 THEN st.faults = FaultsOf(doc)
                           ELSE st.faults \subseteq FaultsOf(doc) /\ (st.faults = {} <=> FaultsOf(doc) = {})
TablesAgree == Done(st) /\ st.faults = {} => st.tabs = TablesOf(doc)
\* C15: a delimiter is the first of the fields of its group; C14: required fields are fields
RECURSIVE Sane(_)
Sane(t) == /\ t.q \subseteq Range(t.f) /\ DOMAIN t.g \subseteq Range(t.f)
           /\ \A x \in DOMAIN t.g : t.g[x].in.f # << >> => t.g[x].delim = t.g[x].in.f[1]
           /\ \A x \in DOMAIN t.g : Sane(t.g[x].in)
TablesSane == Done(st) /\ st.faults = {} => \A mt \in DOMAIN st.tabs : Sane(st.tabs[mt])
Emit == Done(st) => PrintT(<<"E", ToJson([root |-> root, mut |-> mut, faults |-> st.faults,
    types |-> DOMAIN st.tabs, tags |-> DOMAIN st.ft,
    tabs |-> IF st.faults = {} THEN st.tabs ELSE << >>, ft |-> st.ft, fv |-> st.fv])>>)
=============================================================================
