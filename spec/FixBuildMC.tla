----------------------------- MODULE FixBuildMC -----------------------------
(***************************************************************************)
(* All histories of a few operations on two messages. Checks that every    *)
(* message can be written and, as far as the dictionary allows it, read    *)
(* back (every linearisation the writer may choose is accepted by the      *)
(* parser machine and gives the message again), that operations change     *)
(* nothing else, and prints the histories for replay.                      *)
(***************************************************************************)
EXTENDS FixBuild, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
Ops == In.ops          \* operations: as steps of a history
MaxOps == In.maxops
D == In.dict
PrintIt == In.print = "1"

VARIABLES regs, hist
vars == <<regs, hist>>

Base == [h |-> Put(Put(Put(Fresh(<<"8", "9", "35">>), "8", "FIX.4.3"), "9", "5"), "35", "D"),
         b |-> Fresh(<< >>), t |-> Fresh(<< >>), len |-> FALSE, sum |-> FALSE]
Init == regs = [i \in 0..1 |-> Base] /\ hist = << >>

Do(x) == LET s == Ops[x] IN
    /\ Len(hist) < MaxOps
    /\ hist' = Append(hist, x)
    /\ regs' = CASE s.o = "clone" -> [regs EXCEPT ![s.m] = regs[s.from]]
                 [] s.o = "set" -> [regs EXCEPT ![s.m][s.s] = Put(@, s.t, s.v)]
                 [] s.o = "grp" -> [regs EXCEPT ![s.m][s.s] = SetGroup(@, s)]
Next == \E x \in DOMAIN Ops : Do(x)
Spec == Init /\ [][Next]_vars

\* no operation touches another message or another section
Isolated == [][\A x \in DOMAIN Ops : hist' = Append(hist, x) =>
                LET s == Ops[x] IN
                /\ regs'[1 - s.m] = regs[1 - s.m]
                /\ s.o # "clone" => \A c \in {"h", "b", "t"} \ {s.s} : regs'[s.m][c] = regs[s.m][c]
                /\ s.o # "clone" => \A p \in regs[s.m][s.s].f : p[1] # s.t => p \in regs'[s.m][s.s].f]_vars

\* all texts the writer may produce, as field sequences
Perms(fm, last) ==
    LET T == TagSet(fm) IN
    {p \in SetToSeqs(T) : TRUE
        /\ \A i \in 1..Len(p) : MayFollow(fm, p[i], {p[j] : j \in i..Len(p)}, last)}
RECURSIVE Lin(_, _), Cat(_), Expand(_, _, _)
\* the set of linearisations of a field map
Lin(fm, last) == UNION {Expand(fm, p, 1) : p \in Perms(fm, last)}
Cat(insts) == IF insts = << >> THEN {<< >>}
              ELSE {a \o b : a \in Lin(insts[1], {}), b \in Cat(Tail(insts))}
Expand(fm, p, i) ==
    IF i > Len(p) THEN {<< >>}
    ELSE LET gs == {g \in fm.g : g[1] = p[i]}
             heads == IF gs = {} THEN {<< >>} ELSE Cat((CHOOSE g \in gs : TRUE)[2]) IN
         {<<[t |-> p[i], v |-> ValueOf(fm, p[i])]>> \o a \o b : a \in heads, b \in Expand(fm, p, i + 1)}
Texts(m) == {a \o b \o c : a \in Lin(m.h, {}), b \in Lin(m.b, {}), c \in Lin(m.t, {"10"})}

RECURSIVE Plain(_)
Plain(fm) == [f |-> fm.f, g |-> {<<g[1], [i \in 1..Len(g[2]) |-> Plain(g[2][i])]>> : g \in fm.g}]

\* the dictionary allows what the field map holds; the instances carry the dictionary's order
RECURSIVE Allowed(_, _)
Allowed(items, fm) ==
    /\ \A p \in fm.f : p[1] \in TagsOf(items) /\ p[2] # "" /\ (IsGroup(items, p[1]) => \E g \in fm.g : g[1] = p[1])
    /\ \A g \in fm.g : IsGroup(items, g[1]) /\ LET sub == SubItems(items, g[1]) IN
          \A i \in DOMAIN g[2] : /\ g[2][i].o = [j \in 1..Len(sub) |-> sub[j].t]
                                 /\ HasTag(g[2][i], Delim(sub))
                                 /\ Allowed(sub, g[2][i])
Conformant(m) == Allowed(D.hdr, m.h) /\ Allowed(MsgItems(D, "D"), m.b) /\ Allowed(D.trl, m.t)

RoundTrip == \A i \in 0..1 : Conformant(regs[i]) =>
    \A x \in Texts(regs[i]) : LET r == ParseFields(D, x) IN
        /\ r.rej = ""
        /\ \A c \in {"h", "b", "t"} : r.fm[c] = Plain(regs[i][c])
LayoutsExist == \A i \in 0..1 : \A x \in Texts(regs[i]) : GoodLayout(regs[i], x)
\* for coverage: some messages are conformant and hold nested groups
Interesting == \E i \in 0..1 : Conformant(regs[i]) /\ regs[i].b.g # {}
NotVacuous == Interesting => PrintT(<<"I", 1>>)

Emit == PrintIt /\ Len(hist) = MaxOps =>
    PrintT(<<"E", ToJson([s |-> hist, m |-> [i \in 1..2 |-> [h |-> Plain(regs[i-1].h), b |-> Plain(regs[i-1].b), t |-> Plain(regs[i-1].t)]]])>>)
=============================================================================
