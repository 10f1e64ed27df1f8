--------------------------- MODULE FixBuildTrace ---------------------------
(***************************************************************************)
(* Validates histories of message operations: every log entry holds the    *)
(* operations and what was observed; the machine carries out the           *)
(* operations on its messages and compares every observation. BodyLength,  *)
(* CheckSum and SendingTime are the only values taken over from the code:  *)
(* the machine does not predict the bytes of unordered fields but checks   *)
(* the numbers against the bytes written (Lengths).                        *)
(***************************************************************************)
EXTENDS FixBuild, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
SOH == In.soh
Log == In.log

VARIABLES n,     \* log entry
          k,     \* step of its history
          regs,  \* the messages
          bad    \* number of the first step whose observation does not match, 0 if none
vars == <<n, k, regs, bad>>

Init == n \in 1..Len(Log) /\ k = 1 /\ regs = << >> /\ bad = 0

S == Log[n].steps[k]
O == Log[n].obs[k]
Reg == regs[ToString(S.m)]
SetReg(m) == regs' = (ToString(S.m) :> m) @@ regs
Sect == IF "via" \in DOMAIN S /\ S.via = "msg" THEN "b" ELSE S.s

Op(o) == k <= Len(Log[n].steps) /\ bad = 0 /\ S.o = o
Good1 == k' = k + 1 /\ UNCHANGED <<n, bad>>
Obs(ok) == /\ IF ok THEN k' = k + 1 /\ UNCHANGED bad ELSE k' = Len(Log[n].steps) + 1 /\ bad' = k
           /\ UNCHANGED <<n, regs>>

RECURSIVE FMOf(_)
FMOf(d) == [f |-> {<<d.f[i][1], d.f[i][2]>> : i \in DOMAIN d.f},
            g |-> {<<d.g[i][1], [j \in 1..Len(d.g[i][2]) |-> FMOf(d.g[i][2][j])]>> : i \in DOMAIN d.g}]
RECURSIVE Plain(_)
Plain(fm) == [f |-> fm.f, g |-> {<<g[1], [i \in 1..Len(g[2]) |-> Plain(g[2][i])]>> : g \in fm.g}]
Same(m, d) == Plain(m.h) = FMOf(d.h) /\ Plain(m.b) = FMOf(d.b) /\ Plain(m.t) = FMOf(d.t)

New == Op("new") /\ SetReg(NewMessage) /\ Good1
\* a text the code accepted (which texts it must accept is FixParse's business)
LoadOp == Op("load") /\ LET l == Lex(S.x, 1, SOH, << >>)
                            r == ParseFields(In.dicts[S.d], l[2]) IN
          /\ l[1] = "ok" /\ r.rej = ""
          /\ SetReg(Loaded(In.dicts[S.d], r.fm)) /\ Good1
CloneOp == Op("clone") /\ SetReg(regs[ToString(S.from)]) /\ Good1
SetOp == Op("set") /\ SetReg(Changed([Reg EXCEPT ![Sect] = Put(@, S.t, S.v)])) /\ Good1
GrpOp == Op("grp") /\ SetReg(Changed([Reg EXCEPT ![Sect] = SetGroup(@, S)])) /\ Good1
OrderOp == Op("order") /\ SetReg(Changed([Reg EXCEPT ![Sect].o = S.order])) /\ Good1
\* the numbers are observed (O.v), checked when the text is seen
LenOp == Op("len") /\ SetReg([Reg EXCEPT !.h = Put(@, "9", O.v), !.len = TRUE, !.sum = FALSE]) /\ Good1
SumOp == Op("sum") /\ SetReg([Reg EXCEPT !.t = Put(@, "10", O.v), !.sum = Reg.len]) /\ Good1
TimeOp == Op("time") /\ SetReg(Changed([Reg EXCEPT !.h = Put(@, "52", O.v)])) /\ Good1
\* In.wide: the single characters which TLC takes for two
GetAs(fm) == IF S.ty = "char" /\ HasTag(fm, S.t) /\ \E i \in DOMAIN In.wide : In.wide[i] = ValueOf(fm, S.t)
             THEN Good(ValueOf(fm, S.t)) ELSE GetField(fm, S.t, S.ty)
Get == Op("get") /\ LET w == Walk(Reg[Sect], S.path, 1) IN
          Obs(IF w = << >> THEN O.v = <<"nopath">> ELSE O.v = GetAs(w[1]))
SizeOp == Op("size") /\ LET w == Walk(Reg[Sect], S.path, 1)
                            gs == IF w = << >> THEN {} ELSE {g \in w[1].g : g[1] = S.t} IN
          Obs(O.v = IF gs = {} THEN 0 - 1 ELSE Len((CHOOSE g \in gs : TRUE)[2]))
DumpOp == Op("dump") /\ Obs(Same(Reg, O.v))
PrintOp == Op("print") /\ Obs(
    LET toks == Fields(O.v, 1, SOH, << >>) IN
    /\ In.prop # "C07" => GoodLayout(Reg, toks) /\ (O.v = "" \/ Ch(O.v, Len(O.v)) = SOH)
    /\ In.prop = "C07" => (Reg.len /\ Reg.sum => Lengths(Reg, O.bs)))
\* a value of n times the same text; the text written is seen as runs of bytes
FillOp == Op("fill") /\ SetReg(Changed([Reg EXCEPT ![S.s] = Put(@, S.t, "")])) /\ Good1
RunsOp == Op("runs") /\ Obs(Reg.len /\ Reg.sum => RunLengths(Reg, O.v))
\* C08: written and parsed again, the message is the same
Reparse == Op("reparse") /\ Obs(O.v.r = "ok" /\ Same(Reg, O.v.m))

Next == New \/ LoadOp \/ CloneOp \/ SetOp \/ GrpOp \/ OrderOp \/ LenOp \/ SumOp \/ TimeOp \/ Get \/ SizeOp \/ DumpOp \/ PrintOp \/ Reparse \/ FillOp \/ RunsOp
Spec == Init /\ [][Next]_vars
View == <<n, k, bad>>

RECURSIVE Exp(_)
Exp(fm) == [f |-> fm.f, g |-> {<<g[1], [i \in 1..Len(g[2]) |-> Exp(g[2][i])]>> : g \in fm.g}]
Report == k > Len(Log[n].steps) =>
    IF bad = 0 THEN PrintT(<<"D", n>>)
    ELSE PrintT(<<"X", ToJson([n |-> n, bad |-> bad,
             reg |-> LET r == regs[ToString(Log[n].steps[bad].m)] IN [h |-> Exp(r.h), b |-> Exp(r.b), t |-> Exp(r.t)]])>>)
=============================================================================
