----------------------------- MODULE PipeTrace -----------------------------
(***************************************************************************)
(* Validates logs of connections: cfg: the configuration they belong to,   *)
(* s: the bytes written (as text), got: what the application was handed.   *)
(***************************************************************************)
EXTENDS Pipe, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.LOG)
SOH == In.soh
Log == In.log
Sess == [c \in DOMAIN In.cfgs |-> SessionsOf(In.cfgs[c].secs)]

RECURSIVE FMOf(_)
FMOf(d) == [f |-> {<<d.f[i][1], d.f[i][2]>> : i \in DOMAIN d.f},
            g |-> {<<d.g[i][1], [j \in 1..Len(d.g[i][2]) |-> FMOf(d.g[i][2][j])]>> : i \in DOMAIN d.g}]
Given(x) == [s |-> x.s, m |-> [h |-> FMOf(x.h), b |-> FMOf(x.b), t |-> FMOf(x.t)]]

\* at: where the next piece begins; k: messages handed over so far; bad: the first piece that was not
VARIABLES n, at, k, bad, done
vars == <<n, at, k, bad, done>>
Init == n \in 1..Len(Log) /\ at = 1 /\ k = 0 /\ bad = << >> /\ done = FALSE
Piece ==
    LET E == Log[n]
        e == PieceEnd(E.s, at, SOH)
        p == SubSeq(E.s, at, e)
        m == Meaning(p, Sess[E.cfg], In.cfgs[E.cfg].dicts, SOH) IN
    /\ ~done /\ e # 0
    /\ at' = e + 1
    /\ IF m = << >> THEN UNCHANGED <<k, bad, done>>
       ELSE IF k < Len(E.got) /\ Given(E.got[k + 1]) = m[1] THEN k' = k + 1 /\ UNCHANGED <<bad, done>>
       ELSE bad' = <<p, ToString(m[1])>> /\ done' = TRUE /\ UNCHANGED k
    /\ UNCHANGED n
End == /\ ~done /\ PieceEnd(Log[n].s, at, SOH) = 0
       /\ done' = TRUE /\ bad' = (IF k = Len(Log[n].got) THEN << >> ELSE <<"", "no more messages">>)
       /\ UNCHANGED <<n, at, k>>
Next == Piece \/ End
Spec == Init /\ [][Next]_vars
View == <<n, at, done>>
Report == done => IF bad = << >> THEN PrintT(<<"D", n, k>>)
                  ELSE PrintT(<<"X", ToJson([n |-> n, k |-> k, piece |-> bad[1], want |-> bad[2]])>>)
=============================================================================
