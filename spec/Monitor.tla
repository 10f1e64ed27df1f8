------------------------------- MODULE Monitor -------------------------------
(***************************************************************************)
(* A deterministic observer of the service: reads the events of a run, one *)
(* by one, and notes every violation. The same operators judge the logs of *)
(* the real acceptor (ServiceTrace) and every behaviour of the two         *)
(* specifications of the service (ServiceMC, AcceptorMC).                  *)
(*                                                                         *)
(* Events: Connect c p s mute | Send c m | Deliver s m x | Out o s x |     *)
(* Recv c o x | Close c k ("shut": the client still reads) | Eof c |       *)
(* Refused c | Cpu v | End. ms: message -> [s: session or -1 if it must    *)
(* not be delivered, x: content]; ps: session (from 0) -> port.            *)
(*                                                                         *)
(* When a connection begins to receive is not visible: somewhere between   *)
(* Connect and the first delivery of one of its messages. The messages     *)
(* sent to its session meanwhile are optional: opt counts those at the     *)
(* head of due, and as soon as one is received all later ones are due.     *)
(* Messages with the same content have no number (o = 0 when received):    *)
(* the first one that is due is taken. They are sent only to connections   *)
(* that are known to receive, so that none of them is optional.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

QueueBound == 32   \* outstanding messages per port that the code holds
MonStart == [cs |-> << >>, outs |-> << >>, np |-> << >>, sent |-> {}, viol |-> {}, dev |-> {}, nd |-> 0, nr |-> 0, bound |-> QueueBound]
Note(M, kind, k) == [M EXCEPT !.viol = @ \cup {<<kind, k>>}]
NoteIf(M, b, kind, k) == IF b THEN Note(M, kind, k) ELSE M
Known(M) == DOMAIN M.cs
PortCount(M, p) == IF p \in DOMAIN M.np THEN M.np[p] ELSE 0

MConnect(M, e) == [M EXCEPT !.cs = @ @@ (e.c :> [st |-> "open", p |-> e.p, s |-> e.s, mute |-> e.mute, q |-> << >>, due |-> << >>,
                     opt |-> 0, seen |-> FALSE, got |-> 0, bad |-> FALSE, lag |-> FALSE, pos |-> PortCount(M, e.p), asked |-> 0])]
MSend(M, e, ms) == [M EXCEPT !.cs[e.c].q = Append(@, e.m), !.cs[e.c].bad = @ \/ ms[e.m].s < 0, !.sent = @ \cup {e.m}]

RECURSIVE SkipBad(_, _)
SkipBad(q, ms) == IF q # << >> /\ ms[Head(q)].s < 0 THEN SkipBad(Tail(q), ms) ELSE q
Index(q, m) == IF \E i \in DOMAIN q : q[i] = m THEN CHOOSE i \in DOMAIN q : q[i] = m ELSE 0
MDeliver(M0, e, ms, k) ==
    LET M == [M0 EXCEPT !.nd = @ + 1]
        at == {c \in Known(M) : Index(M.cs[c].q, e.m) > 0} IN
    IF e.m \notin DOMAIN ms THEN Note(M, "bad delivered", k)
    ELSE IF ms[e.m].s < 0 THEN Note(M, "bad delivered", k)
    ELSE IF at = {} THEN Note(M, IF e.m \in M.sent THEN "twice" ELSE "before it was sent", k)
    ELSE LET c == CHOOSE x \in at : TRUE
             q == SkipBad(M.cs[c].q, ms)
             i == Index(q, e.m)
             N == [M EXCEPT !.cs[c].q = SubSeq(q, i + 1, Len(q)), !.cs[c].seen = TRUE] IN
         NoteIf(NoteIf(NoteIf(N, i > 1, "lost or out of order", k), e.s # ms[e.m].s, "wrong session", k), e.x # ms[e.m].x, "altered", k)

MOut(M, e, ps) ==
    LET p == ps[e.s + 1]
        n == PortCount(M, p) + 1 IN
    [M EXCEPT !.outs = Append(@, [s |-> e.s, x |-> e.x, n |-> n]),
              !.np = (p :> n) @@ @,
              !.cs = [c \in DOMAIN @ |-> LET r == @[c] IN
                        IF r.p # p \/ r.st # "open" \/ r.mute THEN r
                        ELSE [r EXCEPT !.due = IF r.s = e.s THEN Append(@, e.o) ELSE @,
                                       !.opt = IF r.s = e.s /\ ~r.seen /\ r.got = 0 THEN @ + 1 ELSE @,
                                       !.asked = IF r.s = e.s /\ (r.seen \/ r.got > 0) THEN @ + 1 ELSE @,
                                       !.lag = @ \/ n - r.pos > M.bound]]]

\* e with the number of the message: one without a number is the first of those due with its content
Numbered(M, e) ==
    IF e.o # 0 THEN e
    ELSE LET due == M.cs[e.c].due
             here == {i \in DOMAIN due : M.outs[due[i]].x = e.x}
             any == {o \in DOMAIN M.outs : M.outs[o].x = e.x} IN
         IF here # {} THEN [e EXCEPT !.o = due[CHOOSE i \in here : \A j \in here : i <= j]]
         ELSE IF any # {} THEN [e EXCEPT !.o = CHOOSE o \in any : TRUE]
         ELSE e

MRecv(M0, e0, ps, k) ==
    LET M == [M0 EXCEPT !.nr = @ + 1]
        r == M.cs[e0.c]
        e == Numbered(M0, e0) IN
    IF e.o \notin DOMAIN M.outs \/ M.outs[e.o].x # e.x THEN Note(M, "reply altered", k)
    ELSE LET o == M.outs[e.o]
             P == [M EXCEPT !.cs[e.c].pos = IF o.n > @ /\ ps[o.s + 1] = r.p THEN o.n ELSE @, !.cs[e.c].got = @ + 1]
             i == Index(r.due, e.o) IN
         IF o.s # r.s THEN IF ps[o.s + 1] # r.p THEN Note(P, "crossed ports", k) ELSE [P EXCEPT !.dev = @ \cup {"same-port"}]
         ELSE IF r.st # "open" THEN P
         ELSE IF i = 0 THEN Note(P, "reply twice or out of order", k)
         ELSE NoteIf([P EXCEPT !.cs[e.c].due = SubSeq(r.due, i + 1, Len(r.due)), !.cs[e.c].opt = 0], i > r.opt + 1,
                     "reply lost or out of order", k)

MClose(M, e) == [M EXCEPT !.cs[e.c].st = IF e.k = "shut" THEN "shut" ELSE "closed"]
MEof(M, e, k) == IF M.cs[e.c].st # "open" THEN M
                 ELSE NoteIf([M EXCEPT !.cs[e.c].st = "eof", !.dev = IF M.cs[e.c].lag THEN @ \cup {"lag"} ELSE @],
                             ~M.cs[e.c].bad /\ ~M.cs[e.c].lag, "closed", k)

\* nothing happens any more: what is still outstanding, of the messages sent up to the o-th
MEnd(M, e, ms, k) ==
    LET \* the service closed the connection of a client that had done nothing wrong: it still owes what was outstanding
        Cut(r) == r.st = "eof" /\ ~r.bad /\ ~r.lag
        Owed(c) == LET r == M.cs[c] IN (r.st \in {"open", "shut"} \/ Cut(r)) /\ SkipBad(r.q, ms) # << >>
        Unpaid(c) == LET r == M.cs[c] IN (r.st = "open" \/ Cut(r)) /\ ~r.mute /\ Len(r.due) > r.opt /\ r.due[r.opt + 1] <= e.o
        late == {c \in Known(M) : Unpaid(c) /\ M.cs[c].lag}
        M1 == NoteIf(M, \E c \in Known(M) : Owed(c), "undelivered", k)
        M2 == NoteIf(M1, \E c \in Known(M) : Unpaid(c) /\ ~M.cs[c].lag, "reply missing", k)
        M3 == NoteIf(M2, \E c \in Known(M) : \/ Owed(c) /\ ~M.cs[c].seen
                                             \/ Unpaid(c) /\ ~M.cs[c].lag /\ M.cs[c].got = 0 /\ M.cs[c].asked > 1, "unserved", k) IN
    IF late = {} THEN M3 ELSE [M3 EXCEPT !.dev = @ \cup {"lag"}]

MStep(M, e, ms, ps, k) ==
    CASE e.e = "Connect" -> MConnect(M, e)
      [] e.e = "Send" -> MSend(M, e, ms)
      [] e.e = "Deliver" -> MDeliver(M, e, ms, k)
      [] e.e = "Out" -> MOut(M, e, ps)
      [] e.e = "Recv" -> MRecv(M, e, ps, k)
      [] e.e = "Close" -> MClose(M, e)
      [] e.e = "Eof" -> MEof(M, e, k)
      [] e.e = "Refused" -> Note([M EXCEPT !.cs[e.c].st = "refused"], "refused", k)
      [] e.e = "Cpu" -> NoteIf(M, e.v > 500, "busy", k)
      [] e.e = "End" -> MEnd(M, e, ms, k)
      [] OTHER -> M

\* the property a violation belongs to
KindsOf(prop) ==
    CASE prop = "C17" -> {"twice", "before it was sent", "lost or out of order", "wrong session", "altered", "undelivered"}
      [] prop = "C18" -> {"bad delivered", "closed"}
      [] prop = "C19" -> {"reply altered", "reply twice or out of order", "reply lost or out of order", "reply missing"}
      [] prop = "C20" -> {"crossed ports"}
      [] prop = "C21" -> {"refused", "unserved", "busy", "closed"}
=============================================================================
