----------------------------- MODULE AcceptorMC -----------------------------
(***************************************************************************)
(* Small instances of the acceptor: it refines the service, the observer   *)
(* has no complaint, and everything that arrives is dealt with in the end. *)
(***************************************************************************)
EXTENDS Acceptor, Monitor
CONSTANTS Layout, MaxSend, MaxConn
VARIABLES mon, nsent
mvars == <<st, wire, bound, backlog, reader, buf, queue, app, bq, sub, writer, back, nouts, outs, ev, mon, nsent>>

POf == [s \in Sess |-> IF Layout = "two ports" THEN s ELSE 0]
MineOf == [c \in Conns |-> IF Layout = "same session" THEN 0 ELSE c % Cardinality(Sess)]
\* the application answers messages of session 0 and tells both sessions about those of session 1
RepliesOf == [s \in Sess |-> IF s = 0 THEN <<0>> ELSE <<1, 0>>]
Id(c, i) == 10 * c + i
MsgIds == {Id(c, i) : c \in Conns, i \in 1..MaxSend}
\* messages: 12 does not parse, 21 is of an unknown session, 0 is what garbage is
SessOfMsg(m) == IF m < 10 \/ m % 4 = 0 THEN -1 ELSE IF m % 7 = 0 THEN -2 ELSE MineOf[m \div 10]
Table == [m \in MsgIds |-> [s |-> SessOfMsg(m), x |-> ""]]
PS == [i \in 1..Cardinality(Sess) |-> POf[i - 1]]
HalfId(c) == 10 * c + 9

MCInit == AInit /\ mon = MonStart /\ nsent = [c \in Conns |-> 0]
Watch == mon' = IF ev'.e = "tau" THEN mon ELSE MStep(mon, ev', Table, PS, 0)
Clients == \/ \E c \in Conns : (AConnect(c) \/ ARecv(c) \/ WriteFails(c) \/ ALeave(c, 0) \/ ALeave(c, HalfId(c))) /\ UNCHANGED nsent
           \/ \E c \in Conns : nsent[c] < MaxSend /\ ASend(c, Id(c, nsent[c] + 1)) /\ nsent' = [nsent EXCEPT ![c] = @ + 1]
MCNext == ((Working /\ UNCHANGED nsent) \/ Clients) /\ Watch
MCSpec == MCInit /\ [][MCNext]_mvars
Fair == MCSpec /\ WF_mvars(Working /\ UNCHANGED nsent /\ Watch) /\ \A c \in Conns : WF_mvars(ARecv(c) /\ UNCHANGED nsent /\ Watch)

Refines == [][S!Next]_S!svars
Quiet == mon.viol = {} /\ ((Layout # "one port" \/ "filter" \in Bugs) => mon.dev = {})
QuietEnd == Stopped => MEnd(mon, [o |-> 1000], Table, 0).viol = {}
NotLagging == \A c \in Conns : writer[c] = "done" => st[c] = "left"
\* C17, C21: in the end the application has everything and no client's messages wait
Settles == \A c \in Conns : (Messages(wire[c], 1) # << >>) ~> (Messages(wire[c], 1) = << >> /\ buf[c] = << >>)
ViewNoEv == <<st, wire, bound, backlog, reader, buf, queue, app, bq, sub, writer, back, nouts, outs, mon, nsent>>
=============================================================================
