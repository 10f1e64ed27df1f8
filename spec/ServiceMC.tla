----------------------------- MODULE ServiceMC -----------------------------
(***************************************************************************)
(* The service with a bounded environment, watched by the observer: the    *)
(* observer never complains, so a complaint about a log means that the log *)
(* is no behaviour of the service.                                         *)
(***************************************************************************)
EXTENDS Service, Monitor
CONSTANTS MaxSend, MaxOut
CONSTANT Layout
POf == [s \in Sess |-> IF Layout = "one port" THEN 0 ELSE s]
MineOf == [c \in Conns |-> IF Layout = "same session" THEN 0 ELSE c % Cardinality(Sess)]
VARIABLES mon, nsent
mvars == <<st, sent, joined, due, outs, ev, mon, nsent>>

\* the messages of a connection: numbered over all connections; every third one is bad
Id(c, i) == 10 * c + i
MsgIds == {Id(c, i) : c \in Conns, i \in 1..MaxSend}
SessOf(m) == IF m % 3 = 0 THEN -1 ELSE Mine[m \div 10]
Table == [m \in MsgIds |-> [s |-> SessOf(m), x |-> ""]]
PS == [i \in 1..Cardinality(Sess) |-> PortOf[i - 1]]

MCInit == Init /\ mon = MonStart /\ nsent = [c \in Conns |-> 0]
Watch == mon' = IF ev'.e = "tau" THEN mon ELSE MStep(mon, ev', Table, PS, 0)
Env == \/ \E c \in Conns : (Connect(c) \/ Recv(c) \/ Leave(c)) /\ UNCHANGED nsent
       \/ \E c \in Conns : nsent[c] < MaxSend /\ Send(c, Id(c, nsent[c] + 1), SessOf(Id(c, nsent[c] + 1)))
                           /\ nsent' = [nsent EXCEPT ![c] = @ + 1]
       \/ Len(outs) < MaxOut /\ \E s \in Sess : Out(s) /\ UNCHANGED nsent
MCNext == ((Server /\ UNCHANGED nsent) \/ Env) /\ Watch
MCSpec == MCInit /\ [][MCNext]_mvars

Quiet == mon.viol = {} /\ (Siblings \/ mon.dev = {})
\* when everything is done, nothing is outstanding for the observer either
QuietEnd == Settled /\ (\A c \in Conns : st[c] = "open" => due[c] = << >>) => MEnd(mon, [o |-> 1000], Table, 0).viol = {}
\* and something that must be done is missed if it is not
Sharp == (\E c \in Conns : \E i \in DOMAIN sent[c] : sent[c][i].s >= 0) => "undelivered" \in {v[1] : v \in MEnd(mon, [o |-> 1000], Table, 0).viol}
ViewNoEv == <<st, sent, joined, due, outs, mon, nsent>>
=============================================================================
