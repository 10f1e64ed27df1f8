------------------------------- MODULE Service -------------------------------
(***************************************************************************)
(* The acceptor as its users see it (C17-C21): clients connect to ports,   *)
(* write messages and leave; the application is handed messages and sends  *)
(* messages to sessions.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Sess,        \* sessions, numbered from 0
          PortOf,      \* session -> port
          Conns,       \* connections, each used once
          Mine,        \* connection -> session of its client
          Msgs,        \* the messages clients may write
          Siblings     \* a message is also written to the other connections of the port (known finding C20)

VARIABLES st,      \* connection -> "none", "open", "left"
          sent,    \* connection -> messages written and not yet handed over or dropped: [m, s], s = -1: bad
          joined,  \* connection -> receives what is sent to its session
          due,     \* connection -> numbers of the messages still to be written to it
          outs,    \* all messages sent by the application: their sessions
          ev       \* what can be observed of the last step
svars == <<st, sent, joined, due, outs, ev>>

Port(c) == PortOf[Mine[c]]
Tau == [e |-> "tau"]
Init == /\ st = [c \in Conns |-> "none"] /\ sent = [c \in Conns |-> << >>] /\ joined = [c \in Conns |-> FALSE]
        /\ due = [c \in Conns |-> << >>] /\ outs = << >> /\ ev = Tau

Connect(c) == /\ st[c] = "none" /\ st' = [st EXCEPT ![c] = "open"]
              /\ ev' = [e |-> "Connect", c |-> c, p |-> Port(c), s |-> Mine[c], mute |-> FALSE]
              /\ UNCHANGED <<sent, joined, due, outs>>
Join(c) == /\ st[c] # "none" /\ ~joined[c] /\ joined' = [joined EXCEPT ![c] = TRUE]
           /\ ev' = Tau /\ UNCHANGED <<st, sent, due, outs>>
Send(c, m, s) == /\ st[c] = "open" /\ sent' = [sent EXCEPT ![c] = Append(@, [m |-> m, s |-> s])]
                 /\ ev' = [e |-> "Send", c |-> c, m |-> m]
                 /\ UNCHANGED <<st, joined, due, outs>>
\* C18: bad input disappears
Drop(c) == /\ sent[c] # << >> /\ Head(sent[c]).s < 0 /\ joined[c]
           /\ sent' = [sent EXCEPT ![c] = Tail(@)] /\ ev' = Tau
           /\ UNCHANGED <<st, joined, due, outs>>
\* C17
Deliver(c) == /\ sent[c] # << >> /\ Head(sent[c]).s >= 0 /\ joined[c]
              /\ sent' = [sent EXCEPT ![c] = Tail(@)]
              /\ ev' = [e |-> "Deliver", s |-> Head(sent[c]).s, m |-> Head(sent[c]).m, x |-> ""]
              /\ UNCHANGED <<st, joined, due, outs>>
\* C19, C20
Gets(c, s) == joined[c] /\ st[c] = "open" /\ (Mine[c] = s \/ (Siblings /\ PortOf[s] = Port(c)))
Out(s) == /\ outs' = Append(outs, s)
          /\ due' = [c \in Conns |-> IF Gets(c, s) THEN Append(due[c], Len(outs) + 1) ELSE due[c]]
          /\ ev' = [e |-> "Out", o |-> Len(outs) + 1, s |-> s, x |-> ""]
          /\ UNCHANGED <<st, sent, joined>>
Recv(c) == /\ due[c] # << >> /\ st[c] = "open" /\ due' = [due EXCEPT ![c] = Tail(@)]
           /\ ev' = [e |-> "Recv", c |-> c, o |-> Head(due[c]), x |-> ""]
           /\ UNCHANGED <<st, sent, joined, outs>>
\* what is for a client who has left goes nowhere
Leave(c) == /\ st[c] = "open" /\ st' = [st EXCEPT ![c] = "left"] /\ due' = [due EXCEPT ![c] = << >>]
            /\ ev' = [e |-> "Close", c |-> c, k |-> "shut"]
            /\ UNCHANGED <<sent, joined, outs>>
\* nothing that users can see
Idle == ev' = Tau /\ UNCHANGED <<st, sent, joined, due, outs>>

Server == \E c \in Conns : Join(c) \/ Drop(c) \/ Deliver(c)
\* nothing left to do for the service, C17-C19
Settled == \A c \in Conns : sent[c] = << >>
Next == \/ Server
        \/ Idle
        \/ \E c \in Conns : Connect(c) \/ Recv(c) \/ Leave(c)
        \/ \E c \in Conns, m \in Msgs, s \in Sess \cup {-1} : Send(c, m, s)
        \/ \E s \in Sess : Out(s)
Spec == Init /\ [][Next]_svars

\* every message is in one place only and in order
InOrder == \A c \in Conns : \A i, j \in DOMAIN due[c] : i < j => due[c][i] < due[c][j]
Separate == Siblings \/ \A c \in Conns : \A i \in DOMAIN due[c] : outs[due[c][i]] = Mine[c]
=============================================================================
