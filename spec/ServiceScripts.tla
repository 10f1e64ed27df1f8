--------------------------- MODULE ServiceScripts ---------------------------
(***************************************************************************)
(* Behaviours of the service under a scheduler that lets it finish what it *)
(* can do before the next client acts: what every client must see is then  *)
(* determined. They are replayed into the real acceptor.                   *)
(*                                                                         *)
(* Steps of clients: connect as a session; send a message of kind          *)
(*   "n" plain, "r" to be answered, "f" the application tells the next     *)
(*   session, "o" of the next session, to be answered, "x" unparsable,     *)
(*   "u" of a session that is not configured;                              *)
(* leave in a way: "shut", "close", "rst", "half" (in the middle of a      *)
(* message). "app": the application sends to a session of its own accord.  *)
(* Connection 10 * i + s is the i-th one, of a client of session s.        *)
(***************************************************************************)
EXTENDS Service, TLC, Json

CONSTANTS Depth, Kinds, Ways, AppSends, MaxConns

VARIABLES hist,   \* client steps and what follows from them
          todo,   \* sessions the application still has to send to
          steps, delivered
vars == <<st, sent, joined, due, outs, ev, hist, todo, steps, delivered>>

\* sessions 0 and 1 share a port, session 2 has its own
POf == [s \in Sess |-> IF s = 2 THEN 1 ELSE 0]
Slots == 1..MaxConns
ConnSet == {10 * i + s : i \in Slots, s \in Sess}
MineOf == [c \in ConnSet |-> c % 10]
Used(i) == \E s \in Sess : st[10 * i + s] # "none"

NextS(s) == (s + 1) % Cardinality(Sess)
Good(k) == k \in {"n", "r", "f", "o"}
Target(c, k) == IF k = "o" THEN NextS(Mine[c]) ELSE Mine[c]
Answers(c, k) == CASE k = "r" -> <<Mine[c]>> [] k \in {"f", "o"} -> <<NextS(Mine[c])>> [] OTHER -> << >>

SInit == Init /\ hist = << >> /\ todo = << >> /\ steps = 0 /\ delivered = 0
Client(h) == hist' = Append(hist, h) /\ steps' = steps + 1
See(h) == hist' = Append(hist, h) /\ UNCHANGED steps
Unseen == UNCHANGED <<hist, steps>>

Joining == {c \in Conns : st[c] # "none" /\ ~joined[c]}
Waiting == {c \in Conns : due[c] # << >>}
Writing == {c \in Conns : sent[c] # << >>}
Busy == Joining # {} \/ Waiting # {} \/ Writing # {} \/ todo # << >>
First(S) == CHOOSE c \in S : \A d \in S : c <= d
\* the service, in a fixed order
System ==
    IF Joining # {} THEN Join(First(Joining)) /\ Unseen /\ UNCHANGED <<todo, delivered>>
    ELSE IF Waiting # {} THEN LET c == First(Waiting) IN
         Recv(c) /\ See([w |-> "recv", c |-> c, o |-> Head(due[c])]) /\ UNCHANGED <<todo, delivered>>
    ELSE IF todo # << >> THEN
         Out(Head(todo)) /\ todo' = Tail(todo) /\ See([w |-> "out", s |-> Head(todo)]) /\ UNCHANGED delivered
    ELSE LET c == First(Writing)
             h == Head(sent[c]) IN
         IF h.s < 0 THEN Drop(c) /\ Unseen /\ UNCHANGED <<todo, delivered>>
         ELSE /\ Deliver(c) /\ todo' = Answers(c, h.m) /\ delivered' = delivered + 1
              /\ See([w |-> "deliver", c |-> c, s |-> h.s])

Environment ==
    \/ \E c \in Conns : /\ ~Used(c \div 10) /\ \A i \in Slots : i < c \div 10 => Used(i)
                        /\ Connect(c) /\ Client([w |-> "connect", c |-> c, s |-> Mine[c]]) /\ UNCHANGED <<todo, delivered>>
    \/ \E c \in Conns, k \in Kinds : /\ Send(c, k, IF Good(k) THEN Target(c, k) ELSE -1)
                                     /\ Client([w |-> "send", c |-> c, k |-> k]) /\ UNCHANGED <<todo, delivered>>
    \/ \E c \in Conns, y \in Ways : Leave(c) /\ Client([w |-> "leave", c |-> c, k |-> y]) /\ UNCHANGED <<todo, delivered>>
    \/ \E s \in AppSends : /\ delivered > 0 /\ todo' = <<s>> /\ Client([w |-> "app", s |-> s])
                           /\ Idle /\ UNCHANGED delivered
SNext == IF Busy THEN System ELSE steps < Depth /\ Environment

Allowed == [][Next]_svars
Emit == (~Busy /\ steps = Depth) => PrintT(<<"E", ToJson(hist)>>)
=============================================================================
