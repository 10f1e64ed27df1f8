------------------------------ MODULE Acceptor ------------------------------
(***************************************************************************)
(* The acceptor as it is built (network.rs, io/acceptor.rs): per port one  *)
(* task that binds, accepts and starts two tasks per connection, a reader  *)
(* (bytes -> messages -> bounded queue to the application) and a writer    *)
(* (broadcast queue of the port -> socket); one application thread takes   *)
(* the messages from the queue, finds the session, parses, and calls the   *)
(* application, which sends by putting a text in the broadcast queue.      *)
(*                                                                         *)
(* A message on the wire is two pieces, <<m, 1>> and <<m, 2>>, the second  *)
(* holding the CheckSum field.                                             *)
(*                                                                         *)
(* Bugs: the set of defects built in. Those of the original code:          *)
(*   "late"     writer subscribes after the reader has been started        *)
(*   "eof"      the end of the stream counts as the end of a message       *)
(*   "unknown"  a message of an unknown session ends the application thread*)
(*   "nobody"   a send while nobody is subscribed ends it                  *)
(*   "rebind"   the listener is bound anew for every connection            *)
(*   "linger"   the socket of a client who has left stays open             *)
(* A remedy: "filter" each writer passes on only what is for its session.  *)
(* Those still there: Siblings (the queue is per port, no filter) and the  *)
(* queue bound Cap: a writer that is more than Cap behind gives up.        *)
(* Realistic ones: "share" one buffer for all connections, "drop" a full   *)
(* queue loses messages, "stopall" bad input ends the reader, "takeover" a *)
(* new connection takes the subscription of the others over.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sess, PortOf, Conns, Mine,
          QCap,          \* capacity of the queue to the application
          Cap,           \* capacity of the broadcast queue
          Replies,       \* session of a message -> sessions the application sends to
          Bugs

Ports == {PortOf[s] : s \in Sess}
Port(c) == PortOf[Mine[c]]

VARIABLES st,       \* client: "none", "open", "left"
          wire,     \* client -> server, pieces
          bound,    \* port -> the listener is bound
          backlog,  \* port -> connections not yet accepted
          reader,   \* connection -> "none", "run", "done", "spin"
          buf,      \* connection -> pieces read of the current message
          queue,    \* messages on their way to the application: [c, m] or [c, m, part]
          app,      \* the sessions still to send to; <<-1>> if the thread has died
          bq,       \* port -> everything sent to the port
          sub,      \* connection -> how much of bq it has taken, -1 if not subscribed
          writer,   \* connection -> "none", "run", "done"
          back,     \* server -> client, numbers of messages
          nouts,    \* number of messages sent so far
          outs,     \* their sessions
          ev
avars == <<st, wire, bound, backlog, reader, buf, queue, app, bq, sub, writer, back, nouts, outs, ev>>

CONSTANTS MsgSet,
          SessOf(_)   \* the session of a message, -1: does not parse, -2: session unknown
Tau == [e |-> "tau"]
AInit ==
    /\ st = [c \in Conns |-> "none"] /\ wire = [c \in Conns |-> << >>] /\ bound = [p \in Ports |-> FALSE]
    /\ backlog = [p \in Ports |-> << >>] /\ reader = [c \in Conns |-> "none"] /\ buf = [c \in Conns |-> << >>]
    /\ queue = << >> /\ app = << >> /\ bq = [p \in Ports |-> << >>] /\ sub = [c \in Conns |-> -1]
    /\ writer = [c \in Conns |-> "none"] /\ back = [c \in Conns |-> << >>] /\ nouts = 0 /\ outs = << >> /\ ev = Tau

\* ---------------------------------------------------------------- clients
\* the port is bound or in use by somebody else; a client tries until it is connected
AConnect(c) ==
    /\ st[c] = "none" /\ bound[Port(c)]
    /\ st' = [st EXCEPT ![c] = "open"] /\ backlog' = [backlog EXCEPT ![Port(c)] = Append(@, c)]
    /\ ev' = [e |-> "Connect", c |-> c, p |-> Port(c), s |-> Mine[c], mute |-> FALSE]
    /\ UNCHANGED <<wire, bound, reader, buf, queue, app, bq, sub, writer, back, nouts, outs>>
ASend(c, m) ==
    /\ st[c] = "open" /\ wire' = [wire EXCEPT ![c] = @ \o <<<<m, 1>>, <<m, 2>>>>]
    /\ ev' = [e |-> "Send", c |-> c, m |-> m]
    /\ UNCHANGED <<st, bound, backlog, reader, buf, queue, app, bq, sub, writer, back, nouts, outs>>
\* the client leaves, possibly in the middle of a message
ALeave(c, half) ==
    /\ st[c] = "open" /\ st' = [st EXCEPT ![c] = "left"]
    /\ wire' = [wire EXCEPT ![c] = IF half = 0 THEN @ ELSE Append(@, <<half, 1>>)]
    /\ ev' = [e |-> "Close", c |-> c, k |-> "shut"]
    /\ UNCHANGED <<bound, backlog, reader, buf, queue, app, bq, sub, writer, back, nouts, outs>>
ARecv(c) ==
    /\ st[c] = "open" /\ back[c] # << >> /\ back' = [back EXCEPT ![c] = Tail(@)]
    /\ ev' = [e |-> "Recv", c |-> c, o |-> Head(back[c]), x |-> ""]
    /\ UNCHANGED <<st, wire, bound, backlog, reader, buf, queue, app, bq, sub, writer, nouts, outs>>

\* -------------------------------------------------------------- accept task
Bind(p) ==
    /\ ~bound[p] /\ bound' = [bound EXCEPT ![p] = TRUE] /\ ev' = Tau
    /\ UNCHANGED <<st, wire, backlog, reader, buf, queue, app, bq, sub, writer, back, nouts, outs>>
Accept(p) ==
    /\ bound[p] /\ backlog[p] # << >>
    /\ LET c == Head(backlog[p]) IN
       /\ reader' = [reader EXCEPT ![c] = "run"]
       /\ writer' = [writer EXCEPT ![c] = "run"]
       /\ sub' = IF "late" \in Bugs THEN sub ELSE [x \in Conns |-> IF x = c THEN Len(bq[p])
                                                     ELSE IF "takeover" \in Bugs /\ Port(x) = p THEN -1 ELSE sub[x]]
       /\ backlog' = [backlog EXCEPT ![p] = IF "rebind" \in Bugs THEN << >> ELSE Tail(@)]
       /\ bound' = [bound EXCEPT ![p] = "rebind" \notin Bugs]
       \* connections waiting at a listener that is closed are reset
       /\ ev' = IF "rebind" \in Bugs /\ Len(backlog[p]) > 1 THEN [e |-> "Eof", c |-> backlog[p][2]] ELSE Tau
    /\ UNCHANGED <<st, wire, buf, queue, app, bq, back, nouts, outs>>
Subscribe(c) ==
    /\ "late" \in Bugs /\ writer[c] = "run" /\ sub[c] < 0 /\ sub' = [sub EXCEPT ![c] = Len(bq[Port(c)])] /\ ev' = Tau
    /\ UNCHANGED <<st, wire, bound, backlog, reader, buf, queue, app, bq, writer, back, nouts, outs>>

\* ------------------------------------------------------------------ reader
Owner(c) == IF "share" \in Bugs THEN CHOOSE x \in Conns : \A y \in Conns : x <= y ELSE c
Complete(b) == b # << >> /\ b[Len(b)][2] = 2
ReadPiece(c) ==
    /\ reader[c] = "run" /\ wire[c] # << >> /\ ~Complete(buf[Owner(c)])
    /\ buf' = [buf EXCEPT ![Owner(c)] = Append(@, Head(wire[c]))] /\ wire' = [wire EXCEPT ![c] = Tail(@)] /\ ev' = Tau
    /\ UNCHANGED <<st, bound, backlog, reader, queue, app, bq, sub, writer, back, nouts, outs>>
\* what two pieces together are: a message if they belong together, else garbage
Content(b) == IF Len(b) = 2 /\ b[1] = <<b[2][1], 1>> THEN b[2][1] ELSE 0
Hand(c) ==
    /\ reader[c] = "run" /\ Complete(buf[Owner(c)])
    /\ Len(queue) < QCap \/ "drop" \in Bugs
    /\ queue' = IF Len(queue) < QCap THEN Append(queue, [c |-> c, m |-> Content(buf[Owner(c)])]) ELSE queue
    /\ buf' = [buf EXCEPT ![Owner(c)] = << >>]
    /\ reader' = [reader EXCEPT ![c] = IF "stopall" \in Bugs /\ SessOf(Content(buf[Owner(c)])) < 0 THEN "done" ELSE @]
    /\ ev' = Tau
    /\ UNCHANGED <<st, wire, bound, backlog, app, bq, sub, writer, back, nouts, outs>>
AtEnd(c) ==
    /\ reader[c] = "run" /\ wire[c] = << >> /\ st[c] = "left" /\ ~Complete(buf[Owner(c)])
    /\ IF "eof" \in Bugs
       THEN /\ Len(queue) < QCap
            /\ queue' = Append(queue, [c |-> c, m |-> IF buf[c] = << >> THEN 0 ELSE buf[c][1][1]])
            /\ reader' = [reader EXCEPT ![c] = "spin"]
       ELSE /\ reader' = [reader EXCEPT ![c] = "done"] /\ UNCHANGED queue
    /\ buf' = [buf EXCEPT ![c] = << >>]
    \* nobody is left to write to
    /\ writer' = [writer EXCEPT ![c] = IF Bugs \cap {"eof", "linger"} # {} THEN @ ELSE "done"]
    /\ ev' = Tau /\ UNCHANGED <<st, wire, bound, backlog, app, bq, sub, back, nouts, outs>>

\* ------------------------------------------------------- application thread
Take ==
    /\ app = << >> /\ queue # << >> /\ queue' = Tail(queue)
    /\ LET m == Head(queue).m
           s == SessOf(m) IN
       IF s >= 0 THEN /\ app' = Replies[s]
                      /\ ev' = [e |-> "Deliver", s |-> s, m |-> m, x |-> ""]
       ELSE /\ app' = IF s = -2 /\ "unknown" \in Bugs THEN <<-1>> ELSE << >>
            /\ ev' = Tau
    /\ UNCHANGED <<st, wire, bound, backlog, reader, buf, bq, sub, writer, back, nouts, outs>>
AppSend ==
    /\ app # << >> /\ app # <<-1>>
    /\ LET s == Head(app)
           p == PortOf[s]
           none == \A c \in Conns : ~(sub[c] >= 0 /\ writer[c] = "run" /\ Port(c) = p) IN
       /\ bq' = [bq EXCEPT ![p] = IF none THEN @ ELSE Append(@, nouts + 1)]
       /\ app' = IF none /\ "nobody" \in Bugs THEN <<-1>> ELSE Tail(app)
       /\ outs' = Append(outs, s) /\ nouts' = nouts + 1
       /\ ev' = [e |-> "Out", o |-> nouts + 1, s |-> s, x |-> ""]
    /\ UNCHANGED <<st, wire, bound, backlog, reader, buf, queue, sub, writer, back>>

\* ------------------------------------------------------------------ writer
Filter(c, o) == "filter" \in Bugs => outs[o] = Mine[c]
Write(c) ==
    /\ writer[c] = "run" /\ sub[c] >= 0 /\ sub[c] < Len(bq[Port(c)])
    /\ IF ~Filter(c, bq[Port(c)][sub[c] + 1]) THEN /\ sub' = [sub EXCEPT ![c] = @ + 1] /\ UNCHANGED <<back, writer>>
       ELSE IF Len(bq[Port(c)]) - sub[c] > Cap
       THEN /\ writer' = [writer EXCEPT ![c] = "done"] /\ UNCHANGED <<back, sub>>
       ELSE /\ back' = [back EXCEPT ![c] = Append(@, bq[Port(c)][sub[c] + 1])]
            /\ sub' = [sub EXCEPT ![c] = @ + 1] /\ UNCHANGED writer
    /\ ev' = Tau
    /\ UNCHANGED <<st, wire, bound, backlog, reader, buf, queue, app, bq, nouts, outs>>
\* writing to a client that has left fails sooner or later
WriteFails(c) ==
    /\ writer[c] = "run" /\ st[c] = "left" /\ writer' = [writer EXCEPT ![c] = "done"] /\ ev' = Tau
    /\ UNCHANGED <<st, wire, bound, backlog, reader, buf, queue, app, bq, sub, back, nouts, outs>>

Working == \/ \E p \in Ports : Bind(p) \/ Accept(p)
           \/ \E c \in Conns : Subscribe(c) \/ ReadPiece(c) \/ Hand(c) \/ AtEnd(c) \/ Write(c)
           \/ Take \/ AppSend
\* C21: a connection whose client has left keeps nobody busy once everything is read
NoSpin == \A c \in Conns : reader[c] # "spin"
Left(c) == reader[c] # "none" /\ st[c] = "left"
\* everything the server can do has been done
Stopped == /\ \A p \in Ports : bound[p] /\ backlog[p] = << >>
           /\ \/ app = <<-1>>
              \/ /\ queue = << >> /\ app = << >>
                 /\ \A c \in Conns : ~(reader[c] = "run" /\ (wire[c] # << >> \/ Complete(buf[c]) \/ st[c] = "left"))
           /\ \A c \in Conns : \* whoever is left
                               /\ ~(writer[c] = "run" /\ sub[c] < Len(bq[Port(c)]) /\ st[c] = "open")
                               /\ ~(st[c] = "open" /\ back[c] # << >>)

\* and holds no socket
NoLinger == Stopped /\ app # <<-1>> => \A c \in Conns : Left(c) => reader[c] = "done" /\ writer[c] = "done"

\* ---------------------------------------- what it means for the users: Service
RECURSIVE Messages(_, _)
\* the complete messages in pieces, in order
Messages(b, i) == IF i >= Len(b) THEN << >> ELSE <<[m |-> b[i][1], s |-> IF SessOf(b[i][1]) >= 0 THEN SessOf(b[i][1]) ELSE -1]>> \o Messages(b, i + 2)
InQueue(c) == LET q == SelectSeq(queue, LAMBDA x : x.c = c) IN
    [i \in DOMAIN q |-> [m |-> q[i].m, s |-> IF SessOf(q[i].m) >= 0 THEN SessOf(q[i].m) ELSE -1]]
Still(c) == IF writer[c] # "run" \/ sub[c] < 0 THEN << >> ELSE SelectSeq(SubSeq(bq[Port(c)], sub[c] + 1, Len(bq[Port(c)])), LAMBDA o : Filter(c, o))
Alive(c) == writer[c] = "run" \/ st[c] # "left"
S == INSTANCE Service WITH
        sent <- [c \in Conns |-> InQueue(c) \o Messages(buf[c] \o wire[c], 1)],
        joined <- [c \in Conns |-> reader[c] # "none"],
        due <- [c \in Conns |-> IF st[c] = "left" THEN << >> ELSE back[c] \o Still(c)],
        Msgs <- MsgSet,
        Siblings <- "filter" \notin Bugs
=============================================================================
