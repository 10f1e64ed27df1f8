----------------------------- MODULE IdentityMC -----------------------------
(***************************************************************************)
(* All combinations of identity fields of a message, over small domains:   *)
(* what identity they give, and that two messages have the same identity   *)
(* exactly if all seven parts agree (absent = empty).                      *)
(***************************************************************************)
EXTENDS Settings, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
Dom == In.domains        \* tag -> sequence of optional values
Tags == <<"8", "49", "50", "142", "56", "57", "143">>

VARIABLES k, fs
vars == <<k, fs>>
Init == k = 1 /\ fs = << >>
\* the fields are chosen one after the other; an absent one leaves no trace
Choose1 == k <= Len(Tags) /\ k' = k + 1
    /\ \E i \in DOMAIN Dom[Tags[k]] : LET o == Dom[Tags[k]][i] IN
         fs' = IF o = << >> THEN fs ELSE Append(fs, [t |-> Tags[k], v |-> o[1]])
Next == Choose1
Spec == Init /\ [][Next]_vars

Twice == Swap(Swap(Outgoing(fs))) = Outgoing(fs)
Sides == Incoming(fs).snd = Outgoing(fs).tgt /\ Incoming(fs).tloc = Outgoing(fs).sloc
Emit == k > Len(Tags) => PrintT(<<"E", ToJson([fs |-> fs, out |-> Outgoing(fs), inc |-> Incoming(fs)])>>)
=============================================================================
