---------------------------- MODULE ServiceTrace ----------------------------
(***************************************************************************)
(* The observer (Monitor) reads logs of the real acceptor.                 *)
(* Entry: [ev: events, ms: message -> [s, x], ps: ports of the sessions,   *)
(* bound: so many messages of a port may be outstanding]                   *)
(***************************************************************************)
EXTENDS Monitor, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
Log == In.log
VARIABLES n, k, M
vars == <<n, k, M>>
Init == n \in 1..Len(Log) /\ k = 0 /\ M = [MonStart EXCEPT !.bound = Log[n].bound]
Next == /\ k < Len(Log[n].ev) /\ k' = k + 1 /\ UNCHANGED n
        /\ M' = MStep(M, Log[n].ev[k'], Log[n].ms, Log[n].ps, k')
Spec == Init /\ [][Next]_vars
View == <<n, k>>

Mine == KindsOf(In.prop)
Report == k = Len(Log[n].ev) =>
    IF M.viol = {} THEN PrintT(<<"D", n, M.nd, M.nr, ToJson(M.dev)>>)
    ELSE PrintT(<<"X", ToJson([n |-> n, viol |-> M.viol, mine |-> {v[1] : v \in {w \in M.viol : w[1] \in Mine}}, dev |-> M.dev])>>)
=============================================================================
