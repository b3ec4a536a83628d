---------------------------- MODULE RegisterTrace ----------------------------
EXTENDS TraceKit, Register
VARIABLE R
Init == TKInit /\ R = {}
Req == E.op = "req" /\ R' \in Leaves(R, E)
Crash == E.op = "crash" /\ R' \in Cut(R, E)
Par == E.op = "par" /\ R' \in Reach(R, E.th)
\* requests that are none are refused and change nothing
Bad == E.op = "bad" /\ E.code \in 400 .. 499 /\ UNCHANGED R
\* what is registered stays registered, however long, and whatever happens to the service and to its connections
Idle == E.op \in {"restart", "later", "outage"} /\ UNCHANGED R
\* any number of requests is served
Many == E.op = "many" /\ E.differ = 0 /\ R' \in Leaves(R, E)
Next == Advance /\ (Req \/ Crash \/ Par \/ Bad \/ Idle \/ Many)
Spec == Init /\ [][Next]_<<R, tid, pos>>
=============================================================================
