----------------------------- MODULE AdminTrace -----------------------------
EXTENDS TraceKit, Admin
VARIABLE act
Init == TKInit /\ act = [g \in 0 .. 9 |-> None]
Ask == /\ E.op = "ask"
       /\ E.req = Requests(act, E)
       /\ E.ok = Done(act, E)
       /\ E.ok => E.val = Value(E)
       /\ act' = After(act, E)
Next == Advance /\ Ask
Spec == Init /\ [][Next]_<<act, tid, pos>>
=============================================================================
