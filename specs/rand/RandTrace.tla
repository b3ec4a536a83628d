------------------------------ MODULE RandTrace ------------------------------
EXTENDS TraceKit, Rand
VARIABLE seen
Init == TKInit /\ seen = {}
Draws == /\ E.op \in {"read", "key", "id", "child"}
         /\ Draw(seen, E)
         /\ E.op = "key" => E.ok
         /\ seen' = seen \cup Span(E.out)
\* seeding, even with what is known, takes nothing away
Quiet == (E.op \in {"seed", "kick"} \/ (E.op = "new" /\ E.ok)) /\ UNCHANGED seen
Storm == E.op = "storm" /\ E.twice = 0 /\ E.unfilled = 0 /\ UNCHANGED seen
Next == Advance /\ (Draws \/ Quiet \/ Storm)
Spec == Init /\ [][Next]_<<seen, tid, pos>>
==============================================================================
