------------------------------- MODULE P2PGen -------------------------------
(* Scripts: each step belongs to a thread (0: alone, before and after the    *)
(* threads run), addresses a peer and asks it to behave in some way.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Threads, Peers, Depth, Rough
VARIABLES ops
Mild == {"ok", "bigreq", "slow", "big", "ack"}
Bad == {"late", "late2", "none", "cut", "half", "reqerr", "early", "late", "late2", "latehalf"}
Step == \E t \in {RandomElement(1 .. Threads)}, p \in {RandomElement(1 .. Peers)}, k \in {RandomElement(1 .. 10)}, m \in {RandomElement(Mild)}, b \in {RandomElement(Bad)}, r \in {RandomElement(1 .. 25)} :
          ops' = Append(ops, IF r = 1 THEN [t |-> t, p |-> p, beh |-> "restart"]
                             ELSE IF r = 2 THEN [t |-> t, p |-> Peers + 1, beh |-> "ok"]
                             ELSE [t |-> t, p |-> p, beh |-> IF k <= Rough THEN b ELSE m])
Init == ops = <<>>
Next == Len(ops) < Depth /\ Step
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = Depth => PrintT("VFGEN " \o ToJson(ops))
=============================================================================
