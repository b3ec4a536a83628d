------------------------------ MODULE GroupGen ------------------------------
(* Random scripts of notices, alone or many at the same time.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NGw, Depth
VARIABLES ops
Pick(S) == RandomElement(S)
Note(g, r, z) == [g |-> g, on |-> Pick({TRUE, TRUE, FALSE}), by |-> IF r <= 88 THEN -9 ELSE Pick(0 .. 9), tamper |-> IF z <= 95 THEN "" ELSE "nosig"]
Some(n) == [i \in 1 .. n |-> Note(Pick(0 .. NGw - 1), Pick(1 .. 100), Pick(1 .. 100))]
Every(on) == [g \in 1 .. NGw |-> [g |-> g - 1, on |-> IF on = 0 THEN TRUE ELSE IF on = 1 THEN FALSE ELSE Pick({TRUE, FALSE}), by |-> -9, tamper |-> ""]]
Step == \E k \in {Pick(1 .. 100)}, n \in {Pick({2, 3, 5, 8})}, m \in {Pick({0, 1, 2, 2})}, g \in {Pick(0 .. NGw - 1)}, key \in {Pick(0 .. 9)} :
  ops' = Append(ops, IF k <= 55 THEN [op |-> "notes", ns |-> Some(1)] ELSE IF k <= 75 THEN [op |-> "notes", ns |-> Some(n)]
                     ELSE IF k <= 94 THEN [op |-> "notes", ns |-> Every(m)] ELSE [op |-> "rekey", g |-> g, k |-> key])
Init == ops = <<>>
Next == Len(ops) < Depth /\ Step
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = Depth => PrintT("VFGEN " \o ToJson(ops))
=============================================================================
