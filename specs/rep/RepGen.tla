------------------------------- MODULE RepGen -------------------------------
(* Random histories: which client, which operation.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Clients, Kinds, Depth
VARIABLES ops
\* runs of one event drive a reputation to a bound and across it
Step ==
  \E c \in {RandomElement(1 .. Clients)}, k \in {RandomElement(1 .. 20)}, e \in {RandomElement(1 .. Kinds)},
     n \in {RandomElement(1 .. 40)}, v \in {RandomElement({-10001, -10000, -9999, -9995, -1, 0, 1, 9990, 9999, 10000, 10001, 50000, -50000, 777})} :
    ops' = Append(ops, CASE k <= 4  -> [op |-> "est", c |-> c]
                         [] k <= 6  -> [op |-> "get", c |-> c]
                         [] k <= 8  -> [op |-> "exists", c |-> c]
                         [] k = 9   -> [op |-> "set", c |-> c, v |-> v]
                         [] k <= 13 -> [op |-> "run", c |-> c, e |-> e, n |-> n]
                         [] OTHER   -> [op |-> "ev", c |-> c, e |-> e])
Init == ops = <<>>
Next == Len(ops) < Depth /\ Step
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = Depth => PrintT("VFGEN " \o ToJson(ops))
=============================================================================
