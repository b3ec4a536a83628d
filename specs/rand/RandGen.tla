------------------------------- MODULE RandGen -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES n, h
Pick(S) == RandomSubset(1, S)
Gens == 0 .. 3
Lens == {0, 1, 3, 4, 15, 16, 17, 20, 31, 32, 33, 36, 47, 48, 63, 64, 65, 68, 95, 96, 100, 127, 128, 129, 160, 257}
Read(v) == { [op |-> "read", g |-> g, how |-> w, n |-> l, k |-> k] : g \in Pick(Gens), w \in Pick(0 .. 2), l \in Pick(Lens), k \in Pick(1 .. 3) }
Key(v) == { [op |-> "key", t |-> t] : t \in Pick({"ret", "ret", "bc"}) }
Id(v) == { [op |-> "id", t |-> t] : t \in Pick({"node", "cid"}) }
Seed(v) == { [op |-> "seed", g |-> g, d |-> d] : g \in Pick(Gens), d \in Pick({0, 1, 8, 32, 200}) }
Kick(v) == { [op |-> "kick", g |-> g - 1] : g \in Pick(0 .. 4) }
New(v) == { [op |-> "new", g |-> g, d |-> d] : g \in Pick({2, 3}), d \in Pick({1, 1, 2}) }
Child(v) == { [op |-> "child", k |-> k] : k \in Pick(1 .. 2) }
Some(v) == UNION { CASE z <= 8 -> Read(v) [] z <= 10 -> Id(v) [] z <= 12 -> Seed(v) [] z <= 14 -> Kick(v) [] z = 15 -> New(v) [] OTHER -> Key(v) : z \in Pick(1 .. 17) }
Par(v) == { [op |-> "par", th |-> <<<<a, b>>, <<c, d>>, <<e>>, <<f, g>>>>] : a \in Some(v + 0), b \in Some(v + 1), c \in Some(v + 2), d \in Some(v + 3), e \in Some(v + 4), f \in Some(v + 5), g \in Some(v + 6) }
Init == n = 1 /\ h = <<>>
Next == Len(h) < Depth /\ n' = n + 1 /\ \E z \in Pick(1 .. 40) : \E q \in (IF z = 1 THEN Child(n) ELSE IF z <= 14 THEN Par(n) ELSE Some(n)) : h' = Append(h, q)
Spec == Init /\ [][Next]_<<n, h>>
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
==============================================================================
