------------------------------ MODULE CodecGen -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Depth, NKind
VARIABLES slots, h
Pick(T, n) == IF T = {} THEN {} ELSE RandomSubset(IF Cardinality(T) < n THEN Cardinality(T) ELSE n, T)
K == 0 .. NKind - 1
Init == slots = [i \in {} |-> 0] /\ h = <<>>
Send == \E i \in 0 .. 2, k \in Pick(K, 1) :
  slots' = [j \in DOMAIN slots \cup {i} |-> IF j = i THEN k ELSE slots[j]] /\ h' = Append(h, [op |-> "send", slot |-> i, k |-> k])
Right == \E i \in DOMAIN slots : UNCHANGED slots /\ h' = Append(h, [op |-> "recv", slot |-> i, k |-> slots[i]])
Wrong == \E i \in DOMAIN slots, k \in Pick(K, 1) : UNCHANGED slots /\ h' = Append(h, [op |-> "recv", slot |-> i, k |-> k])
All == \E i \in Pick(DOMAIN slots, 1) : UNCHANGED slots /\ h' = Append(h, [op |-> "all", slot |-> i])
Bad == \E i \in DOMAIN slots : UNCHANGED slots /\ h' = Append(h, [op |-> "bad", slot |-> i, k |-> slots[i]])
Next == Len(h) < Depth /\ (Send \/ Right \/ Wrong \/ All \/ Bad)
Spec == Init /\ [][Next]_<<slots, h>>
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
