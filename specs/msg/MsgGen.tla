------------------------------- MODULE MsgGen --------------------------------
EXTENDS Msg, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES slots, key, h
vars == <<slots, key, h>>
Pick(T, n) == IF T = {} THEN {} ELSE RandomSubset(IF Cardinality(T) < n THEN Cardinality(T) ELSE n, T)
V == 0 .. 5
S == 0 .. 3
K == 0 .. 3
\* slots: which slots hold a message; key: the key a slot's signature was last made with
Init == slots = {} /\ key = [i \in S |-> 0] /\ h = <<>>
Op(r) == h' = Append(h, r)
New == \E i \in Pick(S, 1), t \in Pick(V, 1), b \in Pick(V, 1), v \in Pick(V, 1), s \in Pick(V, 1) :
  slots' = slots \cup {i} /\ UNCHANGED key /\ Op([op |-> "new", slot |-> i, t |-> t, b |-> b, v |-> v, s |-> s])
Sign == \E i \in Pick(slots, 2), k \in Pick(K, 1), kv \in Pick({0, 1, 2, 255, 65536, 2147483647}, 1) :
  key' = [key EXCEPT ![i] = k] /\ UNCHANGED slots /\ Op([op |-> "sign", slot |-> i, key |-> k, kv |-> kv])
Copy == \E i \in Pick(slots, 1), j \in Pick(S, 1) :
  slots' = slots \cup {j} /\ key' = [key EXCEPT ![j] = key[i]] /\ Op([op |-> "copy", slot |-> i, to |-> j])
SetF == \E i \in Pick(slots, 1), f \in Pick(Fields, 1), x \in Pick(V, 1) :
  UNCHANGED <<slots, key>> /\ Op([op |-> "set", slot |-> i, f |-> f, val |-> x])
From == \E i \in Pick(slots, 1), j \in Pick(slots, 1) :
  UNCHANGED slots /\ key' = [key EXCEPT ![i] = key[j]] /\ Op([op |-> "sigfrom", slot |-> i, from |-> j])
JunkS == \E i \in Pick(slots, 1), w \in Pick({"empty", "nonhex", "odd", "short", "veronly", "rand", "rand69", "bit", "cut", "ver", "ver"}, 1) :
  UNCHANGED <<slots, key>> /\ Op([op |-> "junk", slot |-> i, how |-> w])
Verify(n) == \E i \in Pick(slots, n), z \in Pick(1 .. 4, 1), k \in Pick(K, 1), p \in Pick({TRUE, TRUE, FALSE}, 1) :
  UNCHANGED <<slots, key>> /\ Op([op |-> "verify", slot |-> i, key |-> IF z = 1 THEN k ELSE key[i], pub |-> p])
PVerify == \E i \in Pick(slots, 1), k \in Pick(K, 1) :
  UNCHANGED <<slots, key>> /\ Op([op |-> "pverify", slot |-> i, keys |-> <<key[i], k, key[i], (k + 1) % 4, key[i], key[i]>>])
Mangle == \E i \in Pick(slots, 1), j \in Pick(slots, 1), w \in Pick({"trunc", "flip", "swap", "drop", "null", "double", "nullify"}, 1) :
  UNCHANGED <<slots, key>> /\ Op([op |-> "mangle", slot |-> i, to |-> j, how |-> w])
\* alter one field and put it back: a tampered message heals
Next == Len(h) < Depth /\ (IF slots = {} THEN New ELSE
  (New \/ Sign \/ Copy \/ SetF \/ From \/ JunkS \/ Verify(1) \/ Verify(3) \/ PVerify \/ Mangle))
Spec == Init /\ [][Next]_vars
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
