----------------------------- MODULE OffersGen -----------------------------
(* Script generator for the offer stores.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS NOff, NCid, Depth, Ticks, Restarts
VARIABLES S, h, tk, cr
Ids == 1 .. NOff
Cid == 0 .. NCid - 1
Init == S = {} /\ h = <<>> /\ tk = 0 /\ cr = 0
Op(r) == h' = Append(h, r)
Pick(T, n) == IF T = {} THEN {} ELSE RandomSubset(IF Cardinality(T) < n THEN Cardinality(T) ELSE n, T)
U == UNCHANGED <<tk, cr>>
Add == \E o \in Pick(Ids \ S, 5) \cup Pick(S, 1) : S' = S \cup {o} /\ Op([op |-> "add", o |-> o]) /\ U
Wrong == \E o \in Pick(Ids, 1) : S' = S /\ Op([op |-> "add", o |-> o, wrong |-> TRUE]) /\ U
Get == \E c \in Pick(Cid, 2), k \in Pick({"a", "a", "g", "d"}, 2) : S' = S /\ Op([op |-> "get", c |-> c, k |-> k]) /\ U
Dig == \E o \in Pick(Ids, 1) \cup Pick(S, 2) : S' = S /\ Op([op |-> "dig", o |-> o]) /\ U
Rng == \E a \in Pick(Cid, 2), b \in Pick(Cid, 1), n \in Pick({1, 2, 3, 5, 50}, 2) : S' = S /\ Op([op |-> "range", a |-> a, b |-> b, n |-> n]) /\ U
Tick == tk < Ticks /\ Len(h) > (Depth * (tk + 1)) \div (Ticks + 2) /\ tk' = tk + 1 /\ S' = S /\ UNCHANGED cr /\ Op([op |-> "tick", i |-> tk + 1])
Rst == cr < Restarts /\ Len(h) > 3 /\ cr' = cr + 1 /\ S' = S /\ UNCHANGED tk /\ Op([op |-> "restart"])
Cra == cr < Restarts /\ Len(h) > 3 /\ cr' = cr + 1 /\ UNCHANGED tk /\ \E o \in Pick(Ids \ S, 1) : S' = S \cup {o} /\ Op([op |-> "crashadd", o |-> o])
Next == Len(h) < Depth /\ (Add \/ Wrong \/ Get \/ Dig \/ Rng \/ Tick \/ Rst \/ Cra)
Spec == Init /\ [][Next]_<<S, h, tk, cr>>
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
