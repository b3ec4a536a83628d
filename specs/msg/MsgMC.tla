-------------------------------- MODULE MsgMC --------------------------------
(* Two honest signers and a network that alters, recombines and replays.     *)
(* Covered: the fields the signing bytes hold.  A verifier must only accept  *)
(* what was signed; with any field left out TLC must find a forgery.         *)
EXTENDS Msg
CONSTANTS Covered, NKey, NSlot, MaxFacts
VARIABLES facts, slots, signed
vars == <<facts, slots, signed>>
Contents == [Fields -> 0 .. 1]
Keys == 1 .. NKey
Cut(c) == [f \in Covered |-> c[f]]
\* the signature atom: the key and what the signing bytes hold
Sig(k, c) == <<k, Cut(c)>>
None == <<0, [f \in {} |-> 0]>>
Init == /\ facts = {} /\ signed = {}
        /\ slots = [i \in 1 .. NSlot |-> [c |-> [f \in Fields |-> 0], sig |-> None]]
Sign(i, k) == /\ Cardinality(signed) < MaxFacts
              /\ slots' = [slots EXCEPT ![i].sig = Sig(k, slots[i].c)]
              /\ facts' = facts \cup {Sig(k, slots[i].c)}
              /\ signed' = signed \cup {[key |-> k, c |-> slots[i].c]}
Copy(i, j) == slots' = [slots EXCEPT ![j] = slots[i]] /\ UNCHANGED <<facts, signed>>
Set(i, f, x) == slots' = [slots EXCEPT ![i].c[f] = x] /\ UNCHANGED <<facts, signed>>
Move(i, j) == slots' = [slots EXCEPT ![j].sig = slots[i].sig] /\ UNCHANGED <<facts, signed>>
Drop(i) == slots' = [slots EXCEPT ![i].sig = None] /\ UNCHANGED <<facts, signed>>
Next == \E i, j \in 1 .. NSlot : \/ Copy(i, j) \/ Move(i, j) \/ Drop(i)
                                 \/ \E k \in Keys : Sign(i, k)
                                 \/ \E f \in Fields, x \in 0 .. 1 : Set(i, f, x)
Spec == Init /\ [][Next]_vars
Accepts(i, k) == slots[i].sig = Sig(k, slots[i].c) /\ slots[i].sig \in facts
Authentic == \A i \in 1 .. NSlot, k \in Keys : Accepts(i, k) => [key |-> k, c |-> slots[i].c] \in signed
\* an untouched message stays acceptable
Complete == \A i \in 1 .. NSlot, k \in Keys : Sig(k, slots[i].c) = slots[i].sig => Accepts(i, k)
=============================================================================
