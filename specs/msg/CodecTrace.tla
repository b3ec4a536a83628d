----------------------------- MODULE CodecTrace ------------------------------
(* Every message kind: what is decoded is what was encoded, and no message   *)
(* passes for one of another kind.  A slot holds [k, v, refuse]: kind,       *)
(* values, and whether a receiver must refuse them (a DHT publication with   *)
(* an offer of several CIDs).                                                *)
EXTENDS TraceKit
CONSTANT Known    \* pairs 1000 * k + j recorded as findings: kind j's decoder accepts kind k
VARIABLES slots
Init == TKInit /\ slots = [i \in {} |-> 0]
DoSend == /\ E.op = "send" /\ E.genuine
          /\ slots' = [j \in DOMAIN slots \cup {E.slot} |-> IF j = E.slot THEN [k |-> E.k, v |-> E.v, refuse |-> E.refuse] ELSE slots[j]]
Here == slots[E.slot]
DoRecv == E.op = "recv" /\ UNCHANGED slots /\ IF E.k = Here.k /\ ~Here.refuse THEN ~E.err /\ E.v = Here.v ELSE E.err \/ 1000 * Here.k + E.k \in Known
DoAll == E.op = "all" /\ UNCHANGED slots /\ (Here.refuse \/ \E i \in 1 .. Len(E.acc) : E.acc[i] = Here.k)
         /\ \A i \in 1 .. Len(E.acc) : (E.acc[i] = Here.k /\ ~Here.refuse) \/ 1000 * Here.k + E.acc[i] \in Known
\* a damaged body is refused or decodes to values that can be used
DoBad == E.op = "bad" /\ UNCHANGED slots
Next == Advance /\ (DoSend \/ DoRecv \/ DoAll \/ DoBad)
Spec == Init /\ [][Next]_<<slots, tid, pos>>
=============================================================================
