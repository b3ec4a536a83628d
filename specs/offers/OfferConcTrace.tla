--------------------------- MODULE OfferConcTrace ---------------------------
(* Concurrent histories of an offer store: calls have a begin and an end.    *)
EXTENDS Offers, TraceKit
VARIABLES begun,  \* offers whose store call has begun
          must,   \* offers whose store call succeeded, or that a finished lookup returned
          open    \* running lookups: [id, must at its begin]
Off == Tr.off
Live == { x \in 1 .. Len(Off) : Off[x].exp > 0 }
Init == TKInit /\ begun = {} /\ must = {} /\ open = {}

\* header: offers stored before the scenario started
Pre == { Tr.pre[i] : i \in 1 .. Len(Tr.pre) }

AddB == E.op = "aB" /\ begun' = begun \cup {E.o} /\ UNCHANGED <<must, open>>
AddE == /\ E.op = "aE" /\ UNCHANGED <<begun, open>>
        /\ Tr.store = "mem" => ~E.err
        /\ must' = IF E.err THEN must ELSE must \cup {E.o}
LookB == E.op = "qB" /\ open' = open \cup {[id |-> E.id, must |-> must \cup Pre]} /\ UNCHANGED <<begun, must>>
Match == CASE E.k = "get" -> { x \in Live : E.x \in CidSet(Off[x]) }
           [] E.k = "dig" -> { x \in Live : x = E.x }
           [] OTHER       -> IF Tr.store = "mem" THEN ArcSet(Off, Live, E.a, E.b) ELSE SpanSet(Off, Live, E.a, E.b)
LookE ==
  /\ E.op = "qE" /\ UNCHANGED begun
  /\ \E q \in open :
       /\ q.id = E.id
       /\ Exact(E.res, q.must \cap Match, (begun \cup Pre) \cap Match)
       /\ open' = open \ {q}
  /\ must' = must \cup Range(E.res)
Next == Advance /\ (AddB \/ AddE \/ LookB \/ LookE)
Spec == Init /\ [][Next]_<<begun, must, open, tid, pos>>
=============================================================================
