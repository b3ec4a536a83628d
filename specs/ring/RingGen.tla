------------------------------ MODULE RingGen ------------------------------
(* Script generator: behaviours of the ring with all of its operations,     *)
(* written out as JSON when they reach the requested length.                *)
EXTENDS Ring, TLC, Json, Randomization
CONSTANTS M, Depth, Mode   \* Mode: "edit" = insertions and removals only, "mixed"
VARIABLES S, h
Id == 0 .. M - 1
Init == S = {} /\ h = <<>>
Op(r) == h' = Append(h, r)
GIns == \E k \in Id : S' = Ins(S, k) /\ Op([op |-> "ins", k |-> k])
GDel == \E k \in Id : S' = Del(S, k) /\ Op([op |-> "del", k |-> k])
\* favour operations that hit members, or the ring stays trivial
GDelIn == \E k \in S : S' = Del(S, k) /\ Op([op |-> "del", k |-> k])
Near1 == { k \in Id : \E s \in S : CW(M, s, k) \in {0, 1, M - 1} }
GClosest == \E t \in Id, n \in 0 .. 6, x \in {NoId, 0} \cup S :
              S' = S /\ Op([op |-> "closest", t |-> t, n |-> n, x |-> x])
GRange == \E a, b \in Id : S' = S /\ Op([op |-> "range", a |-> a, b |-> b])
GObs == S' = S /\ Op([op |-> "obs"])
Edit  == GIns \/ GDel
\* weights: TLC's simulator picks a successor uniformly, so a random subset of queries is offered
Mixed ==
  \/ \E k \in RandomSubset(4, Id) : S' = Ins(S, k) /\ Op([op |-> "ins", k |-> k])
  \/ \E k \in RandomSubset(1, Id) : S' = Del(S, k) /\ Op([op |-> "del", k |-> k])
  \/ \E k \in RandomSubset(IF S = {} THEN 0 ELSE 1, S) : S' = Del(S, k) /\ Op([op |-> "del", k |-> k])
  \/ \E t \in RandomSubset(2, Id), n \in RandomSubset(1, 0 .. 9), x \in {NoId, RandomElement(Id)} \cup (IF S = {} THEN {} ELSE {RandomElement(S)}) :
        S' = S /\ Op([op |-> "closest", t |-> t, n |-> n, x |-> x])
  \/ \E a \in RandomSubset(2, Id) : \E b \in RandomSubset(1, Id) \cup {a} : S' = S /\ Op([op |-> "range", a |-> a, b |-> b])
  \/ GObs
Next == Len(h) < Depth /\ (IF Mode = "edit" THEN Edit ELSE Mixed)
Spec == Init /\ [][Next]_<<S, h>>
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
