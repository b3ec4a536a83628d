--------------------------- MODULE RegMgrConcTrace ---------------------------
(* Concurrent histories: versions only grow at the registry.                 *)
EXTENDS RegMgr, TraceKit
VARIABLES reg,    \* [g, p]: what the registry lists, as functions id -> version
          flo,    \* [g, p]: what a lookup must show at least
          open    \* running calls: [id, reg, flo at the begin]
Init == TKInit /\ reg = [g |-> Empty, p |-> Empty] /\ flo = [g |-> Empty, p |-> Empty] /\ open = {}
Bigger(a, b) == IF a > b THEN a ELSE b
Raise(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> Bigger(Look(f, x), Look(g, x))]
One(x, v) == [y \in {x} |-> v]
DoSet == E.op = "set" /\ reg' = [g |-> Merge(reg.g, E.g), p |-> Merge(reg.p, E.p)] /\ UNCHANGED <<flo, open>>
DoB == E.op = "B" /\ open' = open \cup {[id |-> E.id, reg |-> reg, flo |-> flo]} /\ UNCHANGED <<reg, flo>>
Ended(q) == q.id = E.id /\ open' = open \ {q} /\ UNCHANGED reg
Between(lo, x, v, hi) == v >= Look(lo, x) /\ v <= Look(hi, x)
DoRefresh == E.op = "E" /\ E.k = "refresh" /\ \E q \in open : Ended(q) /\ flo' = [g |-> Raise(flo.g, q.reg.g), p |-> Raise(flo.p, q.reg.p)]
DoGetG == /\ E.op = "E" /\ E.k = "getg"
          /\ \E q \in open : /\ Ended(q)
                             /\ Between(q.flo.g, E.x, E.res, reg.g)
                             /\ E.x \in DOMAIN q.reg.g => E.res # None
                             /\ flo' = IF E.res = None THEN flo ELSE [flo EXCEPT !.g = Raise(@, One(E.x, E.res))]
DoGetP == /\ E.op = "E" /\ E.k = "getp"
          /\ \E q \in open : /\ Ended(q) /\ Between(q.flo.p, E.x, E.res, reg.p)
                             /\ flo' = IF E.res = None THEN flo ELSE [flo EXCEPT !.p = Raise(@, One(E.x, E.res))]
\* the whole list, or the 16 nearest of fewer than 16 gateways
DoList == /\ E.op = "E" /\ E.k \in {"allg", "near"}
          /\ \E q \in open :
               /\ Ended(q)
               /\ \A i \in 1 .. Len(E.res) : Between(q.flo.g, E.res[i].id, E.res[i].v, reg.g) /\ \A j \in 1 .. i - 1 : E.res[j].id # E.res[i].id
               /\ \A x \in Positions(q.flo.g) : \E i \in 1 .. Len(E.res) : E.res[i].id = x
          /\ flo' = flo
DoRange == /\ E.op = "E" /\ E.k = "range" /\ flo' = flo
           /\ \E q \in open : /\ Ended(q)
                              /\ E.err => Cardinality(Positions(q.flo.g) \ {E.x}) < 2
                              /\ ~E.err => {E.lo, E.hi} \subseteq Positions(reg.g) \ {E.x}
Next == Advance /\ (DoSet \/ DoB \/ DoRefresh \/ DoGetG \/ DoGetP \/ DoList \/ DoRange)
Spec == Init /\ [][Next]_<<reg, flo, open, tid, pos>>
=============================================================================
