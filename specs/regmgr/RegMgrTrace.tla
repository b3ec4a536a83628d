----------------------------- MODULE RegMgrTrace -----------------------------
(* Sequential histories of a register manager.                              *)
EXTENDS RegMgr, TraceKit
VARIABLES G, P, reg   \* views; reg: what the registry answers: [g, p: listing, gok, pok: reachable]
Init == TKInit /\ G = Empty /\ P = Empty /\ reg = [g |-> <<>>, p |-> <<>>, gok |-> TRUE, pok |-> TRUE]
Keep == UNCHANGED <<G, P, reg>>
DG == Tr.gd
DP == Tr.pd
PullG == IF DG /\ reg.gok THEN Merge(G, reg.g) ELSE G
PullP == IF DP /\ reg.pok THEN Merge(P, reg.p) ELSE P
DoSet == E.op = "set" /\ reg' = [g |-> E.g, p |-> E.p, gok |-> E.gok, pok |-> E.pok] /\ UNCHANGED <<G, P>>
DoRefresh == E.op = "refresh" /\ G' = PullG /\ P' = PullP /\ UNCHANGED reg
\* a gateway not known is looked for in the registry first
DoGetG == /\ E.op = "getg" /\ UNCHANGED reg
          /\ IF DG /\ E.id \notin DOMAIN G THEN G' = PullG /\ P' = PullP ELSE UNCHANGED <<G, P>>
          /\ E.res = IF DG THEN Look(G', E.id) ELSE None
DoGetP == E.op = "getp" /\ Keep /\ E.res = IF DP THEN Look(P, E.id) ELSE None
Set(s) == { s[i] : i \in 1 .. Len(s) }
Lists(s, view) == Len(s) = Cardinality(DOMAIN view) /\ Set(s) = Pairs(view)
DoAllG == E.op = "allg" /\ Keep /\ IF DG THEN Lists(E.res, G) ELSE E.res = <<>>
DoAllP == E.op = "allp" /\ Keep /\ IF DP THEN Lists(E.res, P) ELSE E.res = <<>>
DoNear == E.op = "near" /\ Keep /\ DG /\ "res" \in DOMAIN E /\ E.res = NearCid(Tr.m, G, E.c, E.n, E.x)
DoRange == /\ E.op = "range" /\ Keep /\ DG
           /\ LET s == Span(Tr.m, G, E.id) IN
              IF Len(s) < 2 THEN E.err ELSE ~E.err /\ E.lo = s[1] /\ E.hi = s[Len(s)]
Next == Advance /\ (DoSet \/ DoRefresh \/ DoGetG \/ DoGetP \/ DoAllG \/ DoAllP \/ DoNear \/ DoRange)
Spec == Init /\ [][Next]_<<G, P, reg, tid, pos>>
=============================================================================
