----------------------------- MODULE GroupTrace -----------------------------
(* The gateways a provider takes to support its group offers, by the notices *)
(* it was given.  The notices of one event come at the same time.            *)
EXTENDS Provider, TraceKit
VARIABLES st, grp

Init == /\ TKInit /\ grp = {}
        /\ st = Fresh([g \in 0 .. Traces[tid].n - 1 |-> IF g \in Range(Traces[tid].unreg) THEN NoKey ELSE g])
DoNotes ==
  /\ E.op = "notes" /\ st' = st
  /\ \A i \in 1 .. Len(E.ns) : LET m == E.ns[i] IN IF Authentic(st, m) THEN m.res = "ok" /\ m.good ELSE m.res \in {"inv", "none"}
  /\ LET good(g) == { E.ns[i].on : i \in { j \in 1 .. Len(E.ns) : E.ns[j].g = g /\ Authentic(st, E.ns[j]) } } IN
     /\ grp' = Range(E.list) /\ Once(E.list)
     /\ \A g \in DOMAIN st.reg : IF good(g) = {} THEN (g \in grp') = (g \in grp) ELSE (g \in grp') \in good(g)
     /\ grp' \subseteq DOMAIN st.reg
DoRekey == E.op = "rekey" /\ st' = [st EXCEPT !.reg[E.g] = E.k] /\ UNCHANGED grp
Next == Advance /\ (DoNotes \/ DoRekey)
Spec == Init /\ [][Next]_<<st, grp, tid, pos>>
=============================================================================
