----------------------------- MODULE RingTrace -----------------------------
(* Validates what the real ring answered against Ring.tla.                  *)
EXTENDS Ring, TraceKit
CONSTANT Judge   \* which observations this run judges: "content", "closest", "range"
VARIABLE S

Init == TKInit /\ S = {}

Has(e, f) == f \in DOMAIN e
\* content as read back through the public interface, listed clockwise from hex zero
ContentOK(e, T) ==
  "content" \in Judge =>
    /\ Has(e, "size") => e.size = Cardinality(T)
    /\ Has(e, "all")  => e.all = SetToSortSeq(T, LAMBDA a, b : CW(Tr.m, Tr.zero, a) < CW(Tr.m, Tr.zero, b))

DoIns == E.op = "ins" /\ S' = Ins(S, E.k) /\ ContentOK(E, S')
DoDel == E.op = "del" /\ S' = Del(S, E.k) /\ ContentOK(E, S')
\* malformed identifiers: no effect
DoBad == E.op = "bad" /\ S' = S /\ ContentOK(E, S)
DoObs == E.op = "obs" /\ S' = S /\ ContentOK(E, S)
DoClosest ==
  /\ E.op = "closest" /\ S' = S
  /\ "closest" \in Judge => Has(E, "res") /\ E.res = Closest(Tr.m, S, E.t, E.n, E.x)
  /\ ContentOK(E, S)
DoRange ==
  /\ E.op = "range" /\ S' = S
  /\ "range" \in Judge => Has(E, "res") /\ E.res = Arc(Tr.m, S, E.a, E.b)
  /\ ContentOK(E, S)
\* queries with a malformed identifier must report an error
DoBadQuery ==
  /\ E.op = "badq" /\ S' = S
  /\ E.q \in Judge => E.err
  /\ ContentOK(E, S)
\* a query crashed: only a run judging something else may look past it (the trace ends there)
DoPanic == E.op = "panic" /\ S' = S /\ E.q \notin Judge /\ E.q # "content"

Next == Advance /\ (DoIns \/ DoDel \/ DoBad \/ DoObs \/ DoClosest \/ DoRange \/ DoBadQuery \/ DoPanic)
Spec == Init /\ [][Next]_<<S, tid, pos>>
=============================================================================
