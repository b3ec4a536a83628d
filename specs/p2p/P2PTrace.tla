------------------------------ MODULE P2PTrace ------------------------------
(* Recorded histories of requests through the real server.  A call that got  *)
(* an answer got the one its peer made for it.  A call to a registered peer  *)
(* that answers must succeed, unless it overlaps with one that the peer      *)
(* leaves in the lurch, or its pooled connection was broken by the peer and  *)
(* nobody noticed yet.                                                       *)
EXTENDS TraceKit
VARIABLES open, dirty, gone
Init == TKInit /\ open = {} /\ dirty = {} /\ gone = <<>>
Fails == {"late", "late2", "none", "cut", "half", "reqerr", "early", "latehalf"}
Known(p) == p <= Tr.peers
Taint(S, p) == { IF q.p = p THEN [q EXCEPT !.taint = TRUE] ELSE q : q \in S }
(* A peer that is restarting (possibly by several threads at a time) refuses connections. *)
IsDown(p) == \E i \in DOMAIN gone : gone[i] = p
Begin ==
  /\ E.op = "B" /\ UNCHANGED <<dirty, gone>>
  /\ LET bad == E.beh \in Fails
         me == [id |-> E.id, p |-> E.p, bad |-> bad, was |-> E.p \in dirty /\ ~IsDown(E.p),
                taint |-> E.p \in dirty \/ IsDown(E.p) \/ \E q \in open : q.p = E.p /\ q.bad] IN
     open' = (IF bad THEN Taint(open, E.p) ELSE open) \cup {me}
End ==
  /\ E.op = "E" /\ UNCHANGED gone
  /\ \E q \in open :
       /\ q.id = E.id /\ open' = open \ {q}
       /\ E.ok => E.rid = q.id /\ E.rp = q.p /\ E.whole /\ Known(q.p)
       /\ ~E.ok => q.bad \/ q.taint \/ ~Known(q.p)
       /\ dirty' = IF ~E.ok /\ q.was THEN dirty \ {q.p} ELSE dirty
Strike == dirty' = dirty \cup {E.p} /\ open' = Taint({ [q EXCEPT !.was = @ /\ q.p # E.p] : q \in open }, E.p)
Down == E.op = "down" /\ Strike /\ gone' = Append(gone, E.p)
Up == /\ E.op = "up" /\ Strike
      /\ \E i \in DOMAIN gone : gone[i] = E.p /\ (\A j \in 1 .. i - 1 : gone[j] # E.p) /\ gone' = SubSeq(gone, 1, i - 1) \o SubSeq(gone, i + 1, Len(gone))
Next == Advance /\ (Begin \/ End \/ Down \/ Up)
Spec == Init /\ [][Next]_<<open, dirty, gone, tid, pos>>
=============================================================================
