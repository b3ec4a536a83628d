------------------------------ MODULE OffersMC ------------------------------
(* Design check: an index per CID with lazy removal of expired offers, as   *)
(* the provider's store keeps it, always answers what Offers.tla asks for.   *)
EXTENDS Offers
CONSTANTS NCid, TMax
VARIABLES S, idx, now, out   \* stored ids (kept for ever), index cid -> ids, clock, last answer

Cids == 0 .. NCid - 1
Off == << [dg |-> 1, cids |-> <<0>>, exp |-> 2], [dg |-> 2, cids |-> <<0, 1>>, exp |-> 1],
          [dg |-> 3, cids |-> <<1, 2>>, exp |-> 3], [dg |-> 1, cids |-> <<0>>, exp |-> 2],
          [dg |-> 5, cids |-> <<2>>, exp |-> TMax + 1], [dg |-> 6, cids |-> <<2, 1, 0>>, exp |-> 2],
          [dg |-> 7, cids |-> <<1, 1>>, exp |-> 2] >>
Ids == 1 .. Len(Off)
vars == <<S, idx, now, out>>
None == [q |-> "none"]
Init == S = {} /\ idx = [c \in Cids |-> {}] /\ now = 0 /\ out = None

\* the implementation's steps
Known(x) == \E y \in idx[Off[x].cids[1]] : Off[y].dg = Off[x].dg
Add(x) ==
  /\ out' = None /\ UNCHANGED now
  /\ IF Known(x) \/ Off[x].exp <= now THEN UNCHANGED <<S, idx>>
     ELSE /\ idx' = [c \in Cids |-> IF c \in CidSet(Off[x]) THEN idx[c] \cup {x} ELSE idx[c]]
          /\ S' = Put(Off, S, x)
Get(c) ==
  LET dead == { x \in idx[c] : Off[x].exp <= now } IN
  /\ out' = [q |-> "get", c |-> c, r |-> idx[c] \ dead]
  /\ idx' = [d \in Cids |-> idx[d] \ dead]
  /\ UNCHANGED <<S, now>>
ByDigest(d) ==
  /\ out' = [q |-> "dig", d |-> d, r |-> { x \in UNION { idx[c] : c \in Cids } : Off[x].dg = d /\ Off[x].exp > now }]
  /\ UNCHANGED <<S, idx, now>>
Tick == now < TMax /\ now' = now + 1 /\ out' = None /\ UNCHANGED <<S, idx>>
Next == (\E x \in Ids : Add(x)) \/ (\E c \in Cids : Get(c)) \/ (\E d \in Ids : ByDigest(d)) \/ Tick
Spec == Init /\ [][Next]_vars

AnswerOK ==
  /\ out.q = "get" => out.r = HasCid(Off, Must(Off, S, now), out.c)
  /\ out.q = "dig" => out.r = HasDigest(Off, Must(Off, S, now), out.d) /\ Cardinality(out.r) <= 1
\* an unexpired stored offer is under all of its CIDs, or (never) under none
Whole == \A x \in S : Off[x].exp > now => \A c \in CidSet(Off[x]) : x \in idx[c]
OneEach == \A x, y \in Must(Off, S, now) : Off[x].dg = Off[y].dg => x = y
=============================================================================
