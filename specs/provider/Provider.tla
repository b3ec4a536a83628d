------------------------------ MODULE Provider ------------------------------
(* A provider node as the outside sees it: whom it sends its offers, what it *)
(* lists for a gateway, and which acknowledgements it keeps and shows.       *)
(*                                                                           *)
(* The state is one record:                                                  *)
(*   sk, ver  the key given by the administrator (-1: none yet), its version *)
(*   S        the stored DHT offers, each <<item, key it was signed with>>   *)
(*   reg      gateway -> registered key (-1: not registered)                 *)
(*   pubd     gateway -> offers it acknowledged when they were published     *)
(*   lst      gateway -> offers it acknowledged after having listed them     *)
(*   acks     what a client can be shown: [g, os, sk, ak], the gateway, the  *)
(*            offers of the message, the keys of message and acknowledgement *)
(* off[i] is [dg, cids, exp]: item i of the scenario (see Offers).           *)
EXTENDS Offers
R == INSTANCE Ring

NoKey == -1
Ring256 == 256
Reach == 16     \* a DHT offer goes to this many gateways
Cap == 500      \* no listing is longer

Fresh(reg) == [sk |-> NoKey, ver |-> 0, S |-> {}, reg |-> reg, pubd |-> [g \in DOMAIN reg |-> {}], lst |-> [g \in DOMAIN reg |-> {}], acks |-> {}]
Up(st) == st.sk # NoKey
NewKey(st, k, ver) == [st EXCEPT !.sk = k, !.ver = ver]
Restarted(st) == Fresh(st.reg)
Known(st) == { g \in DOMAIN st.reg : st.reg[g] # NoKey }
Authentic(st, m) == m.tamper = "" /\ m.g \in DOMAIN st.reg /\ st.reg[m.g] # NoKey /\ m.by = st.reg[m.g]

\* ---- publishing
\* pos: the position of each gateway
NearGateways(st, pos, c) ==
  LET near == R!ClosestSet(Ring256, { pos[g] : g \in Known(st) }, c, Reach, R!NoId) IN { g \in Known(st) : pos[g] \in near }
\* where each offer of a publication goes
Goes(off, st, pos, k, os) == [j \in 1 .. Len(os) |-> IF k = "dht" THEN NearGateways(st, pos, off[os[j]].cids[1]) ELSE Known(st)]
\* the offers that gateway g is sent
Due(st, os, goes, g) == { <<os[i], st.sk>> : i \in { j \in 1 .. Len(os) : g \in goes[j] } }
RECURSIVE StoreAll(_, _)
StoreAll(S, xs) ==
  IF xs = <<>> THEN S
  ELSE StoreAll(IF \E y \in S : y[1] = Head(xs)[1] THEN S ELSE S \cup {Head(xs)}, Tail(xs))
Signed(st, os) == [i \in 1 .. Len(os) |-> <<os[i], st.sk>>]
\* gateway g acknowledged a message with the offers os under key ak
Accepted(st, g, os, ak) ==
  [st EXCEPT !.pubd[g] = @ \cup Range(os), !.acks = @ \cup {[g |-> g, os |-> os, sk |-> st.sk, ak |-> ak]}]
AcceptedGroup(st, g, os) == [st EXCEPT !.pubd[g] = @ \cup Range(os)]
AcceptedList(st, g, os, ak) ==
  [st EXCEPT !.lst[g] = @ \cup Range(os), !.acks = @ \cup {[g |-> g, os |-> os, sk |-> st.sk, ak |-> ak]}]

\* ---- listing
Listing(off, st, a, b) == { x \in st.S : InArc(off[x[1]].cids[1], a, b) }
LiveAt(off, X, t) == { x \in X : off[x[1]].exp > t }

\* ---- what clients are shown
AcksFor(off, st, g, c) == { a \in st.acks : a.g = g /\ \E i \in 1 .. Len(a.os) : off[a.os[i][1]].cids[1] = c }
=============================================================================
