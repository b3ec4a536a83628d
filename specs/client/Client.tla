------------------------------- MODULE Client -------------------------------
(* The client library: which gateways it uses, what it asks them, what it    *)
(* pays, and what of their answers it hands over.                            *)
(*                                                                           *)
(* The state is one record:                                                  *)
(*   use, act   gateways to use, and those of them that proved who they are  *)
(*   reg, preg  gateway / provider -> "ok", "bad" (incomplete data on the    *)
(*              register) or "unreg"                                         *)
(*   pkey       provider -> the key registered for it                        *)
(*   bal, spent gateway -> deposited in the channel to it (NoChan: there is  *)
(*              none), paid in vouchers                                      *)
(* off[i] is [prov, by, cids]: the provider that offer i names, the key it   *)
(* was signed with, and its CIDs.                                            *)
EXTENDS Integers, Sequences, FiniteSets

NoChan == -1
RangeOf(s) == { s[i] : i \in 1 .. Len(s) }
Least(a, b) == IF a < b THEN a ELSE b

Fresh(reg, preg) ==
  [use |-> {}, act |-> {}, reg |-> reg, preg |-> preg, pkey |-> [p \in DOMAIN preg |-> p],
   bal |-> [g \in DOMAIN reg |-> NoChan], spent |-> [g \in DOMAIN reg |-> 0]]

Listed(st, g) == g \in DOMAIN st.reg /\ st.reg[g] = "ok"
Named(st, p) == p \in DOMAIN st.preg /\ st.preg[p] = "ok"

\* ---- the two sets; each gives the new state and the number returned
RECURSIVE Use(_, _)
Use(st, gs) ==
  IF gs = <<>> THEN [st |-> st, n |-> 0]
  ELSE LET g == Head(gs)
           new == g \notin st.use /\ Listed(st, g)
           r == Use(IF new THEN [st EXCEPT !.use = @ \cup {g}] ELSE st, Tail(gs)) IN
       [st |-> r.st, n |-> r.n + IF new THEN 1 ELSE 0]
RECURSIVE Unuse(_, _)
Unuse(st, gs) ==
  IF gs = <<>> THEN [st |-> st, n |-> 0]
  ELSE LET g == Head(gs)
           r == Unuse([st EXCEPT !.use = @ \ {g}, !.act = @ \ {g}], Tail(gs)) IN
       [st |-> r.st, n |-> r.n + IF g \in st.use THEN 1 ELSE 0]
UnuseAll(st) == [st |-> [st EXCEPT !.use = {}, !.act = {}], n |-> Cardinality(st.use)]
\* proves(g): g answers the challenge as its registered owner would
RECURSIVE Activate(_, _, _)
Activate(st, gs, proves) ==
  IF gs = <<>> THEN [st |-> st, n |-> 0, asked |-> <<>>]
  ELSE LET g == Head(gs)
           ask == g \in st.use /\ g \notin st.act
           new == ask /\ g \in proves
           r == Activate(IF new THEN [st EXCEPT !.act = @ \cup {g}] ELSE st, Tail(gs), proves) IN
       [st |-> r.st, n |-> r.n + IF new THEN 1 ELSE 0, asked |-> (IF ask THEN <<g>> ELSE <<>>) \o r.asked]
RECURSIVE Deactivate(_, _)
Deactivate(st, gs) ==
  IF gs = <<>> THEN [st |-> st, n |-> 0]
  ELSE LET g == Head(gs)
           r == Deactivate([st EXCEPT !.act = @ \ {g}], Tail(gs)) IN
       [st |-> r.st, n |-> r.n + IF g \in st.act THEN 1 ELSE 0]
DeactivateAll(st) == [st |-> [st EXCEPT !.act = {}], n |-> Cardinality(st.act)]

\* ---- offers received
\* x is [o, c, mut]: offer o for CID c, changed on the way or not
Genuine(off, st, x, c) ==
  x.mut = "" /\ x.c = c /\ Named(st, off[x.o].prov) /\ off[x.o].by = st.pkey[off[x.o].prov]
Accepted(off, st, xs, c) == SelectSeq(xs, LAMBDA x : Genuine(off, st, x, c))
\* an answer of another gateway inside an answer
Attested(st, s) == s.env = "" /\ Listed(st, s.g)
\* signed by its gateway, though for another question: left open
MaybeAttested(st, s) == s.env \in {"", "cid", "nonce"} /\ Listed(st, s.g)

\* ---- paying gateway g: amt out of the channel, with top-ups where needed
Covers(st, g, amt) == st.bal[g] # NoChan /\ st.bal[g] - st.spent[g] >= amt
Deposit(st, g, top) == [st EXCEPT !.bal[g] = (IF @ = NoChan THEN 0 ELSE @) + top]
Spend(st, g, amt) == [st EXCEPT !.spent[g] = @ + amt]
\* must: the gateway asked for a top-up; fails: the chain refuses
PayUp(st, g, amt, top, must, fails) ==
  IF ~must /\ Covers(st, g, amt) THEN [ok |-> TRUE, st |-> Spend(st, g, amt)]
  ELSE IF fails THEN [ok |-> FALSE, st |-> st]
  ELSE LET a == Deposit(st, g, top) IN
       IF Covers(a, g, amt) THEN [ok |-> TRUE, st |-> Spend(a, g, amt)]
       ELSE LET b == Deposit(a, g, top) IN
            IF Covers(b, g, amt) THEN [ok |-> TRUE, st |-> Spend(b, g, amt)] ELSE [ok |-> FALSE, st |-> b]

\* ---- which digests of which gateways to buy: the first ones, up to room
RECURSIVE Choice(_, _, _)
Choice(st, subs, room) ==
  IF subs = <<>> \/ room <= 0 THEN <<>>
  ELSE LET s == Head(subs) IN
       IF ~Attested(st, s) \/ s.pay \/ ~s.found \/ s.ds = <<>> THEN Choice(st, Tail(subs), room)
       ELSE LET d == SubSeq(s.ds, 1, Least(room, Len(s.ds))) IN
            <<[g |-> s.g, d |-> d]>> \o Choice(st, Tail(subs), room - Len(d))
RECURSIVE Units(_)
Units(ch) == IF ch = <<>> THEN 0 ELSE Len(Head(ch).d) + Units(Tail(ch))

\* ---- an acknowledgement that gateway g holds an offer of p for c: sound
\* evidence whatever question the provider says it answers
Acknowledged(off, st, a, p, c, g) ==
  /\ Named(st, p) /\ Listed(st, g)
  /\ a.env \in {"", "cid", "nonce"} /\ a.found /\ ~a.nomsgs
  /\ a.msg.env = "" \/ (a.msg.env = "by" /\ a.msg.by = st.pkey[p])
  /\ \E i \in 1 .. Len(a.msg.os) : off[a.msg.os[i]].cids[1] = c
  /\ a.ack.env = "" /\ a.ack.by = g /\ a.ack.inner = "ok"

Sound(st) == st.act \subseteq st.use
=============================================================================
