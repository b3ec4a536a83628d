------------------------------ MODULE Gateway ------------------------------
(* A gateway node as the outside sees it: what makes it store, acknowledge,  *)
(* answer, take money, ask its peers and tell its providers.                 *)
(*                                                                           *)
(* The state is one record:                                                  *)
(*   sk, ver  the key given by the administrator (-1: none yet), its version *)
(*   pm       whether it was given a wallet                                  *)
(*   S        the stored offers (see Offers.tla)                             *)
(*   cr       what each lane of each incoming channel brought (see Pay.tla)  *)
(*   reg      provider -> registered key (-1: not registered)                *)
(*   out      peer -> total promised to it (-1: unknown after a failure)     *)
(* An offer is [dg, cids, exp, prov, by, bad]: its digest, CIDs and expiry,  *)
(* the provider it names, the key that signed it, whether it was altered     *)
(* since.  A message from a provider is [p, by, os, tamper].                 *)
EXTENDS Offers, Pay

NoKey == -1
Fresh0(reg, peers) ==
  [sk |-> NoKey, ver |-> 0, pm |-> FALSE, S |-> {}, cr |-> [k \in Mine |-> NoCredit],
   reg |-> reg, out |-> [g \in peers |-> 0]]
Up(st) == st.sk # NoKey
Paying(st) == Up(st) /\ st.pm

\* ---- the administrator
NewKey(st, k, ver) == [st EXCEPT !.sk = k, !.ver = ver]
\* a new wallet starts with a clean slate in both directions
NewWallet(st) == [st EXCEPT !.pm = TRUE, !.cr = [k \in Mine |-> NoCredit], !.out = [g \in DOMAIN st.out |-> 0]]
\* the process starts again: only the database is left
Restarted(st) == [NewWallet(st) EXCEPT !.sk = NoKey, !.pm = FALSE]

\* ---- offers arriving
Authentic(st, m) == m.tamper = "" /\ st.reg[m.p] # NoKey /\ m.by = st.reg[m.p]
GoodOffer(st, o, p) == ~o.bad /\ o.prov = p /\ o.by = st.reg[p]
RightKind(k, o) == k = "dht" => ~IsGroup(o)
Storable(off, st, k, m) == { i \in 1 .. Len(m.os) : GoodOffer(st, off[m.os[i]], m.p) /\ RightKind(k, off[m.os[i]]) }
Acked(off, st, k, m) == Up(st) /\ Authentic(st, m) /\ Storable(off, st, k, m) = 1 .. Len(m.os)
RECURSIVE PutAll(_, _, _)
PutAll(off, S, xs) == IF xs = <<>> THEN S ELSE PutAll(off, Put(off, S, Head(xs)), Tail(xs))
\* positions I of the message's offers, in the order of the message
Chosen(os, I) == LET pick[i \in 0 .. Len(os)] == IF i = 0 THEN <<>> ELSE IF i \in I THEN Append(pick[i - 1], os[i]) ELSE pick[i - 1] IN pick[Len(os)]
\* what the store may be after the message: all of it if acknowledged; otherwise nothing that is not good
Stores(off, st, S, k, m) ==
  IF Acked(off, st, k, m) THEN {PutAll(off, S, m.os)}
  ELSE IF Up(st) /\ Authentic(st, m) THEN { PutAll(off, S, Chosen(m.os, I)) : I \in SUBSET Storable(off, st, k, m) }
  ELSE {S}

\* ---- answers
Owed(via, sp, price, n) == IF via \in {"std2", "peer2", "dht2"} THEN sp * n ELSE price * n
\* v brings at least the amount owed
Pays(st, bal, v, owed) ==
  /\ v.ch \in Mine /\ v.l \in Lanes
  /\ Accept(st.cr[v.ch], v, bal[v.ch + 1]) /\ Worth(st.cr[v.ch], v) >= owed
Takes(st, v) == [st EXCEPT !.cr[v.ch] = After(@, v)]
\* after a refusal the payment may have been taken or not, but only if it was good
Refused(st, bal, v) ==
  {st} \cup IF Paying(st) /\ v.ch \in Mine /\ v.l \in Lanes /\ Accept(st.cr[v.ch], v, bal[v.ch + 1]) THEN {Takes(st, v)} ELSE {}
=============================================================================
