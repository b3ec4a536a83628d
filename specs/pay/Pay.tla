-------------------------------- MODULE Pay --------------------------------
(* Both ends of payment channels.                                            *)
(* Payer, per recipient: the channel held (-1: none), what was deposited in  *)
(* it as far as the payer knows, what was promised over all lanes, and per   *)
(* lane the least nonce still free and the running total.                    *)
(* Payee, per channel and lane: the least acceptable nonce and the credited  *)
(* total.  Amounts are small integers standing for multiples of a unit.      *)
EXTENDS Integers, Sequences, FiniteSets

Lanes == 0 .. 3
NoLane == [next |-> 0, tot |-> 0]
NoLanes == [l \in Lanes |-> NoLane]
NoChan == [ch |-> -1, dep |-> 0, prom |-> 0, lanes |-> NoLanes]

\* ---- payer
\* a completed top-up of a new channel (number n on the chain) or of the one held
Opened(p, n, a) == [p EXCEPT !.ch = n, !.dep = a]
Grown(p, a) == [p EXCEPT !.dep = @ + a]
CanPay(p, a) == p.ch # -1 /\ p.prom + a <= p.dep
\* voucher v = [ch, lane, nonce, amt] is right for paying a on lane l
GoodVoucher(p, l, a, v) ==
  /\ v.ch = p.ch /\ v.lane = l
  /\ v.nonce >= p.lanes[l].next
  /\ v.amt = p.lanes[l].tot + a
Paid(p, l, a, nonce) ==
  [p EXCEPT !.prom = @ + a, !.lanes[l] = [next |-> nonce + 1, tot |-> @.tot + a]]
PromisedSum(p) == p.lanes[0].tot + p.lanes[1].tot + p.lanes[2].tot + p.lanes[3].tot
PayerOK(p) == p.prom = PromisedSum(p) /\ p.prom <= p.dep

\* ---- payee
NoCredit == NoLanes
Credited(c) == c[0].tot + c[1].tot + c[2].tot + c[3].tot
\* who pays on which of the payee's channels; other channels pay somebody else or do not exist
PayerOf == <<0, 0, 1>>
Mine == 0 .. 2
\* c: lane states of the channel the voucher is presented for; x: the voucher as presented
Genuine(x) == x.ch = x.vch /\ x.ch \in Mine /\ x.by = PayerOf[x.ch + 1] /\ x.tamper = ""
Fresh(c, x) == x.n >= c[x.l].next /\ x.a > c[x.l].tot
Worth(c, x) == x.a - c[x.l].tot
Covered(c, x, bal) == Credited(c) + Worth(c, x) <= bal
Accept(c, x, bal) == Genuine(x) /\ Fresh(c, x) /\ Covered(c, x, bal)
After(c, x) == [c EXCEPT ![x.l] = [next |-> x.n + 1, tot |-> x.a]]
=============================================================================
