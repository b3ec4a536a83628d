------------------------------- MODULE PayGen -------------------------------
(* Script generator for the payment manager.                                 *)
EXTENDS Pay, TLC, Json, Randomization
CONSTANTS Role, NRec, Depth
VARIABLES P, C, bal, h
Pick(T, n) == IF T = {} THEN {} ELSE RandomSubset(IF Cardinality(T) < n THEN Cardinality(T) ELSE n, T)
Bal0 == <<6, 9, 4, 50>>
Init == P = [r \in 0 .. NRec - 1 |-> NoChan] /\ C = [k \in Mine |-> NoCredit] /\ bal = Bal0 /\ h = <<>>
Op(r) == h' = Append(h, r)
Methods == {"MpoolGetNonce", "GasEstimateGasLimit", "GasEstimateGasPremium", "GasEstimateFeeCap", "MpoolPush", "exit"}
Topup == \E r \in Pick(DOMAIN P, 1), a \in Pick(0 .. 9, 1), f \in Pick(1 .. 5, 1), m \in Pick(Methods, 1), af \in Pick(BOOLEAN, 1) :
  /\ P' = IF f = 1 THEN P ELSE [P EXCEPT ![r] = IF @.ch = -1 THEN Opened(@, r, a) ELSE Grown(@, a)]
  /\ Op([op |-> "topup", r |-> r, a |-> a, fail |-> IF f = 1 THEN m ELSE "", nth |-> 0, after |-> af])
  /\ UNCHANGED <<C, bal>>
Pay1 == \E r \in Pick(DOMAIN P, 2), l \in Pick(Lanes, 1) :
  \E a \in Pick(0 .. 4, 2) \cup {x \in {P[r].dep - P[r].prom, P[r].dep - P[r].prom + 1} : x >= 0} :
  /\ P' = IF CanPay(P[r], a) THEN [P EXCEPT ![r] = Paid(@, l, a, P[r].lanes[l].next)] ELSE P
  /\ Op([op |-> "pay", r |-> r, l |-> l, a |-> a])
  /\ UNCHANGED <<C, bal>>
Dep == \E k \in Pick(Mine, 1), a \in Pick(1 .. 5, 1) :
  bal' = [bal EXCEPT ![k + 1] = @ + a] /\ Op([op |-> "dep", ch |-> k, a |-> a]) /\ UNCHANGED <<P, C>>
Tamper == {"sig", "amount", "lane", "nonce", "chan", "nosig", "bls", "short", "neg", "b64", "trunc", "flip", "empty", "badlen", "merge", "notyet", "over", "secret", "extra"}
RMethods == {"StateReadState", "StateAccountKey"}
\* a voucher that is right, or nearly so
Recv == \E k \in Pick(0 .. 4, 1) \cup Pick(Mine, 4), l \in Pick(Lanes, 1) :
  LET c == IF k \in Mine THEN C[k] ELSE NoCredit
      left == IF k \in Mine THEN bal[k + 1] - Credited(c) ELSE 3 IN
  \E n \in Pick({c[l].next, c[l].next, c[l].next + 1, 3} \cup {x \in {c[l].next - 1} : x >= 0}, 1) \cup {c[l].next},
     a \in Pick({c[l].tot + 1, c[l].tot + 2, c[l].tot, c[l].tot + left, c[l].tot + left + 1} \cup {x \in {c[l].tot - 1} : x >= 0}, 2) :
  \E z \in Pick(1 .. 10, 1), pk \in Pick(0 .. 5, 1), by2 \in Pick(0 .. 2, 1), tm \in Pick(Tamper, 1), how \in Pick({"f", "t"}, 1), m \in Pick(RMethods, 1), nth \in Pick(0 .. 1, 1) :
  LET by == IF k \in Mine THEN PayerOf[k + 1] ELSE 0
      v == [ch |-> k, l |-> l, n |-> n, a |-> a, by |-> IF z = 1 THEN by2 ELSE by, tamper |-> IF z \in {2, 6} THEN tm ELSE "", d |-> nth + 1]
      x == [ch |-> IF z \in {3, 4} THEN pk ELSE k, vch |-> k, l |-> l, n |-> n, a |-> a, by |-> v.by, tamper |-> v.tamper]
      fl == IF z = 5 THEN m ELSE "" IN
  /\ C' = IF x.ch \in Mine /\ fl = "" /\ Accept(C[x.ch], x, bal[x.ch + 1]) THEN [C EXCEPT ![x.ch] = After(@, x)] ELSE C
  /\ Op([op |-> "recv", ch |-> x.ch, how |-> how, v |-> v, fail |-> fl, nth |-> nth, after |-> z = 5 /\ pk < 3])
  /\ UNCHANGED <<P, bal>>
\* present one of the last vouchers again, maybe elsewhere
Again == \E i \in Pick({ j \in 1 .. Len(h) : h[j].op = "recv" }, 2), k \in Pick(0 .. 3, 1), z \in Pick(1 .. 2, 1), how \in Pick({"f", "t"}, 1) :
  LET o == h[i]  ch == IF z = 1 THEN k ELSE o.ch
      x == [ch |-> ch, vch |-> o.v.ch, l |-> o.v.l, n |-> o.v.n, a |-> o.v.a, by |-> o.v.by, tamper |-> o.v.tamper] IN
  /\ C' = IF ch \in Mine /\ Accept(C[ch], x, bal[ch + 1]) THEN [C EXCEPT ![ch] = After(@, x)] ELSE C
  /\ Op([o EXCEPT !.ch = ch, !.how = how, !.fail = ""])
  /\ UNCHANGED <<P, bal>>
Next == Len(h) < Depth /\ IF Role = "payer" THEN Topup \/ Pay1 \/ Pay1 ELSE Dep \/ Recv \/ Again
Spec == Init /\ [][Next]_<<P, C, bal, h>>
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
