------------------------------ MODULE PayTrace ------------------------------
(* Sequential histories of a payment manager, as payer and as payee.        *)
EXTENDS Pay, TraceKit
VARIABLES P, C, bal

Payer == Tr.role = "payer"
Init == /\ TKInit
        /\ P = [r \in 0 .. 7 |-> NoChan]
        /\ C = [k \in Mine |-> NoCredit]
        /\ bal = IF Traces[tid].role = "payer" THEN <<>> ELSE Traces[tid].bal

Has(e, f) == f \in DOMAIN e

\* the one message a top-up may put on the chain
GoodPush(p, x) ==
  /\ x.v = E.a
  /\ IF p.ch = -1 THEN x.create /\ x.to = E.r ELSE ~x.create /\ x.ch = p.ch
DoTopup ==
  /\ E.op = "topup" /\ Has(E, "kept") /\ E.kept
  /\ UNCHANGED <<C, bal>>
  /\ LET p == P[E.r] IN
     /\ Len(E.push) <= 1 /\ \A i \in 1 .. Len(E.push) : GoodPush(p, E.push[i])
     /\ E.fail = "" => ~E.err
     /\ IF E.err THEN P' = P
        ELSE /\ Len(E.push) = 1 /\ E.push[1].exit = 0
             /\ P' = [P EXCEPT ![E.r] = IF p.ch = -1 THEN Opened(p, E.push[1].ch, E.a) ELSE Grown(p, E.a)]
DoPay ==
  /\ E.op = "pay" /\ Has(E, "kept") /\ E.kept
  /\ UNCHANGED <<C, bal>>
  /\ LET p == P[E.r] IN
     IF CanPay(p, E.a)
     THEN /\ E.out = "ok" /\ E.v.sig /\ E.vch = p.ch /\ GoodVoucher(p, E.l, E.a, E.v)
          /\ P' = [P EXCEPT ![E.r] = Paid(p, E.l, E.a, E.v.nonce)]
     ELSE E.out \in {"need", "err"} /\ P' = P
DoDep == E.op = "dep" /\ bal' = [bal EXCEPT ![E.ch + 1] = @ + E.a] /\ UNCHANGED <<P, C>>
\* the largest nonce there is: nothing newer can follow it, so it may be refused
Top == 1000
DoRecv ==
  /\ E.op = "recv" /\ UNCHANGED <<P, bal>>
  /\ IF E.ch \in Mine /\ Accept(C[E.ch], E, bal[E.ch + 1])
     THEN IF E.credit = -1 THEN (E.fail \/ E.n = Top) /\ C' = C
          ELSE E.credit = Worth(C[E.ch], E) /\ C' = [C EXCEPT ![E.ch] = After(@, E)]
     ELSE E.credit = -1 /\ C' = C
Next == Advance /\ (DoTopup \/ DoPay \/ DoDep \/ DoRecv)
Spec == Init /\ [][Next]_<<P, C, bal, tid, pos>>
=============================================================================
