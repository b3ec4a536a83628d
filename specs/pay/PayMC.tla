-------------------------------- MODULE PayMC --------------------------------
(* Design check of payer and payee together: one payer, two channels to the  *)
(* same payee, two lanes, and a network that replays, reorders and presents  *)
(* any issued voucher under any channel and either spelling of its address.  *)
(* ByName: the payee keeps its state by spelling instead of by channel.      *)
(* AnyChannel: the payee does not compare the voucher's channel.             *)
EXTENDS Pay, TLC
CONSTANTS MaxDep, MaxVch, ByName, AnyChannel
VARIABLES P, bal, issued, book, got
vars == <<P, bal, issued, book, got>>
Chs == {0, 1}
Names == {"t", "f"}
Key(ch, nm) == IF ByName THEN <<ch, nm>> ELSE <<ch, "t">>
Init ==
  /\ P = [r \in Chs |-> NoChan] /\ bal = [k \in Chs |-> 0] /\ issued = {}
  /\ book = [k \in Chs \X Names |-> NoCredit] /\ got = [k \in Chs |-> 0]
Topup(r, a) ==
  /\ bal[r] + a <= MaxDep
  /\ P' = [P EXCEPT ![r] = IF @.ch = -1 THEN Opened(@, r, a) ELSE Grown(@, a)]
  /\ bal' = [bal EXCEPT ![r] = @ + a] /\ UNCHANGED <<issued, book, got>>
DoPay(r, l, a) ==
  /\ Cardinality(issued) < MaxVch /\ CanPay(P[r], a)
  /\ LET v == [ch |-> P[r].ch, lane |-> l, nonce |-> P[r].lanes[l].next, amt |-> P[r].lanes[l].tot + a] IN
     /\ GoodVoucher(P[r], l, a, v)
     /\ issued' = issued \cup {v} /\ P' = [P EXCEPT ![r] = Paid(@, l, a, v.nonce)]
  /\ UNCHANGED <<bal, book, got>>
Present(v, ch, nm) ==
  LET x == [ch |-> ch, vch |-> IF AnyChannel THEN ch ELSE v.ch, l |-> v.lane, n |-> v.nonce, a |-> v.amt, by |-> 0, tamper |-> ""]
      k == Key(ch, nm) IN
  /\ Accept(book[k], x, bal[ch])
  /\ book' = [book EXCEPT ![k] = After(@, x)]
  /\ got' = [got EXCEPT ![ch] = @ + Worth(book[k], x)]
  /\ UNCHANGED <<P, bal, issued>>
Next == \/ \E r \in Chs, a \in 1 .. 2 : Topup(r, a) \/ \E l \in {0, 1} : DoPay(r, l, a)
        \/ \E v \in issued, ch \in Chs, nm \in Names : Present(v, ch, nm)
Spec == Init /\ [][Next]_vars

Max0(T) == IF T = {} THEN 0 ELSE CHOOSE m \in T : \A n \in T : n <= m
Promised == \A r \in Chs : PayerOK(P[r])
UniqueNonces == \A v, w \in issued : (v.ch = w.ch /\ v.lane = w.lane /\ v.nonce = w.nonce) => v = w
\* the payee never counts more on a channel than the payer promised there (each coin once)
OnceEach == \A k \in Chs : got[k] <= P[k].prom /\ got[k] <= bal[k]
SumOfHighest == \A k \in Chs : got[k] = Credited(book[<<k, "t">>]) 
=============================================================================
