---------------------------- MODULE PayConcTrace ----------------------------
(* Concurrent histories of a payment manager: is there a sequential order of *)
(* the calls, each between its begin and its end, that explains every answer? *)
EXTENDS Pay, TraceKit
VARIABLES P, C, run   \* run: calls begun and not ended: [e: begin event, lin: taken effect]
Init == /\ TKInit /\ P = [r \in 0 .. 1 |-> NoChan] /\ C = [k \in Mine |-> NoCredit] /\ run = {}
Ended(id) == \E j \in pos .. Len(Tr.ev) : Tr.ev[j].op = "E" /\ Tr.ev[j].id = id
Result(id) == Tr.ev[CHOOSE j \in pos .. Len(Tr.ev) : Tr.ev[j].op = "E" /\ Tr.ev[j].id = id]
Begin == Advance /\ E.op = "B" /\ run' = run \cup {[e |-> E, lin |-> FALSE]} /\ UNCHANGED <<P, C>>
End == Advance /\ E.op = "E" /\ \E q \in run : q.e.id = E.id /\ q.lin /\ run' = run \ {q} /\ UNCHANGED <<P, C>>
Effect(b, res) ==
  CASE b.k = "topup" ->
         /\ res.out = "ok" /\ C' = C
         /\ P' = [P EXCEPT ![b.r] = IF @.ch = -1 THEN Opened(@, Tr.chan[b.r + 1], b.a) ELSE Grown(@, b.a)]
    [] b.k = "pay" ->
         /\ C' = C
         /\ LET p == P[b.r] IN
            IF CanPay(p, b.a)
            THEN /\ res.out = "ok" /\ res.sig /\ GoodVoucher(p, b.l, b.a, [ch |-> res.vch, lane |-> b.l, nonce |-> res.nonce, amt |-> res.amt])
                 /\ P' = [P EXCEPT ![b.r] = Paid(p, b.l, b.a, res.nonce)]
            ELSE res.out = "need" /\ P' = P
    [] b.k = "recv" ->
         /\ P' = P
         /\ IF b.ch \in Mine /\ Accept(C[b.ch], b, Tr.bal[b.ch + 1])
            THEN res.credit = Worth(C[b.ch], b) /\ C' = [C EXCEPT ![b.ch] = After(@, b)]
            ELSE res.credit = -1 /\ C' = C
\* a call takes effect only when some running call is about to return (fewer orders, none lost)
Lin == /\ More /\ E.op = "E" /\ \E q \in run : q.e.id = E.id /\ ~q.lin
       /\ \E q \in run : ~q.lin /\ Ended(q.e.id) /\ Effect(q.e, Result(q.e.id))
            /\ run' = (run \ {q}) \cup {[q EXCEPT !.lin = TRUE]}
       /\ UNCHANGED <<tid, pos>>
\* at the end: what the chain holds for each recipient
Chain == /\ Advance /\ E.op = "chain" /\ UNCHANGED <<P, C, run>>
         /\ \A r \in 0 .. 1 : E.open[r + 1].sum = P[r].dep /\ E.open[r + 1].n = IF P[r].ch = -1 THEN 0 ELSE 1
Next == Begin \/ End \/ Lin \/ Chain
Spec == Init /\ [][Next]_<<P, C, run, tid, pos>>
=============================================================================
