----------------------------- MODULE GatewayMC -----------------------------
(* The handlers' design, guard by guard, in a world where anybody sends      *)
(* anything: each request must do to the node, and answer, what Gateway      *)
(* allows.  Drop names a guard left out, which TLC must notice.              *)
EXTENDS Gateway, TLC
CONSTANTS Drop, Steps, Part
VARIABLES st, n, ok, price

Off == << [dg |-> 1, cids |-> <<1>>, exp |-> 9, prov |-> 0, by |-> 0, bad |-> FALSE],
          [dg |-> 2, cids |-> <<1>>, exp |-> 9, prov |-> 1, by |-> 0, bad |-> FALSE],
          [dg |-> 3, cids |-> <<2>>, exp |-> 9, prov |-> 0, by |-> 1, bad |-> FALSE],
          [dg |-> 4, cids |-> <<2>>, exp |-> 9, prov |-> 0, by |-> 0, bad |-> TRUE],
          [dg |-> 5, cids |-> <<1, 2>>, exp |-> 9, prov |-> 1, by |-> 1, bad |-> FALSE],
          [dg |-> 1, cids |-> <<1>>, exp |-> 9, prov |-> 0, by |-> 1, bad |-> FALSE] >>
Price == 2
Bal == <<6, 6, 6, 6>>
Peers == {0, 1}
Init == st = [Fresh0(0 :> 0 @@ 1 :> NoKey, Peers) EXCEPT !.pm = FALSE] /\ n = 0 /\ ok = TRUE /\ price = Price

Guard(g, c) == g = Drop \/ c

\* ---- the administrator and the registry
Initialise == \E k \in {7, 8}, w \in BOOLEAN : st' = (IF w THEN NewWallet(NewKey(st, k, 1)) ELSE NewKey(st, k, 1)) /\ UNCHANGED <<ok, price>>
Register == \E p \in {0, 1}, k \in {0, 1, 2} : st' = [st EXCEPT !.reg[p] = k] /\ UNCHANGED <<ok, price>>
Restart == st' = Restarted(st) /\ UNCHANGED <<ok, price>>

\* ---- a publication: the offers are looked at and stored one by one
RECURSIVE Store(_, _, _, _)
OfferOK(k, o, p) ==
  /\ Guard("name", o.prov = p) /\ Guard("sig", ~o.bad /\ o.by = st.reg[p]) /\ Guard("kind", RightKind(k, o))
Store(S, k, m, i) ==
  IF i > Len(m.os) THEN [S |-> S, ack |-> TRUE]
  ELSE IF OfferOK(k, Off[m.os[i]], m.p) THEN Store(IF Drop = "store" /\ i = 2 THEN S ELSE Put(Off, S, m.os[i]), k, m, i + 1)
  ELSE IF Drop = "all" THEN Store(S, k, m, i + 1)
  ELSE [S |-> S, ack |-> FALSE]
Publish ==
  \E k \in {"dht", "grp"}, p \in {0, 1}, by \in 0 .. 2, i, j \in DOMAIN Off, two \in BOOLEAN, t \in {"", "body"} :
    LET m == [p |-> p, by |-> by, os |-> IF two THEN <<i, j>> ELSE <<i>>, tamper |-> t]
        r == IF Guard("init", Up(st)) /\ Guard("msg", st.reg[p] # NoKey /\ t = "" /\ by = st.reg[p])
             THEN Store(st.S, k, m, 1) ELSE [S |-> st.S, ack |-> FALSE] IN
    /\ st' = [st EXCEPT !.S = r.S] /\ UNCHANGED price
    /\ ok' = (ok /\ r.S \in Stores(Off, st, st.S, k, m) /\ r.ack = Acked(Off, st, k, m))

\* ---- a paid request for q offers
Pay ==
  \E ch \in {0, 2}, l \in {0}, nn \in 0 .. 2, a \in 0 .. 5, by \in {0, 1}, q \in {1, 2} :
    LET v == [ch |-> ch, vch |-> ch, l |-> l, n |-> nn, a |-> a, by |-> by, tamper |-> ""]
        owed == price * q
        good == /\ Guard("init", Up(st)) /\ st.pm
                /\ Genuine(v) /\ Guard("replay", Fresh(st.cr[v.ch], v)) /\ Covered(st.cr[v.ch], v, Bal[v.ch + 1])
        served == good /\ Guard("amount", Worth(st.cr[v.ch], v) >= owed) IN
    /\ st' = IF good THEN Takes(st, v) ELSE st
    /\ price' = IF Drop = "price" /\ served THEN owed ELSE price
    /\ ok' = (ok /\ served = (Paying(st) /\ Pays(st, Bal, v, Owed("stdoffer", Price, Price, q))))

\* ---- asking both peers for q offers each: a channel is topped up when it runs dry
Top == 3
RECURSIVE AskAll(_, _, _)
AskAll(out, G, q) ==
  IF G = {} THEN out
  ELSE LET g == CHOOSE x \in G : \A y \in G : x <= y
           cost == Price * q
           dry == out[g] \div Top # (out[g] + cost) \div Top
           paid == IF dry /\ Drop = "topup" THEN Price ELSE cost IN
       AskAll([out EXCEPT ![g] = @ + paid], G \ {g}, q)
Relay == \E q \in {1, 2}, G \in SUBSET Peers :
    /\ st.out[0] + st.out[1] < 9
    /\ st' = IF Paying(st) THEN [st EXCEPT !.out = AskAll(st.out, G, q)] ELSE st
    /\ UNCHANGED price
    /\ ok' = (ok /\ st'.out = [g \in Peers |-> st.out[g] + IF Paying(st) /\ g \in G THEN Price * q ELSE 0])

Next ==
  /\ n < Steps /\ n' = n + 1
  /\ Initialise \/ Restart \/ (Part = "pub" /\ (Register \/ Publish)) \/ (Part = "paid" /\ Pay) \/ (Part = "relay" /\ Relay)
Spec == Init /\ [][Next]_<<st, n, ok, price>>
Allowed == ok
\* nothing is stored that its provider did not sign under a key it had, nor anything before there was a key
OnlyGenuine == \A x \in st.S : ~Off[x].bad
=============================================================================
