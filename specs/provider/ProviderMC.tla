----------------------------- MODULE ProviderMC -----------------------------
(* The provider's design, guard by guard, among gateways that acknowledge or *)
(* not: each request must do what Provider says.  Drop names a guard left    *)
(* out, which TLC must notice.  The ring is small: an offer goes to the      *)
(* nearest gateway only, and a message holds one offer.                      *)
EXTENDS Provider, TLC
CONSTANTS Drop, Steps
VARIABLES st, n, ok, truth

Off == << [dg |-> 1, cids |-> <<1>>, exp |-> 9], [dg |-> 2, cids |-> <<6>>, exp |-> 9], [dg |-> 3, cids |-> <<6>>, exp |-> 9] >>
Pos == 0 :> 0 @@ 1 :> 5
Gws == {0, 1}
Init == st = Fresh(0 :> 0 @@ 1 :> 1) /\ n = 0 /\ ok = TRUE /\ truth = {}
Guard(g, c) == g = Drop \/ c

NearOne(s, c) == LET near == R!ClosestSet(16, { Pos[g] : g \in Known(s) }, c, 1, R!NoId) IN { g \in Known(s) : Pos[g] \in near }
Initialise == \E k \in {7, 8} : st' = NewKey(st, k, 1) /\ UNCHANGED <<ok, truth>>
Register == \E g \in Gws, k \in {NoKey, 0, 1} : st' = [st EXCEPT !.reg[g] = k] /\ UNCHANGED <<ok, truth>>
Restart == st' = Restarted(st) /\ truth' = {} /\ UNCHANGED ok

\* ---- publishing: every gateway answers good, bad (wrong key or text) or not
RECURSIVE Ask(_, _, _, _)
Ask(s, G, os, ans) ==
  IF G = {} THEN s
  ELSE LET g == CHOOSE x \in G : TRUE
           due == SelectSeq(os, LAMBDA i : Drop = "near" \/ g \in NearOne(s, Off[i].cids[1]))
           m == [i \in 1 .. Len(due) |-> <<due[i], s.sk>>]
           yes == Guard("ack", ans[g] = "good") /\ ans[g] # "none" IN
       Ask(IF due # <<>> /\ yes THEN Accepted(s, g, m, s.reg[g]) ELSE s, G \ {g}, os, ans)
Publish ==
  \E i, j \in DOMAIN Off, two \in BOOLEAN, ans \in [Gws -> {"good", "bad", "none"}] :
    LET os == IF two THEN <<i, j>> ELSE <<i>>
        up == Guard("init", Up(st))
        G == UNION { NearOne(st, Off[os[x]].cids[1]) : x \in 1 .. Len(os) }
        s == IF up THEN [Ask(st, G, os, ans) EXCEPT !.S = StoreAll(st.S, Signed(st, os))] ELSE st
        goes == [x \in 1 .. Len(os) |-> NearOne(st, Off[os[x]].cids[1])]
        want == { <<g, y>> : g \in { x \in Known(st) : ans[x] = "good" }, y \in Range(Signed(st, os)) }
        new == IF Up(st) THEN { w \in want : w[2] \in Due(st, os, goes, w[1]) } ELSE {} IN
    /\ st' = s /\ truth' = truth \cup new
    /\ ok' = (ok /\ Up(st) = up)

\* ---- listing: one message per offer, some acknowledged
RECURSIVE Record(_, _, _, _)
Record(s, g, ms, good) ==
  IF ms = {} THEN s
  ELSE LET x == CHOOSE y \in ms : \A z \in ms : y[1] <= z[1] IN
       IF Guard("inner", x \in good) THEN Record(AcceptedList(s, g, <<x>>, s.reg[g]), g, ms \ {x}, good)
       ELSE IF Drop = "others" THEN s
       ELSE Record(s, g, ms \ {x}, good)
List ==
  \E g \in Gws, by \in {0, 1}, a, b \in {0, 4, 7}, outer \in BOOLEAN : \E good \in SUBSET Listing(Off, st, a, b) :
    LET m == [g |-> g, by |-> by, tamper |-> ""]
        served == Up(st) /\ Guard("asker", Authentic(st, m)) /\ st.reg[g] # NoKey
        sent == IF served THEN Listing(Off, st, a, b) ELSE {} IN
    /\ st' = IF served /\ Guard("outer", outer) THEN Record(st, g, sent, good) ELSE st
    /\ truth' = truth \cup IF Up(st) /\ Authentic(st, m) /\ outer THEN { <<g, y>> : y \in good } ELSE {}
    /\ ok' = (ok /\ served = (Up(st) /\ Authentic(st, m)))

Next == n < Steps /\ n' = n + 1 /\ (Initialise \/ Register \/ Restart \/ Publish \/ List)
Spec == Init /\ [][Next]_<<st, n, ok, truth>>
Allowed == ok
\* what is on record, and so shown to the administrator and to clients, is what gateways acknowledged, all of it
Recorded == UNION { { <<g, y>> : y \in st.pubd[g] \cup st.lst[g] } : g \in Gws }
OnlyAcknowledged == Recorded \subseteq truth
AllAcknowledged == truth \subseteq Recorded
ShownIsTrue == \A a \in st.acks : a.ak # NoKey /\ \A i \in 1 .. Len(a.os) : <<a.g, a.os[i]>> \in truth
Shown == \A w \in truth : AcksFor(Off, st, w[1], Off[w[2][1]].cids[1]) # {}
=============================================================================
