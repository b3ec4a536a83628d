------------------------------ MODULE ClientMC ------------------------------
(* The client's design, guard by guard: its sets with establishments under   *)
(* way, what it takes from answers, and a purchase from two gateways.  Drop  *)
(* names a guard left out, which TLC must notice.                            *)
EXTENDS Client, TLC
CONSTANTS Drop, Steps
VARIABLES st, n, waiting, proved, handed, asked, bought

vars == <<st, n, waiting, proved, handed, asked, bought>>
Off == << [prov |-> 0, by |-> 0, cids |-> <<1>>], [prov |-> 0, by |-> 9, cids |-> <<1>>], [prov |-> 0, by |-> 0, cids |-> <<2>>] >>
Init ==
  /\ \E b \in {"ok", "bad"} : st = Fresh(0 :> "ok" @@ 1 :> b, 0 :> "ok")
  /\ n = 0 /\ waiting = {} /\ proved = {} /\ handed = {} /\ asked = {} /\ bought = {}
Guard(g, c) == g = Drop \/ c

UseG == \E g \in {0, 1} :
  /\ st' = IF Drop = "listed" THEN [st EXCEPT !.use = @ \cup {g}] ELSE Use(st, <<g>>).st
  /\ UNCHANGED <<waiting, proved, handed, asked, bought>>
UnuseG == \E g \in {0, 1} :
  /\ st' = IF Drop = "forget" THEN [st EXCEPT !.use = @ \ {g}] ELSE Unuse(st, <<g>>).st
  /\ UNCHANGED <<waiting, proved, handed, asked, bought>>
Begin == \E g \in {0, 1} :
  /\ Guard("inuse", g \in st.use) /\ g \notin st.act
  /\ waiting' = waiting \cup {g} /\ UNCHANGED <<st, proved, handed, asked, bought>>
Finish == \E g \in waiting, good \in BOOLEAN :
  /\ waiting' = waiting \ {g}
  /\ proved' = IF good /\ Listed(st, g) THEN proved \cup {g} ELSE proved
  /\ st' = IF Guard("proves", good) /\ (Drop \in {"again", "inuse"} \/ g \in st.use) THEN [st EXCEPT !.act = @ \cup {g}] ELSE st
  /\ UNCHANGED <<handed, asked, bought>>

\* one answer with one item, relayed or not
Ask == \E g \in {0, 1}, env, genuine, fits \in BOOLEAN, x \in [o : DOMAIN Off, c : {1, 2}, mut : {"", "proof"}], other \in {"", "0", "bad"} :
  LET go == Guard("active", g \in st.act)
      item == Guard("signer", Off[x.o].by = st.pkey[0]) /\ Guard("proof", x.mut = "") /\ Guard("cid", x.c = 1)
      whole == Guard("envelope", env) /\ (other = "" \/ Guard("attested", other = "0"))
      fact == [ok |-> env /\ other # "bad" /\ Genuine(Off, st, x, 1)] IN
  /\ x.c = Off[x.o].cids[1]
  /\ asked' = IF go THEN asked \cup {g \in st.act} ELSE asked
  /\ handed' = IF go /\ whole /\ item THEN handed \cup {fact} ELSE handed
  /\ UNCHANGED <<st, waiting, proved, bought>>

\* a purchase: two gateways with some digests each, the first perhaps with no valid answer
Purchase == \E a, b, max \in 0 .. 2, good \in BOOLEAN :
  LET subs == << [g |-> 0, env |-> IF good THEN "" ELSE "nosig", found |-> TRUE, pay |-> FALSE, ds |-> SubSeq(<<1, 2>>, 1, a)],
                 [g |-> 1, env |-> "", found |-> TRUE, pay |-> FALSE, ds |-> SubSeq(<<3, 4>>, 1, b)] >>
      ch == IF Drop = "room" THEN Choice(st, subs, 10) ELSE Choice(st, subs, max)
      named == IF Drop = "aligned" THEN SubSeq(<<0, 1>>, 1, Len(ch)) ELSE [i \in 1 .. Len(ch) |-> ch[i].g] IN
  /\ Listed(st, 1)
  /\ bought' = bought \cup {[paid |-> IF Drop = "price" THEN Len(ch) ELSE Units(ch), units |-> Units(ch), max |-> max,
                             same |-> \A i \in 1 .. Len(ch) : \E s \in RangeOf(subs) : s.g = named[i] /\ RangeOf(ch[i].d) \subseteq RangeOf(s.ds)]}
  /\ UNCHANGED <<st, waiting, proved, handed, asked>>

Next == n < Steps /\ n' = n + 1 /\ (UseG \/ UnuseG \/ Begin \/ Finish \/ Ask \/ Purchase)
Spec == Init /\ [][Next]_vars
InUse == Sound(st)
ProvedOnly == st.act \subseteq proved /\ \A g \in st.use : Listed(st, g)
GenuineOnly == \A h \in handed : h.ok
AskedOnly == asked \subseteq {TRUE}
PaidExactly == \A b \in bought : b.paid = b.units /\ b.same
WithinMax == \A b \in bought : b.units <= b.max
=============================================================================
