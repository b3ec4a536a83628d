----------------------------- MODULE ClientTrace -----------------------------
(* What the client library did among scripted gateways, against Client.      *)
EXTENDS Client, TraceKit
VARIABLES st

Off == Tr.offers
G == DOMAIN st.reg
Init ==
  /\ TKInit
  /\ st = Fresh([g \in 0 .. Len(Traces[tid].greg) - 1 |-> Traces[tid].greg[g + 1]],
                [p \in 0 .. Traces[tid].np - 1 |-> Traces[tid].preg[p + 1]])

IsSet(s) == Cardinality(RangeOf(s)) = Len(s)
\* the two sets as the client reports them
Shows(s) == IsSet(E.use) /\ IsSet(E.act) /\ RangeOf(E.use) = s.use /\ RangeOf(E.act) = s.act
Nothing == E.out = <<>> /\ E.map = <<>> /\ ~E.yes
NoPush == E.push = <<>>

\* ---- the sets
Proves(o) == { g \in G : ToString(g) \notin DOMAIN o.est \/ o.est[ToString(g)] = "" }
Quiet(r) == [st |-> r.st, n |-> r.n, asked |-> <<>>]
Apply(s, o) ==
  CASE o.op = "use" -> Quiet(Use(s, o.gs))
    [] o.op = "unuse" -> Quiet(Unuse(s, o.gs))
    [] o.op = "unuseall" -> Quiet(UnuseAll(s))
    [] o.op = "act" -> Activate(s, o.gs, Proves(o))
    [] o.op = "deact" -> Quiet(Deactivate(s, o.gs))
    [] o.op = "deactall" -> Quiet(DeactivateAll(s))
Asked(gs) ==
  /\ Len(E.req) = Len(gs)
  /\ \A i \in 1 .. Len(gs) : E.req[i].g = gs[i] /\ E.req[i].kind = "est" /\ E.req[i].c = 0
DoSets ==
  /\ E.op \in {"use", "unuse", "unuseall", "act", "deact", "deactall"}
  /\ Nothing /\ NoPush
  /\ IF "during" \in DOMAIN E
     THEN \* an operation that came while a gateway was being asked: before or after
          \E a \in {Apply(st, E)}, d \in {Apply(st, E.during)} : \E ad \in {Apply(a.st, E.during)}, da \in {Apply(d.st, E)} :
            /\ Asked(a.asked)
            /\ \/ E.num = a.n /\ E.dnum = ad.n /\ st' = ad.st
               \/ E.num = da.n /\ E.dnum = d.n /\ st' = da.st
     ELSE \E r \in {Apply(st, E)} : E.num = r.n /\ st' = r.st /\ Asked(r.asked)
  /\ Shows(st')

DoFind ==
  /\ E.op = "find" /\ st' = st /\ Shows(st) /\ E.req = <<>> /\ Nothing /\ NoPush
  /\ LET here(k) == { g \in G : st.reg[g] \in k /\ Tr.region[g + 1] = E.loc }
         room == IF E.max < 0 THEN 0 ELSE E.max IN
     /\ IsSet(E.found) /\ RangeOf(E.found) \subseteq here({"ok", "bad"}) \cup { g \in G : st.reg[g] = "bad" /\ E.loc = "" }
     /\ Len(E.found) <= room /\ Len(E.found) >= Least(room, Cardinality(here({"ok"})))

\* ---- discovery
N == Len(E.req)
Req(i, kind, amt) ==
  /\ E.req[i].g = E.g /\ E.req[i].kind = kind /\ E.req[i].c = E.c /\ E.req[i].amt = amt
Ans(i) == E.req[i].ans
NoneAsked == N = 0 /\ NoPush /\ E.err /\ Nothing /\ st' = st
\* handed over: xs of what came, all of it (but see room), nothing else
Given(out, xs, all, room) ==
  LET ok == Accepted(Off, st, xs, E.c) IN
  /\ RangeOf(out) \subseteq RangeOf(ok) /\ Len(out) <= Len(ok)
  /\ { x \in RangeOf(ok) : all[x.o] } \subseteq RangeOf(out) \/ room

DoStd ==
  /\ E.op = "std" /\ Shows(st)
  /\ IF E.g \notin st.act THEN NoneAsked
     ELSE /\ st' = st /\ NoPush /\ E.map = <<>> /\ ~E.yes
          /\ N = 1 /\ Req(1, "std", 0)
          /\ IF Ans(1).env # "" THEN E.err /\ Nothing
             ELSE ~E.err /\ Given(E.out, Ans(1).items, [o \in DOMAIN Off |-> TRUE], FALSE)

\* gateways' answers, as a map
Out(g) == LET i == { j \in 1 .. Len(E.map) : E.map[j].g = g } IN IF i = {} THEN <<>> ELSE E.map[CHOOSE j \in i : TRUE].out
RECURSIVE Total(_)
Total(m) == IF m = <<>> THEN 0 ELSE Len(Head(m).out) + Total(Tail(m))
MapFrom(subs, asked, room) ==
  /\ IsSet([i \in 1 .. Len(E.map) |-> E.map[i].g])
  /\ \A i \in 1 .. Len(E.map) : LET m == E.map[i] IN
       \E s \in RangeOf(subs) : s.g = m.g /\ MaybeAttested(st, s)
  /\ \A i \in 1 .. Len(E.map) : \A x \in RangeOf(E.map[i].out) :
       \E s \in RangeOf(subs) : s.g = E.map[i].g /\ MaybeAttested(st, s) /\ x \in RangeOf(s.items) /\ Genuine(Off, st, x, E.c)
  /\ \A i \in 1 .. Len(subs) : Attested(st, subs[i]) /\ ~subs[i].pay =>
       { x \in RangeOf(Accepted(Off, st, subs[i].items, E.c)) : <<subs[i].g, x.o>> \in asked } \subseteq RangeOf(Out(subs[i].g)) \/ room

DoDht ==
  /\ E.op = "dht" /\ Shows(st)
  /\ IF E.g \notin st.act THEN NoneAsked
     ELSE /\ st' = st /\ NoPush /\ E.out = <<>> /\ ~E.yes
          /\ N = 1 /\ Req(1, "dht", 0) /\ E.req[1].n = E.n
          /\ IF Ans(1).env # "" \/ Ans(1).pay THEN E.err /\ Nothing
             ELSE ~E.err /\ MapFrom(Ans(1).subs, G \X DOMAIN Off, FALSE)

\* what was pushed to the chain: top-ups of the channel to g, none more than needed
RECURSIVE Pushed(_)
Pushed(p) == IF p = <<>> THEN 0 ELSE (IF Head(p).ok THEN Head(p).amt ELSE 0) + Pushed(Tail(p))
Deposits(s) ==
  /\ Pushed(E.push) = (IF s.bal[E.g] = NoChan THEN 0 ELSE s.bal[E.g]) - (IF st.bal[E.g] = NoChan THEN 0 ELSE st.bal[E.g])
  /\ \A i \in 1 .. Len(E.push) : E.push[i].g = E.g /\ E.push[i].amt = Tr.top
Fails == "chainfail" \in DOMAIN E /\ E.chainfail
Pays(s, amt, must) == PayUp(s, E.g, amt, Tr.top, must, Fails)
Stop(s) == st' = s /\ Deposits(s)
Failed(s, k) == N = k /\ E.err /\ Nothing /\ Stop(s)

\* the search request, and again after a top-up if the gateway says so;
\* rest(s, k): what must follow the k-th request, with state s
Search(kind, amt, Rest(_, _)) ==
  \E p1 \in {Pays(st, amt, FALSE)} :
    IF ~p1.ok THEN Failed(p1.st, 0)
    ELSE /\ N >= 1 /\ Req(1, kind, amt)
         /\ IF Ans(1).env # "" THEN Failed(p1.st, 1)
            ELSE IF ~Ans(1).pay THEN Rest(p1.st, 1)
            ELSE \E p2 \in {Pays(p1.st, amt, TRUE)} :
                 IF ~p2.ok THEN Failed(p2.st, 1)
                 ELSE /\ N >= 2 /\ Req(2, kind, amt)
                      /\ IF Ans(2).env # "" THEN Failed(p2.st, 2)
                         ELSE IF Ans(2).pay /\ Nothing /\ (N = 2 \/ (N = 3 /\ E.req[3].amt = 0)) THEN Stop(p2.st)
                         ELSE Rest(p2.st, 2)

Std2Rest(s, k) ==
  LET ds == Ans(k).ds IN
  IF ds = <<>> THEN N = k /\ ~E.err /\ Nothing /\ Stop(s)
  ELSE IF E.max <= 0 THEN Nothing /\ Stop(s) /\ (N = k \/ (N = k + 1 /\ E.req[k + 1].amt = 0))
  ELSE LET d == SubSeq(ds, 1, Least(E.max, Len(ds)))
           amt == Tr.price * Len(d) IN
       \E p \in {Pays(s, amt, FALSE)} :
         IF ~p.ok THEN Failed(p.st, k)
         ELSE /\ N = k + 1 /\ Req(k + 1, "stdoffer", amt) /\ E.req[k + 1].dss = <<d>>
              /\ IF Ans(k + 1).env # "" \/ Ans(k + 1).pay THEN Failed(p.st, k + 1)
                 ELSE /\ ~E.err /\ E.map = <<>> /\ ~E.yes /\ Stop(p.st)
                      /\ Len(E.out) <= E.max
                      /\ Given(E.out, Ans(k + 1).items, [o \in DOMAIN Off |-> o \in RangeOf(d)], Len(E.out) = E.max)
DoStd2 ==
  /\ E.op = "std2" /\ Shows(st)
  /\ IF E.g \notin st.act THEN NoneAsked ELSE Search("std2", Tr.sp, Std2Rest)

Pairs(r) == SelectSeq([i \in 1 .. Len(r.gs) |-> [g |-> r.gs[i], d |-> r.dss[i]]], LAMBDA x : x.d # <<>>)
Dht2Rest(s, k) ==
  LET subs == Ans(k).subs
      ch == Choice(st, subs, E.max) IN
  /\ E.req[k].n = E.n
  /\ \/ \* one of them wants to be paid by the client: giving up is allowed
        \E i \in 1 .. Len(subs) : Attested(st, subs[i]) /\ subs[i].pay /\ Failed(s, k)
     \/ /\ ch = <<>>
        /\ Stop(s) /\ E.out = <<>> /\ ~E.yes
        /\ \/ N = k /\ E.map = <<>>
           \/ N = k + 1 /\ E.req[k + 1].amt = 0 /\ Total(E.map) <= E.max /\ MapFrom(Ans(k + 1).subs, {}, FALSE) /\ (E.err => E.map = <<>>)
     \/ /\ ch # <<>>
        /\ \E p \in {Pays(s, Tr.price * Units(ch), FALSE)} :
             IF ~p.ok THEN Failed(p.st, k)
             ELSE /\ N = k + 1 /\ Req(k + 1, "dhtoffer", Tr.price * Units(ch))
                  /\ Len(E.req[k + 1].gs) = Len(E.req[k + 1].dss) /\ Pairs(E.req[k + 1]) = ch
                  /\ IF Ans(k + 1).env # "" \/ Ans(k + 1).pay THEN Failed(p.st, k + 1)
                     ELSE \/ \E x \in RangeOf(Ans(k + 1).subs) : x.pay /\ Failed(p.st, k + 1)
                          \/ /\ ~E.err /\ E.out = <<>> /\ ~E.yes /\ Stop(p.st)
                             /\ Total(E.map) <= E.max
                             /\ MapFrom(Ans(k + 1).subs, UNION { { <<x.g, o>> : o \in RangeOf(x.d) } : x \in RangeOf(ch) }, Total(E.map) = E.max)
DoDht2 ==
  /\ E.op = "dht2" /\ Shows(st)
  /\ IF E.g \notin st.act THEN NoneAsked ELSE Search("dht2", Tr.sp * E.n, Dht2Rest)

DoAck ==
  /\ E.op = "ack" /\ Shows(st) /\ st' = st /\ NoPush /\ E.out = <<>> /\ E.map = <<>>
  /\ IF ~Named(st, E.p) THEN N = 0 /\ E.err /\ ~E.yes
     ELSE /\ N = 1 /\ E.req[1].g = -1 - E.p /\ E.req[1].kind = "ack" /\ E.req[1].c = E.c /\ E.req[1].gs = <<E.g>>
          /\ E.yes => Acknowledged(Off, st, E, E.p, E.c, E.g)
          /\ E.env = "" /\ Acknowledged(Off, st, E, E.p, E.c, E.g) => E.yes
          /\ E.yes => ~E.err

DoLate == E.op = "late" /\ Shows(st) /\ st' = IF E.kind = "g" THEN [st EXCEPT !.reg[E.i] = "ok"] ELSE [st EXCEPT !.preg[E.i] = "ok"]
DoPkey == E.op = "prekey" /\ Shows(st) /\ st' = [st EXCEPT !.pkey[E.p] = E.k]

Next == Advance /\ (DoSets \/ DoFind \/ DoStd \/ DoStd2 \/ DoDht \/ DoDht2 \/ DoAck \/ DoLate \/ DoPkey)
Spec == Init /\ [][Next]_<<st, tid, pos>>
=============================================================================
