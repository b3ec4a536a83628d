---------------------------- MODULE GatewayTrace ----------------------------
(* What a real gateway process did, in a made-up network, against Gateway.   *)
EXTENDS Gateway, TraceKit
VARIABLES st
R == INSTANCE Ring

Off == Tr.off
Peers == 0 .. Len(Traces[tid].peers) - 1
Beh(g) == Tr.peers[g + 1].beh
Positions == { Tr.peers[i].pos : i \in 1 .. Len(Tr.peers) }
Has(e, f) == f \in DOMAIN e

Init ==
  /\ TKInit
  /\ st = Fresh0([p \in 0 .. Traces[tid].np - 1 |-> IF \E i \in 1 .. Len(Traces[tid].unreg) : Traces[tid].unreg[i] = p THEN NoKey ELSE p],
                 0 .. Len(Traces[tid].peers) - 1)

SignedBy(e, s) == e.sk = s.sk /\ e.sv = s.ver
Refused_(e) == e.res \in {"err", "inv", "none"}
Refusal == Refused_(E)

DoInit ==
  /\ E.op = "init"
  /\ IF E.bad = ""
     THEN LET n == NewKey(st, E.k, E.ver) IN
          st' = (IF E.v = 2 THEN NewWallet(n) ELSE n) /\ E.res = "ok" /\ SignedBy(E, st')
     ELSE Refusal /\ st' = st

\* each of these: the states a request may leave behind, none if it was answered wrongly
PubNext(s, e) ==
  IF (IF Acked(Off, s, e.k, e) THEN e.res = "ok" /\ SignedBy(e, s) /\ e.ack ELSE Refused_(e))
  THEN { [s EXCEPT !.S = T] : T \in Stores(Off, s, s.S, e.k, e) } ELSE {}

DiscNext(s, e) ==
  IF (IF Up(s) /\ e.live /\ e.auth
      THEN LET T == HasCid(Off, s.S, e.c) IN
           /\ e.res = "ok" /\ SignedBy(e, s) /\ e.echo
           /\ Exact(e.os, Must(Off, T, e.t1), May(Off, T, e.t0))
           /\ e.found = (e.os # <<>>)
      ELSE Refused_(e) /\ e.os = <<>>)
  THEN {s} ELSE {}

\* which offers an answer to a paid request is about, by digest
Dg(X) == { Off[x].dg : x \in X }
Asked(e, T) == IF e.via \in {"std2", "peer2"} THEN T ELSE { x \in T : \E i \in 1 .. Len(e.ds) : e.ds[i] > 0 /\ Off[e.ds[i]].dg = Off[x].dg }
ByDigest(os) == [i \in 1 .. Len(os) |-> IF os[i] > 0 THEN Off[os[i]].dg ELSE 0]
\* a digest listed more than once is answered at least once, and no more often than listed
Times(e, d) == Cardinality({ i \in 1 .. Len(e.ds) : e.ds[i] > 0 /\ Off[e.ds[i]].dg = d })
Handed(e, os, must, may) ==
  IF e.via \in {"std2", "peer2"} THEN Exact(os, must, may)
  ELSE /\ must \subseteq Range(os) /\ Range(os) \subseteq may
       /\ \A d \in Range(os) : Cardinality({ i \in 1 .. Len(os) : os[i] = d }) <= Times(e, d)
PaidNext(s, e) ==
  LET n == IF e.via \in {"std2", "peer2"} THEN 1 ELSE Len(e.ds)
      T == Asked(e, HasCid(Off, s.S, e.c)) IN
  IF Paying(s) /\ e.live /\ e.auth /\ Pays(s, Tr.bal, e.v, Owed(e.via, Tr.sp, Tr.price, n))
  THEN IF /\ e.res = "ok" /\ SignedBy(e, s) /\ e.echo
          /\ e.found = (e.os # <<>>)
          /\ Handed(e, ByDigest(e.os), Dg(Must(Off, T, e.t1)), Dg(May(Off, T, e.t0)))
          /\ e.via \in {"stdoffer", "peeroffer"} => Range(e.os) \subseteq T
       THEN {Takes(s, e.v)} ELSE {}
  ELSE IF /\ Refused_(e) \/ (e.res = "pay" /\ SignedBy(e, s) /\ e.echo)
          /\ e.os = <<>>
       THEN Refused(s, Tr.bal, e.v) ELSE {}

EstNext(s, e) == IF (IF Up(s) /\ e.live THEN e.res = "ok" /\ SignedBy(e, s) /\ e.echo ELSE Refused_(e)) THEN {s} ELSE {}

One(s, e) == CASE e.op = "pub" -> PubNext(s, e) [] e.op = "disc" -> DiscNext(s, e) [] e.op = "paid" -> PaidNext(s, e) [] e.op = "est" -> EstNext(s, e)
DoOne == E.op \in {"pub", "disc", "paid", "est"} /\ st' \in One(st, E)

\* several clients, peers and providers at once, each with its requests one after the other: some order explains it all
RECURSIVE Reach(_, _)
Reach(s, ths) ==
  IF \A t \in DOMAIN ths : ths[t] = <<>> THEN {s}
  ELSE UNION { UNION { Reach(n, [ths EXCEPT ![t] = Tail(@)]) : n \in One(s, Head(ths[t])) } : t \in { u \in DOMAIN ths : ths[u] # <<>> } }
DoPar == E.op = "par" /\ st' \in Reach(st, E.th)
\* many at once that do not touch each other: threads use channels of their own and publish nothing
RECURSIVE AllOf(_, _)
AllOf(ss, es) == IF es = <<>> THEN ss ELSE AllOf(UNION { One(s, Head(es)) : s \in ss }, Tail(es))
RECURSIVE Each(_, _)
Each(ss, ths) == IF ths = <<>> THEN ss ELSE Each(AllOf(ss, Head(ths)), Tail(ths))
DoRush == E.op = "rush" /\ st' \in Each({st}, E.th)

DoAdm ==
  /\ E.op = "adm" /\ st' = st
  /\ IF Up(st) THEN E.res = "ok" /\ SignedBy(E, st) /\ E.good ELSE Refusal

Known == { p \in DOMAIN st.reg : st.reg[p] # NoKey }
DoGroup ==
  /\ E.op = "grp" /\ st' = st
  /\ IF ~Up(st) THEN Refusal /\ E.notes = <<>>
     ELSE /\ E.res = "ok" /\ SignedBy(E, st)
          /\ \A p \in Known : \E i \in 1 .. Len(E.notes) : E.notes[i].p = p
          /\ Len(E.notes) = Cardinality(Known)
          /\ \A i \in 1 .. Len(E.notes) : LET x == E.notes[i] IN
               x.p \in Known /\ x.id /\ SignedBy(x, st) /\ x.on = (\E j \in 1 .. Len(E.ps) : E.ps[j] = x.p)

\* a list of messages a provider hands over, one after the other
RECURSIVE Listed(_, _, _)
Listed(Ss, f, i) ==
  IF i > Len(f.msgs) THEN Ss
  ELSE Listed(UNION { IF f.msgs[i].p = f.p THEN Stores(Off, st, S, "dht", f.msgs[i]) ELSE {S} : S \in Ss }, f, i + 1)
GoodList(f) == Up(st) /\ f.tamper = "" /\ st.reg[f.p] # NoKey /\ f.by = st.reg[f.p]
ListAcks(f) == LET ok(i) == f.msgs[i].p = f.p /\ Acked(Off, st, "dht", f.msgs[i])
                   pick[i \in 0 .. Len(f.msgs)] == IF i = 0 THEN <<>> ELSE IF ok(i) THEN Append(pick[i - 1], i) ELSE pick[i - 1]
               IN pick[Len(f.msgs)]
RECURSIVE AllLists(_, _)
AllLists(Ss, i) == IF i > Len(E.from) THEN Ss ELSE AllLists(IF GoodList(E.from[i]) THEN Listed(Ss, E.from[i], 1) ELSE Ss, i + 1)
DoPull ==
  /\ E.op = "pull"
  /\ IF ~Up(st) THEN Refusal /\ st' = st /\ \A i \in 1 .. Len(E.from) : E.from[i].res = "none" /\ ~Has(E.from[i], "asked")
     ELSE /\ E.res = "ok" /\ SignedBy(E, st)
          /\ \A i \in 1 .. Len(E.from) : LET f == E.from[i] IN
               /\ f.p \in Known => Has(f, "asked") /\ f.asked = st.sk
               /\ IF GoodList(f) THEN f.res = "ok" /\ f.acks = ListAcks(f) /\ SignedBy(f, st) ELSE f.res = "none"
          /\ \E T \in AllLists({st.S}, 1) : st' = [st EXCEPT !.S = T]

\* ---- asking the peers on a client's behalf
NearPeers(c, n) ==
  LET near == R!ClosestSet(256, Positions \cup {Tr.gpos}, Tr.cids[c + 1], IF n > 16 THEN 16 ELSE n, Tr.gpos) IN
  { g \in Peers : Tr.peers[g + 1].pos \in near }
\* the one request peer g gets, and what it is paid in all
GoodReq(x, kind, total, ds) ==
  /\ x.kind = kind /\ x.cid /\ x.sk = st.sk
  /\ kind # "dht" => x.amt = total
  /\ kind = "dhtoffer" => x.ds = ds /\ x.nonce
Reqs(g) == { i \in 1 .. Len(E.req) : E.req[i].g = g }
Rough == {"cut", "silent", "refuse"}
\* every peer of G is asked (once, if it answers) and nobody else; the answers passed on are those of the honest ones
Relayed(G, kind, Cost(_), Ds(_)) ==
  /\ E.res = "ok" /\ SignedBy(E, st) /\ E.echo /\ E.own
  /\ Once(E.con) /\ Range(E.con) = { g \in G : Beh(g) = "ok" }
  /\ kind # "dhtoffer" => Once(E.unc) /\ Range(E.unc) = { g \in G : Beh(g) # "ok" }
  /\ \A i \in 1 .. Len(E.req) : LET x == E.req[i] IN
       x.g \in G /\ GoodReq(x, kind, st.out[x.g] + Cost(x.g), Ds(x.g))
  /\ \A g \in G : Beh(g) \notin Rough => Cardinality(Reqs(g)) = 1
Spent(s, G, Cost(_)) == [s EXCEPT !.out = [g \in DOMAIN s.out |-> IF g \in G THEN s.out[g] + Cost(g) ELSE s.out[g]]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Nothing == Refusal /\ E.con = <<>> /\ E.unc = <<>> /\ E.req = <<>>
DoRelay ==
  /\ E.op = "relay"
  /\ CASE E.via = "dht" ->
            IF Up(st) /\ E.live
            THEN Relayed(NearPeers(E.c, E.n), "dht", LAMBDA g : 0, LAMBDA g : 0) /\ st' = st
            ELSE Nothing /\ st' = st
       [] E.via = "dht2" ->
            LET G == NearPeers(E.c, E.n) IN
            IF Paying(st) /\ E.live /\ E.n >= 0 /\ Pays(st, Tr.bal, E.v, Owed("dht2", Tr.sp, Tr.price, E.n))
            THEN Relayed(G, "dht2", LAMBDA g : Tr.sp, LAMBDA g : 0) /\ st' = Spent(Takes(st, E.v), G, LAMBDA g : Tr.sp)
            ELSE Nothing /\ st' \in Refused(st, Tr.bal, E.v)
       [] OTHER ->
            LET same == Len(E.gs) = Len(E.dss)
                G == { g \in Peers : \E i \in 1 .. Len(E.gs) : E.gs[i] = g }
                D(g) == E.dss[CHOOSE i \in 1 .. Len(E.gs) : E.gs[i] = g]
                C(g) == Tr.price * D(g) IN
            IF Paying(st) /\ same /\ Pays(st, Tr.bal, E.v, Owed("dhtoffer", Tr.sp, Tr.price, Sum(E.dss)))
            THEN Relayed(G, "dhtoffer", C, D) /\ st' = Spent(Takes(st, E.v), G, C)
            ELSE Nothing /\ st' \in Refused(st, Tr.bal, E.v)

DoRekey == E.op = "rekey" /\ st' = [st EXCEPT !.reg[E.p] = E.k]
DoRestart == E.op = "restart" /\ st' = Restarted(st)
DoWait == E.op = "wait" /\ st' = st

Next == Advance /\ (DoInit \/ DoOne \/ DoPar \/ DoRush \/ DoAdm \/ DoGroup \/ DoPull \/ DoRelay \/ DoRekey \/ DoRestart \/ DoWait)
Spec == Init /\ [][Next]_<<st, tid, pos>>
=============================================================================
