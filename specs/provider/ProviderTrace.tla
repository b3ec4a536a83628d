---------------------------- MODULE ProviderTrace ----------------------------
(* What a real provider process did, in a made-up network, against Provider. *)
EXTENDS Provider, TraceKit
VARIABLES st

Off == Tr.off
NG(t) == Len(t.gws)
Beh(g) == Tr.gws[g + 1].beh
Pos == [g \in DOMAIN st.reg |-> Tr.gws[g + 1].pos]
Rough == {"cut", "silent", "refuse"}
Has(e, f) == f \in DOMAIN e

Init ==
  /\ TKInit
  /\ st = Fresh([g \in 0 .. NG(Traces[tid]) - 1 |-> IF g \in Range(Traces[tid].unreg) THEN NoKey ELSE g])

SignedBy(e, s) == e.sk = s.sk /\ e.sv = s.ver
Refusal == E.res \in {"err", "inv", "none"}

DoInit ==
  /\ E.op = "init"
  /\ IF E.bad = "" THEN st' = NewKey(st, E.k, E.ver) /\ E.res = "ok" /\ SignedBy(E, st')
     ELSE Refusal /\ st' = st

\* the acknowledgements of a publication, one message after the other
RECURSIVE Take(_, _)
Take(s, xs) ==
  IF xs = <<>> THEN s
  ELSE LET x == Head(xs) IN
       Take(IF x.good /\ s.reg[x.g] = x.g THEN IF x.kind = "dht" THEN Accepted(s, x.g, x.os, x.g) ELSE AcceptedGroup(s, x.g, x.os) ELSE s, Tail(xs))
RECURSIVE TakeList(_, _, _)
TakeList(s, e, is) == IF is = <<>> THEN s ELSE TakeList(AcceptedList(s, e.g, e.msgs[Head(is)].os, e.by), e, Tail(is))
RECURSIVE Cat(_)
Cat(ms) == IF ms = <<>> THEN <<>> ELSE Head(ms).os \o Cat(Tail(ms))
Refused(e) == e.res \in {"err", "inv", "none"}

\* What a request leaves behind.  Nothing a request does depends on the others, so that their order does not matter.
Effect(s, e) ==
  IF ~Up(s) THEN s
  ELSE CASE e.op = "pub" /\ e.odd = "" /\ e.os # <<>> ->
              LET t == Take(s, e.sent) IN IF e.k = "dht" THEN [t EXCEPT !.S = StoreAll(s.S, Signed(s, e.os))] ELSE t
         [] e.op = "list" /\ Authentic(s, e) -> TakeList(s, e, e.acked)
         [] OTHER -> s

\* What it is answered, knowing all that the state lo knows and nothing that the state hi does not know
To(e, g) == { i \in 1 .. Len(e.sent) : e.sent[i].g = g }
PubOk(e, s) ==
  IF ~Up(s) \/ e.odd # "" \/ e.os = <<>> THEN Refused(e) /\ e.sent = <<>>
  ELSE \E goes \in {Goes(Off, s, Pos, e.k, e.os)} :
       /\ e.res = "ok" /\ SignedBy(e, s)
       /\ \A i \in 1 .. Len(e.sent) : LET x == e.sent[i] IN
            /\ x.kind = e.k /\ x.pid /\ SignedBy(x, s) /\ x.os # <<>>
            /\ Range(x.os) \subseteq Due(s, e.os, goes, x.g)
       /\ \A g \in Known(s) : Beh(g) \notin Rough =>
            Due(s, e.os, goes, g) = UNION { Range(e.sent[i].os) : i \in To(e, g) }
Asked(e) == IF e.gs = <<>> THEN DOMAIN st.reg ELSE Range(e.gs) \cap DOMAIN st.reg
GotOk(e, lo, hi) ==
  IF ~Up(lo) THEN Refused(e) /\ e.os = <<>>
  ELSE /\ e.res = "ok" /\ SignedBy(e, lo)
       /\ UNION { lo.pubd[g] : g \in Asked(e) } \subseteq Range(e.os)
       /\ Range(e.os) \subseteq UNION { hi.pubd[g] \cup hi.lst[g] : g \in Asked(e) }
       /\ e.found = (e.os # <<>>)
AckOk(e, lo, hi) ==
  IF ~Up(lo) THEN Refused(e)
  ELSE /\ e.res = "ok" /\ SignedBy(e, lo) /\ e.echo
       /\ AcksFor(Off, lo, e.g, Tr.cids[e.c + 1]) # {} => e.found
       /\ e.found => \E a \in AcksFor(Off, hi, e.g, Tr.cids[e.c + 1]) : a.os = e.os /\ a.sk = e.msk /\ a.ak = e.ak
ListOk(e, lo, hi) ==
  IF Up(lo) /\ Authentic(lo, e)
  THEN /\ e.res = "ok" /\ SignedBy(e, lo)
       /\ \A i \in 1 .. Len(e.msgs) : e.msgs[i].pid /\ SignedBy(e.msgs[i], lo)
       /\ Limited(Cat(e.msgs), LiveAt(Off, Listing(Off, lo, e.a, e.b), e.t1), LiveAt(Off, Listing(Off, hi, e.a, e.b), e.t0), Cap)
  ELSE e.res \in {"inv", "none"} /\ e.msgs = <<>>
Ok(e, lo, hi) ==
  CASE e.op = "pub" -> PubOk(e, lo)
    [] e.op = "got" -> GotOk(e, lo, hi)
    [] e.op = "ack" -> AckOk(e, lo, hi)
    [] e.op = "list" -> ListOk(e, lo, hi)
    [] e.op = "note" -> IF Up(lo) /\ Authentic(lo, e) THEN e.res = "ok" /\ SignedBy(e, lo) /\ e.good ELSE Refused(e)
    [] e.op = "adm" -> IF Up(lo) THEN e.res = "ok" /\ SignedBy(e, lo) /\ e.good ELSE Refused(e)
    [] OTHER -> FALSE

DoOne == E.op \in {"pub", "got", "ack", "list", "note", "adm"} /\ Ok(E, st, st) /\ st' = Effect(st, E)

\* Requests that meet: each knows at least what was over when it began and at most what there is in the end.
\* Publications that meet are of different offers, so that every message sent belongs to one of them.
RECURSIVE After(_, _)
After(s, es) == IF es = <<>> THEN s ELSE After(Effect(s, Head(es)), Tail(es))
Ats(p) == { <<i, j>> \in (1 .. Len(p.th)) \X (1 .. 100) : j <= Len(p.th[i]) }
Mine(p, e) == SelectSeq(p.sent, LAMBDA x : x.kind = e.k /\ { y[1] : y \in Range(x.os) } \subseteq Range(e.os))
Full(p, a) == LET e == p.th[a[1]][a[2]] IN IF e.op = "pub" THEN [x \in DOMAIN e \cup {"sent"} |-> IF x = "sent" THEN Mine(p, e) ELSE e[x]] ELSE e
RECURSIVE Listed(_)
Listed(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o Listed(X \ {x})
DoPar ==
  /\ E.op = "par"
  /\ \E ats \in {Ats(E)} : \E full \in {[a \in ats |-> Full(E, a)]} :
     LET Events(X) == [k \in 1 .. Len(Listed(X)) |-> full[Listed(X)[k]]]
         Deeds == { a \in ats : full[a].op \in {"pub", "list"} }
         Over(a) == { b \in Deeds : (b[1] = a[1] /\ b[2] < a[2]) \/ full[b].t1 < full[a].t0 }
     IN \E hi \in {After(st, Events(Deeds))} :
        /\ \A i \in 1 .. Len(E.sent) : E.sent[i].os # <<>> /\ \E a \in ats : full[a].op = "pub" /\ \E j \in 1 .. Len(full[a].sent) : full[a].sent[j] = E.sent[i]
        /\ \A a \in ats : \E lo \in {After(st, Events(Over(a)))} : Ok(full[a], lo, hi)
        /\ st' = hi

DoRekey == E.op = "rekey" /\ st' = [st EXCEPT !.reg[E.g] = E.k]
DoRestart == E.op = "restart" /\ st' = Restarted(st)
DoWait == E.op = "wait" /\ st' = st

Next == Advance /\ (DoInit \/ DoOne \/ DoPar \/ DoRekey \/ DoRestart \/ DoWait)
Spec == Init /\ [][Next]_<<st, tid, pos>>
=============================================================================
