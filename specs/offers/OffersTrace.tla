---------------------------- MODULE OffersTrace ----------------------------
(* Sequential histories of either store against Offers.tla.                 *)
EXTENDS Offers, TraceKit
VARIABLES S   \* ids of the stored offers

Off == Tr.off
Mem == Tr.store = "mem"
Init == TKInit /\ S = {}

Fresh(x) == ~Holds(Off, S, x)
Expired(x, t0) == Off[x].exp < t0
Alive(x, t1) == t1 < Off[x].exp
Has(e, f) == f \in DOMAIN e

\* provider store: right kind only, no expired offers
MemAdd ==
  LET x == E.o  ok == ~E.err  right == (E.k = "g") = IsGroup(Off[x]) IN
  IF ~right THEN ~ok /\ S' = S
  ELSE /\ Alive(x, E.t1) => ok
       /\ (Expired(x, E.t0) /\ Fresh(x)) => ~ok
       \* an expired offer may have been dropped already, or not yet
       /\ S' = IF ok THEN Put(Off, S, x) ELSE S
SqlAdd == ~E.err /\ S' = Put(Off, S, E.o)
DoAdd == E.op = "add" /\ IF Mem THEN MemAdd ELSE SqlAdd

DoGet ==
  /\ E.op = "get" /\ S' = S /\ Has(E, "res")
  /\ LET T == HasCid(Off, Kind(Off, S, E.k), E.c) IN
     Exact(E.res, Must(Off, T, E.t1), May(Off, T, E.t0))
  /\ E.found = (E.res # <<>>)
DoDigest ==
  /\ E.op = "dig" /\ S' = S /\ Has(E, "res")
  /\ LET T == HasDigest(Off, S, E.d) IN Exact(E.res, Must(Off, T, E.t1), May(Off, T, E.t0))
  /\ E.found = (E.res # <<>>)
DoRange ==
  /\ E.op = "range" /\ S' = S /\ Has(E, "res")
  /\ LET T == IF Mem THEN ArcSet(Off, S, E.a, E.b) ELSE SpanSet(Off, S, E.a, E.b) IN
     Limited(E.res, Must(Off, T, E.t1), May(Off, T, E.t0), E.n)
  /\ E.found = (E.res # <<>>)
DoTick == E.op = "tick" /\ S' = S
\* gateway store only: the process ends and the store is opened again
DoRestart == E.op = "restart" /\ ~Mem /\ S' = S
\* the process is killed somewhere during a store call: all of the offer or nothing of it
DoCrashAdd == E.op = "crashadd" /\ ~Mem /\ (S' = S \/ S' = Put(Off, S, E.o))

Next == Advance /\ (DoAdd \/ DoGet \/ DoDigest \/ DoRange \/ DoTick \/ DoRestart \/ DoCrashAdd)
Spec == Init /\ [][Next]_<<S, tid, pos>>
=============================================================================
