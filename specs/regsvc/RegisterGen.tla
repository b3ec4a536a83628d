----------------------------- MODULE RegisterGen -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS NIds, Faults, Depth
VARIABLES n, h
Pick(S) == RandomSubset(1, S)
Ids == 0 .. NIds - 1
Op(r) == h' = Append(h, r) /\ n' = n + 1
\* a request, v being fresh
Request(v) == { [k |-> k, m |-> m, i |-> i, v |-> v, slash |-> s, mgr |-> g] :
  k \in Pick({"g", "g", "p"}), m \in Pick({"post", "del", "get", "list"}), i \in Pick(Ids), s \in Pick(BOOLEAN), g \in Pick(BOOLEAN) }
Mostly(v) == { [k |-> k, m |-> m, i |-> i, v |-> v, slash |-> s, mgr |-> g] :
  k \in Pick({"g", "p"}), m \in { IF z <= 5 THEN "post" ELSE IF z <= 9 THEN "get" ELSE IF z <= 12 THEN "list" ELSE "del" : z \in Pick(1 .. 13) },
  i \in Pick(Ids), s \in Pick(BOOLEAN), g \in { z = 1 : z \in Pick(1 .. 4) } }
Req == \E q \in Mostly(n) : Op([op |-> "req", k |-> q.k, m |-> q.m, i |-> q.i, v |-> q.v, slash |-> q.slash, mgr |-> q.mgr, f |-> ""])
Fault == \E q \in Request(n), f \in Pick({"down", "err", "lost", "cut"}), a \in Pick({0, 0 - 1, 1, 2, 3}), x \in Pick({0, 1, 2}) :
  Faults /\ Op([op |-> "req", k |-> q.k, m |-> q.m, i |-> q.i, v |-> q.v, slash |-> q.slash, mgr |-> q.mgr, f |-> f, after |-> IF a < 0 THEN 0 ELSE a, times |-> x])
Crash == \E q \in Request(n), f \in Pick({"hold", "stop"}), a \in Pick({0, 1, 2}) :
  Faults /\ Op([op |-> "crash", k |-> q.k, m |-> q.m, i |-> q.i, v |-> q.v, f |-> f, after |-> a])
Other == \E o \in Pick({"restart", "later", "outage"}) : Faults /\ Op([op |-> o])
Bad == \E k \in Pick({"g", "p"}), x \in Pick(0 .. 10) : Op([op |-> "bad", k |-> k, n |-> x])
Par == \E a \in Mostly(n), b \in Mostly(n + 100), c \in Request(n + 200), d \in Mostly(n + 300), e \in Mostly(n + 400), x \in Pick({0, 2000, 8000, 20000}), z \in Pick(1 .. 4) :
  Op([op |-> "par", slow |-> x, th |-> CASE z = 1 -> <<<<a>>, <<b>>>> [] z = 2 -> <<<<a, b>>, <<c>>>> [] z = 3 -> <<<<a, b>>, <<c>>, <<d, e>>>> [] OTHER -> <<<<a>>, <<b, d, e>>, <<c>>>>])
Init == n = 1 /\ h = <<>>
Next == Len(h) < Depth /\ \E z \in Pick(1 .. 20) :
  IF z <= 9 \/ (~Faults /\ z \in 10 .. 15) THEN Req
  ELSE CASE z \in {10, 11} -> Fault [] z \in {12, 13} -> Crash [] z \in {14, 15} -> Other [] z = 16 -> Bad [] OTHER -> Par
Spec == Init /\ [][Next]_<<n, h>>
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
