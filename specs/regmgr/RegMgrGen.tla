------------------------------ MODULE RegMgrGen ------------------------------
EXTENDS RegMgr, TLC, Json, Randomization
CONSTANTS M, Depth
VARIABLES reg, G, h
Pick(T, n) == IF T = {} THEN {} ELSE RandomSubset(IF Cardinality(T) < n THEN Cardinality(T) ELSE n, T)
Pos == 0 .. M - 1
Ids == Pos \cup {1000, 1001, 1002}
Init == reg = [g |-> <<>>, p |-> <<>>, gok |-> TRUE, pok |-> TRUE] /\ G = Empty /\ h = <<>>
Op(r) == h' = Append(h, r)
\* the registry changes: some nodes register, register again with other data, or leave
Edit(l, n) == LET add == Pick(Ids, n)  drop == Pick(IdsOf(l), 1)  v == 1 + (Len(h) % 127) IN
  SelectSeq(l, LAMBDA e : e.id \notin drop) \o SetToSeq({ [id |-> x, v |-> v] : x \in add })
Modes == {"ok", "ok", "500", "down", "garbage", "trunc", "object"}
Set == \E n \in Pick(0 .. 6, 1), z \in Pick(1 .. 6, 1), mg \in Pick(Modes, 1), mp \in Pick(Modes, 1) :
  LET r == [g |-> Edit(reg.g, n), p |-> Edit(reg.p, 2), gm |-> IF z = 1 THEN mg ELSE "ok", pm |-> IF z \in {1, 2} THEN mp ELSE "ok"] IN
  /\ reg' = [g |-> r.g, p |-> r.p, gok |-> r.gm = "ok", pok |-> r.pm = "ok"]
  /\ Op([op |-> "set", g |-> r.g, p |-> r.p, gm |-> r.gm, pm |-> r.pm]) /\ UNCHANGED G
PG == IF reg.gok THEN Merge(G, reg.g) ELSE G
Refresh == Op([op |-> "refresh"]) /\ G' = PG /\ UNCHANGED reg
GetG == \E x \in Pick(Ids \ {1000, 1001, 1002}, 1) \cup Pick(DOMAIN G \ {1000, 1001, 1002}, 1) \cup Pick(IdsOf(reg.g) \ {1000, 1001, 1002}, 1) :
  Op([op |-> "getg", id |-> x]) /\ G' = (IF x \in DOMAIN G THEN G ELSE PG) /\ UNCHANGED reg
GetP == \E x \in Pick(Pos, 1) \cup Pick(IdsOf(reg.p) \ {1000, 1001, 1002}, 1) : Op([op |-> "getp", id |-> x]) /\ UNCHANGED <<G, reg>>
Other == \E o \in Pick({"allg", "allp"}, 1) : Op([op |-> o]) /\ UNCHANGED <<G, reg>>
NearOp == \E c \in Pick(Pos, 2), n \in Pick({1, 2, 5, 15, 16, 16, 17, 100}, 1), x \in Pick({-1} \cup Pos, 1) : Op([op |-> "near", c |-> c, n |-> n, x |-> x]) /\ UNCHANGED <<G, reg>>
Rng == \E x \in Pick(Pos, 1) \cup Pick(Positions(G), 1) : Op([op |-> "range", id |-> x]) /\ UNCHANGED <<G, reg>>
Next == Len(h) < Depth /\ (Set \/ Refresh \/ GetG \/ GetP \/ Other \/ NearOp \/ Rng)
Spec == Init /\ [][Next]_<<reg, G, h>>
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
