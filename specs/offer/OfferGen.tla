------------------------------ MODULE OfferGen -------------------------------
EXTENDS Merkle, TLC, Json, Randomization
CONSTANTS Depth, NCid
VARIABLES offers, key, subs, skey, h
vars == <<offers, key, subs, skey, h>>
Pick(T, n) == IF T = {} THEN {} ELSE RandomSubset(IF Cardinality(T) < n THEN Cardinality(T) ELSE n, T)
S == 0 .. 2
K == 0 .. 3
V == 0 .. 5
Empty == [i \in {} |-> 0]
PutIn(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
Atoms == { C(i) : i \in 0 .. NCid - 1 }
\* offers: CID lists; subs: [cid, list] as made; key: key last used
Init == offers = Empty /\ key = Empty /\ subs = Empty /\ skey = Empty /\ h = <<>>
Op(r) == h' = Append(h, r)
RECURSIVE Bag(_, _)
Bag(n, acc) == IF n = 0 THEN acc ELSE LET c == RandomElement(0 .. NCid - 1) IN Bag(n - 1, Append(acc, C(c)))
Sizes == {1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 13, 17}
Nodes == UNION { {Root(offers[i])} \cup { Level(Padded(offers[i]))[j] : j \in 1 .. (Len(offers[i]) + 1) \div 2 } : i \in DOMAIN offers }
AnyTerm == Pick(Atoms, 1) \cup Pick(Nodes, 1) \cup {<<"u", 0>>, <<"u", 1>>}
Offer == \E i \in Pick(S, 1), n \in Pick(Sizes \cup {0}, 1), p \in Pick(0 .. 2, 1), a \in Pick(V, 1), b \in Pick(V, 1), c \in Pick(V, 1) : \E l \in {Bag(n, <<>>)} :
  /\ offers' = (IF n = 0 THEN offers ELSE PutIn(offers, i, l)) /\ UNCHANGED <<subs, skey>> /\ key' = (IF n = 0 THEN key ELSE PutIn(key, i, 0))
  /\ Op([op |-> "offer", slot |-> i, p |-> p, cids |-> l, price |-> a, exp |-> b, qos |-> c])
Sign == \E i \in Pick(DOMAIN offers, 1), k \in Pick(K, 1) : key' = PutIn(key, i, k) /\ UNCHANGED <<offers, subs, skey>> /\ Op([op |-> "sign", slot |-> i, key |-> k])
\* other lists with the same root, and near misses
Alter(l) == LET n == Len(l) IN
  {Append(l, l[n]), Append(l, C(0)), SubSeq(l, 1, n - 1), Bag(n, <<>>), l \o l, [i \in 1 .. n |-> l[n + 1 - i]]}
    \cup (IF n > 2 THEN {SubSeq(Level(Padded(l)), 1, Len(Level(Padded(l))))} ELSE {})
OCopy == \E i \in Pick(DOMAIN offers, 1), j \in Pick(S, 1), f \in Pick({"none", "none", "p", "price", "exp", "qos", "cids", "cids", "sig", "junk"}, 1), v \in Pick(V, 1),
            fr \in Pick(DOMAIN offers, 1) : \E l \in (IF f = "cids" THEN Pick(Alter(offers[i]), 1) ELSE {offers[i]}) :
  /\ offers' = (IF l = <<>> THEN offers ELSE PutIn(offers, j, l)) /\ key' = (IF l = <<>> THEN key ELSE PutIn(key, j, IF f = "sig" THEN key[fr] ELSE key[i]))
  /\ UNCHANGED <<subs, skey>>
  /\ Op([op |-> "ocopy", slot0 |-> i, slot |-> j, f |-> f, val |-> IF f = "p" THEN v % 3 ELSE v, cids |-> l, from |-> fr])
OVerify == \E i \in Pick(DOMAIN offers, 2), z \in Pick(1 .. 4, 1), k \in Pick(K, 1) :
  UNCHANGED <<offers, key, subs, skey>> /\ Op([op |-> "overify", slot |-> i, key |-> IF z = 1 THEN k ELSE key[i]])
Sub == \E i \in Pick(DOMAIN offers, 2), j \in Pick(S, 1), z \in Pick(1 .. 6, 1) : \E q \in Pick(1 .. Len(offers[i]), 1), t \in Pick(AnyTerm, 1) :
  LET c == IF z = 1 THEN t ELSE offers[i][q]
      in == \E m \in 1 .. Len(offers[i]) : offers[i][m] = c IN
  /\ subs' = (IF in THEN PutIn(subs, j, c) ELSE subs) /\ skey' = (IF in THEN PutIn(skey, j, key[i]) ELSE skey)
  /\ UNCHANGED <<offers, key>> /\ Op([op |-> "sub", slot |-> i, to |-> j, cid |-> c])
SCopy == \E i \in Pick(DOMAIN subs, 1), j \in Pick(S, 1), fr \in Pick(DOMAIN subs, 1), v \in Pick(V, 1), t \in Pick(AnyTerm, 1),
            f \in Pick({"none", "none", "p", "price", "exp", "qos", "cid", "lift", "root", "rootfrom", "sig", "junk", "proof", "cut", "behead", "push", "elem",
                        "flip", "pathonly", "idxonly", "idxmore", "noproof"}, 2) :
  /\ subs' = PutIn(subs, j, subs[i]) /\ skey' = PutIn(skey, j, IF f = "sig" THEN skey[fr] ELSE skey[i]) /\ UNCHANGED <<offers, key>>
  /\ Op([op |-> "scopy", slot0 |-> i, slot |-> j, f |-> f, val |-> IF f = "p" THEN v % 3 ELSE v, term |-> IF f \in {"elem", "push"} /\ v <= 1 THEN E0 ELSE t, from |-> fr])
SVerify == \E i \in Pick(DOMAIN subs, 2), z \in Pick(1 .. 4, 1), k \in Pick(K, 1) :
  UNCHANGED <<offers, key, subs, skey>> /\ Op([op |-> "sverify", slot |-> i, key |-> IF z = 1 THEN k ELSE skey[i]])
PVerify == \E i \in Pick(DOMAIN subs, 3) : UNCHANGED <<offers, key, subs, skey>> /\ Op([op |-> "pverify", slot |-> i])
Mangle == \E w \in Pick({"trunc", "flip", "swap", "drop", "null", "nullify"}, 1) : UNCHANGED <<offers, key, subs, skey>> /\
  ((\E i \in Pick(DOMAIN offers, 1) : Op([op |-> "omangle", slot |-> i, how |-> w])) \/ (\E i \in Pick(DOMAIN subs, 1) : Op([op |-> "smangle", slot |-> i, how |-> w])))
Next == Len(h) < Depth /\ (IF DOMAIN offers = {} THEN Offer ELSE
   (Offer \/ Sign \/ OCopy \/ OVerify \/ Sub \/ SCopy \/ SVerify \/ PVerify \/ Mangle))
Spec == Init /\ [][Next]_vars
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
