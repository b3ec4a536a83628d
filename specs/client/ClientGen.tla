----------------------------- MODULE ClientGen -----------------------------
(* Random scripts for the client library.  Mix says what they are about:     *)
(* the sets, free discovery, paid discovery.  Offers (o = 0) are chosen      *)
(* afterwards, to fit the CID.                                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NG, NP, NCid, Depth, Mix
VARIABLES ops

Pick(S) == RandomElement(S)
D(z) == Pick(1 .. 100)
Gw(z) == IF D(z) <= 95 THEN Pick(0 .. NG - 1) ELSE -1
Many(n, z) == [i \in 1 .. n |-> Gw(z)]
Gs(z) == Many(Pick({0, 1, 1, 1, 1, 2, 2, 3}), z)

\* ---- the sets
Proof(z) == IF D(z) <= 60 THEN "" ELSE Pick({"wrongkey", "nosig", "altered", "sig", "challenge", "nochallenge", "gwid", "othertype", "err", "cut", "junk"})
Est(z) == [g \in { ToString(i) : i \in 0 .. NG - 1 } |-> Proof(z)]
Only(o) == [op |-> o]
With(o, z) == [op |-> o, gs |-> Gs(z)]
Act(z) == [op |-> "act", gs |-> Gs(z), est |-> Est(z)]
Meanwhile(g, z) == IF D(z) <= 50 THEN [op |-> "unuse", gs |-> <<g>>] ELSE Pick({With("unuse", z), With("deact", z), With("use", z), Only("unuseall"), Only("deactall")})
Race(g, z) == [op |-> "act", gs |-> <<g>>, est |-> Est(z), during |-> Meanwhile(g, z)]
Find(z) == [op |-> "find", loc |-> Pick({"AU", "AU", "US", "XX", ""}), max |-> Pick({-1, 0, 1, 1, 2, 3, 100})]
Late(z) == IF D(z) <= 50 THEN [op |-> "late", kind |-> "g", i |-> Pick(0 .. NG - 1)] ELSE [op |-> "late", kind |-> "p", i |-> Pick(0 .. NP - 1)]
Prekey(z) == [op |-> "prekey", p |-> Pick(0 .. NP - 1), k |-> Pick(0 .. NP + 1)]

\* ---- answers
Env(z) == IF D(z) <= 86 THEN "" ELSE Pick({"wrongkey", "nosig", "altered", "sig", "nonce", "cid", "othertype", "err", "cut", "junk"})
DhtEnv(z) == IF D(z) <= 88 THEN "" ELSE Pick({"wrongkey", "nosig", "altered", "sig", "nonce", "othertype", "err", "cut", "junk", "count"})
SubEnv(z) == IF D(z) <= 80 THEN "" ELSE Pick({"wrongkey", "nosig", "altered", "sig", "othertype", "junk", "swap"})
LastSubEnv(z) == IF D(z) <= 96 THEN SubEnv(z) ELSE Pick({"nonce", "cid"})
Mut(z) == IF D(z) <= 65 THEN "" ELSE Pick({"foreign", "foreign", "price", "exp", "qos", "prov", "nosig", "sig", "root", "subcid", "proof", "noproof"})
Item(z) == [o |-> 0, mut |-> Mut(z)]
Items(z) == [i \in 1 .. Pick({0, 1, 1, 2, 2, 3, 4, 7}) |-> Item(z)]
Ds(z) == [i \in 1 .. Pick({0, 1, 1, 2, 2, 3, 5, 8}) |-> IF D(z) <= 85 THEN 0 ELSE -1]
DhtSub(g, z) == [g |-> g, env |-> LastSubEnv(z), items |-> Items(z)]
Dht2Sub(g, z) == [g |-> g, env |-> SubEnv(z), found |-> D(z) <= 88, pay |-> D(z) <= 3, ds |-> Ds(z)]
OfferSub(g, z) == [g |-> g, env |-> LastSubEnv(z), pay |-> D(z) <= 3, items |-> Items(z)]

Std(c, g, z) == [op |-> "std", g |-> g, c |-> c, std |-> <<[env |-> Env(z), items |-> Items(z)]>>]
Dht(c, g, gs, z) ==
  [op |-> "dht", g |-> g, c |-> c, n |-> Pick({1, 2, 3, 16, 0, 40}), dht |-> <<[env |-> DhtEnv(z), pay |-> D(z) <= 4, subs |-> [i \in 1 .. Len(gs) |-> DhtSub(gs[i], z)]]>>]
Chain(z) == D(z) <= 6
Std2(c, g, z) ==
  [op |-> "std2", g |-> g, c |-> c, max |-> Pick({0, 1, 1, 2, 2, 3, 4, 100}), chainfail |-> Chain(z),
   std2 |-> <<[env |-> Env(z), pay |-> D(z) <= 20, ds |-> Ds(z)], [env |-> Env(z), pay |-> D(z) <= 12, ds |-> Ds(z)]>>,
   stdoffer |-> <<[env |-> Env(z), pay |-> D(z) <= 5, items |-> Items(z)]>>]
Dht2(c, g, gs, hs, z) ==
  [op |-> "dht2", g |-> g, c |-> c, n |-> Pick({1, 2, 3, 16}), max |-> Pick({0, 1, 2, 2, 3, 4, 5, 100}), chainfail |-> Chain(z),
   dht2 |-> [i \in 1 .. 2 |-> [env |-> DhtEnv(z), pay |-> D(z) <= 16, subs |-> [j \in 1 .. Len(gs) |-> Dht2Sub(gs[j], z)]]],
   dhtoffer |-> <<[env |-> IF D(z) <= 96 THEN DhtEnv(z) ELSE "cid", pay |-> D(z) <= 5, subs |-> [j \in 1 .. Len(hs) |-> OfferSub(hs[j], z)]]>>]
Ack(c, g, z) ==
  [op |-> "ack", g |-> g, c |-> c, p |-> IF D(z) <= 95 THEN Pick(0 .. NP - 1) ELSE -1, env |-> IF D(z) <= 88 THEN "" ELSE Env(z), found |-> D(z) <= 90, nomsgs |-> D(z) <= 4,
   msg |-> [env |-> IF D(z) <= 70 THEN "" ELSE Pick({"by", "by", "nosig", "altered", "sig", "othertype", "junk"}), by |-> Pick(0 .. NP + 1), os |-> [i \in 1 .. Pick({0, 1, 1, 1, 2, 3}) |-> 0]],
   ack |-> [env |-> IF D(z) <= 80 THEN "" ELSE Pick({"nosig", "altered", "sig", "othertype", "junk", "wrongkey"}), by |-> IF D(z) <= 80 THEN g ELSE Pick(0 .. NG - 1),
            inner |-> IF D(z) <= 80 THEN "ok" ELSE Pick({"othermsg", "otherkey", "empty"})]]

Order(k, s, d) == [i \in 1 .. k |-> (s + i * d) % NG]
Step ==
  \E z \in {Pick(1 .. 100)}, c \in {Pick(0 .. NCid - 1)}, g \in {Pick(0 .. NG - 1)}, ga \in {Gw(1)},
     gs \in {Order(Pick(0 .. NG), Pick(0 .. NG - 1), Pick({1, NG - 1}))}, hs \in {Order(Pick(0 .. NG), Pick(0 .. NG - 1), Pick({1, NG - 1}))},
     same \in {Pick(1 .. 100)} :
    ops' = Append(ops,
      CASE Mix = "sets" -> IF z <= 20 THEN With("use", z) ELSE IF z <= 32 THEN With("unuse", z) ELSE IF z <= 34 THEN Only("unuseall") ELSE IF z <= 56 THEN Act(z)
                           ELSE IF z <= 70 THEN Race(g, z) ELSE IF z <= 77 THEN With("deact", z) ELSE IF z <= 79 THEN Only("deactall") ELSE IF z <= 85 THEN Find(z)
                           ELSE IF z <= 90 THEN Late(z) ELSE Std(c, ga, z)
        [] Mix = "free" -> IF z <= 30 THEN Std(c, ga, z) ELSE IF z <= 60 THEN Dht(c, ga, gs, z) ELSE IF z <= 88 THEN Ack(c, ga, z) ELSE IF z <= 91 THEN Act(z)
                           ELSE IF z <= 94 THEN Late(z) ELSE IF z <= 98 THEN Prekey(z) ELSE With("deact", z)
        [] Mix = "paid" -> IF z <= 45 THEN Std2(c, ga, z) ELSE IF z <= 92 THEN Dht2(c, ga, gs, IF same <= 70 THEN gs ELSE hs, z) ELSE IF z <= 95 THEN Prekey(z)
                           ELSE IF z <= 98 THEN Act(z) ELSE With("deact", z))
Init == ops = <<>>
Next == Len(ops) < Depth /\ Step
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = Depth => PrintT("VFGEN " \o ToJson(ops))
=============================================================================
