----------------------------- MODULE GatewayGen -----------------------------
(* Random scripts for a gateway process.  Mix says what they are about.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NOff, NProv, NCid, NPeer, Depth, Mix
VARIABLES ops

Pick(S) == RandomElement(S)
Off == 1 .. NOff
\* weights are out of 100
Publish(p, r, x, y, z, w) ==
  [op |-> "pub", k |-> IF w <= 65 THEN "dht" ELSE "grp", p |-> p,
   by |-> IF r <= 85 THEN -9 ELSE Pick(0 .. NProv + 1),
   tamper |-> IF r <= 92 THEN "" ELSE Pick({"body", "sig", "nosig", "trunc"}),
   os |-> IF w > 65 THEN <<x>> ELSE IF z <= 5 THEN <<>> ELSE IF z <= 55 THEN <<x>> ELSE IF z <= 85 THEN <<x, y>> ELSE <<x, y, Pick(Off)>>]
Ttl(r) == IF r <= 92 THEN "ok" ELSE Pick({"past", "neg", "long"})
Auth(r, e) == e @@ [g |-> IF r <= 90 THEN Pick(0 .. NPeer - 1) ELSE IF r <= 94 THEN -1 ELSE Pick(0 .. NPeer - 1),
                    by |-> IF r \in 95 .. 97 THEN "other" ELSE "", tamper |-> IF r >= 98 THEN Pick({"body", "sig", "nosig"}) ELSE ""]
Disc(c, r, w, t) == Auth(r, [op |-> "disc", via |-> Pick({"std", "peer"}), c |-> c, ttl |-> Ttl(t)])
\* a voucher for about the amount owed (d is added to that unless abs); how often it is something else
Voucher(r, x, d) ==
  [ch |-> IF r <= 94 THEN Pick(0 .. 2) ELSE Pick({3, 4}), l |-> Pick({0, 0, 1, 3}),
   abs |-> x > 90, d |-> IF x <= 45 THEN 0 ELSE IF x <= 60 THEN 1 ELSE IF x <= 90 THEN -1 ELSE Pick({0, 1, 40, 7, -1}),
   kind |-> IF d <= 80 THEN "fresh" ELSE Pick({"replay", "replay", "old", "forged"}),
   tamper |-> IF d > 72 /\ d <= 80 THEN Pick({"amount", "sig", "b64", "trunc", "empty", "chan", "noname", "badname"}) ELSE ""]
Sure == [ch |-> 0, l |-> Pick(0 .. 3), abs |-> FALSE, d |-> 0, kind |-> "fresh", tamper |-> ""]
Digests(n, z, x, y) ==
  CASE n = 0 -> <<>> [] n = 1 -> IF z <= 80 THEN <<x>> ELSE <<Pick({-1, -2})>>
    [] n = 2 -> IF z <= 50 /\ x # y THEN <<x, y>> ELSE IF z <= 65 THEN <<x, x>> ELSE <<x, Pick({-1, -2})>>
    [] OTHER -> IF z <= 30 THEN <<x, Pick({-1, y}), x>> ELSE IF x # y THEN <<x, -1, y>> ELSE <<-1, x, -2>>
Paid(via, c, n, z, x, y, r, s, t, sure) ==
  Auth(IF via = "peeroffer" THEN 1 ELSE t,
       [op |-> "paid", via |-> via, c |-> c, ds |-> IF via \in {"std2", "peer2"} THEN <<>> ELSE Digests(n, z, x, y),
        ttl |-> IF via = "peeroffer" THEN "ok" ELSE Ttl(s), v |-> IF sure THEN Sure ELSE Voucher(r, s, z)])
Targets(x, y, s) ==
  IF NPeer <= 2 \/ s <= 30 THEN IF x = y THEN <<x>> ELSE <<x, y>>
  ELSE LET k == IF NPeer <= 5 THEN NPeer ELSE 4 + (s % 5) IN (IF (s % 4) = 0 THEN <<-1>> ELSE <<>>) \o [i \in 1 .. k |-> (y + (i * (1 + (s % 2)))) % NPeer]
Relay(via, c, n, r, s, d, x, y, sure) ==
  [op |-> "relay", via |-> via, c |-> c, n |-> IF via = "dht" /\ n < 0 THEN 0 ELSE n, ttl |-> IF via = "dhtoffer" THEN "ok" ELSE Ttl(s),
   v |-> IF sure THEN Sure ELSE Voucher(r, s, d), gs |-> IF via = "dhtoffer" THEN Targets(x, y, s) ELSE <<>>,
   dss |-> IF via # "dhtoffer" THEN <<>> ELSE IF d = 100 THEN <<1>> ELSE [i \in 1 .. Len(Targets(x, y, s)) |-> Pick({0, 1, 1, 2, 3})]]
InitOp(v, r) == [op |-> "init", v |-> v, k |-> Pick(0 .. 2), ver |-> Pick({0, 1, 2, 7, 255, 1000000}),
              bad |-> IF r <= 80 THEN "" ELSE IF v = 2 /\ r <= 92 THEN "wallet" ELSE "trunc"]
Est(s) == [op |-> "est", ttl |-> Ttl(s)]
Adm == [op |-> "adm", what |-> Pick({"getrep", "setrep", "refresh", "norefresh", "list"})]
Grp(z) == [op |-> "grp", ps |-> IF z <= 15 THEN <<>> ELSE IF z <= 60 \/ NProv = 1 THEN <<Pick(0 .. NProv - 1)>>
              ELSE LET a == Pick(0 .. NProv - 1) IN <<a, (a + 1) % NProv>>]
LMsg(p, x, y, r, z) == [p |-> IF r <= 92 THEN p ELSE Pick(0 .. NProv - 1), by |-> IF r <= 84 THEN -9 ELSE Pick(0 .. NProv + 1),
                        tamper |-> IF z <= 93 THEN "" ELSE Pick({"body", "sig", "nosig"}),
                        os |-> IF z <= 8 THEN <<>> ELSE IF z <= 60 THEN <<x>> ELSE <<x, y>>]
LFrom(p, x, y, r, z, w) == [p |-> p, by |-> IF w <= 90 THEN -9 ELSE Pick(0 .. NProv + 1), tamper |-> IF r <= 95 THEN "" ELSE Pick({"body", "sig", "nosig"}),
                            msgs |-> IF z <= 10 THEN <<>> ELSE IF z <= 40 THEN <<LMsg(p, x, y, r, w)>>
                                     ELSE <<LMsg(p, x, y, w, z), LMsg(p, Pick(Off), x, z, r), LMsg(p, y, Pick(Off), 101 - w, 101 - r)>>]
Pull(p, x, y, r, z, w) ==
  [op |-> "pull", from |-> IF w <= 50 \/ NProv = 1 THEN <<LFrom(p, x, y, r, z, w)>>
                           ELSE <<LFrom(p, x, y, r, z, w), LFrom((p + 1) % NProv, y, x, 101 - r, 101 - z, 101 - w)>>]
Rekey(p) == [op |-> "rekey", p |-> p, k |-> Pick(0 .. NProv + 1)]
Only(o) == [op |-> o]

Step ==
  \E p \in {Pick(0 .. NProv - 1)}, x \in {Pick(Off)}, y \in {Pick(Off)}, c \in {Pick(0 .. NCid - 1)}, r \in {Pick(1 .. 100)}, s \in {Pick(1 .. 100)},
     z \in {Pick(1 .. 100)}, w \in {Pick(1 .. 100)}, k \in {Pick(1 .. 100)}, n \in {Pick({0, 1, 1, 2, 2, 3})}, m \in {Pick({-1, 0, 1, 1, 2, 3, 5, 16, 17, 40})},
     gx \in {Pick(-1 .. NPeer - 1)}, gy \in {Pick(0 .. NPeer - 1)},
     pv \in {Pick({"std2", "stdoffer", "peer2", "peeroffer"})}, rv \in {Pick({"dht", "dht2", "dht2", "dhtoffer"})} :
    ops' = Append(ops,
      CASE Mix = "pub" -> IF k <= 45 THEN Publish(p, r, x, y, z, w) ELSE IF k <= 60 THEN Pull(p, x, y, r, z, w)
                          ELSE IF k <= 93 THEN Disc(c, 1, w, 1) ELSE IF k <= 97 THEN Rekey(p) ELSE Only("restart")
        [] Mix = "disc" -> IF k <= 20 THEN Publish(p, 1, x, y, z, w) ELSE IF k <= 62 THEN Disc(c, r, w, s)
                           ELSE IF k <= 92 THEN Paid(pv, c, n, z, x, y, r, s, w, TRUE) ELSE Est(s)
        [] Mix = "paid" -> IF k <= 12 THEN Publish(p, 1, x, y, z, w) ELSE IF k <= 92 THEN Paid(pv, c, n, z, x, y, r, s, w, FALSE)
                           ELSE Relay(IF rv = "dht" THEN "dht2" ELSE rv, c, m, r, s, z, gx, gy, FALSE)
        [] Mix = "init" -> IF k <= 20 THEN InitOp(Pick({1, 2}), r) ELSE IF k <= 24 THEN Only("restart") ELSE IF k <= 36 THEN Publish(p, 1, x, y, z, w)
                           ELSE IF k <= 46 THEN Disc(c, 1, w, 1) ELSE IF k <= 62 THEN Paid(pv, c, n, z, x, y, 1, 1, 1, TRUE) ELSE IF k <= 70 THEN Est(1)
                           ELSE IF k <= 82 THEN Adm ELSE IF k <= 88 THEN Grp(z) ELSE IF k <= 92 THEN Pull(p, x, y, 1, 30, 1)
                           ELSE Relay(rv, c, IF m < 0 THEN 0 ELSE m, 1, 1, 1, IF gx < 0 THEN 0 ELSE gx, gy, TRUE)
        [] Mix = "relay" -> IF k <= 6 THEN Only("restart") ELSE IF k <= 80 THEN Relay(rv, c, m, 1, s, 1, gx, gy, TRUE) ELSE Relay(rv, c, m, r, s, z, gx, gy, FALSE)
        [] OTHER -> IF k <= 80 THEN Grp(z) ELSE IF k <= 90 THEN Rekey(p) ELSE Only("restart"))
Init == ops = <<>>
Next == Len(ops) < Depth /\ Step
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = Depth => PrintT("VFGEN " \o ToJson(ops))
=============================================================================
