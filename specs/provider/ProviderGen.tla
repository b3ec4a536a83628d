---------------------------- MODULE ProviderGen ----------------------------
(* Random scripts for a provider process.  Mix says what they are about.     *)
(* Items 1 .. NSingle have one CID each, the next NGroup ones several.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NSingle, NGroup, NCid, NGw, Depth, Mix
VARIABLES ops

Pick(S) == RandomElement(S)
Batch(z) == [i \in 1 .. IF z <= 40 THEN 1 ELSE IF z <= 70 THEN 2 ELSE IF z <= 90 THEN 3 ELSE 4 |-> Pick(1 .. NSingle)]
Pub(r, z) ==
  IF r <= 70 \/ NGroup = 0 THEN [op |-> "pub", k |-> "dht", os |-> IF r = 1 THEN <<>> ELSE Batch(z), odd |-> IF r > 4 \/ r = 1 THEN "" ELSE Pick({"price", "exp", "qos", "cids"})]
  ELSE [op |-> "pub", k |-> "grp", os |-> <<NSingle + Pick(1 .. NGroup)>>, odd |-> ""]
Got(z) == [op |-> "got", gs |-> IF z <= 40 THEN <<>> ELSE IF z <= 80 THEN <<Pick(0 .. NGw - 1)>> ELSE IF z <= 95 THEN <<Pick(0 .. NGw - 1), Pick(0 .. NGw - 1)>> ELSE <<-1>>]
Ack(z) == [op |-> "ack", c |-> Pick(0 .. NCid - 1), g |-> IF z <= 95 THEN Pick(0 .. NGw - 1) ELSE -1]
Plans == {"all", "all", "all", "hang", "wrongkey", "nosig", "altered", "othertype", "none", "first", "last", "rev", "extra", "badlast", "badfirst", "foreign", "trash"}
\* -9: the key registered for g
By(r) == IF r <= 88 THEN -9 ELSE Pick(0 .. NGw + 1)
Tamper(r) == IF r <= 93 THEN "" ELSE Pick({"body", "sig", "nosig", "trunc"})
List(r, z, w) == [op |-> "list", g |-> IF r <= 97 THEN Pick(0 .. NGw - 1) ELSE -1, by |-> By(z), tamper |-> Tamper(w), a |-> IF w <= 50 THEN 0 ELSE Pick(0 .. 199), b |-> IF w <= 50 THEN 255 ELSE Pick(0 .. 199),
                  plan |-> IF r <= 40 THEN "all" ELSE Pick(Plans)]
Note(r, z, w) == [op |-> "note", g |-> IF r <= 96 THEN Pick(0 .. NGw - 1) ELSE -1, on |-> w <= 60, by |-> By(z), tamper |-> Tamper(r)]
InitOp(v, r) == [op |-> "init", v |-> v, k |-> Pick(0 .. 2), ver |-> Pick({0, 1, 2, 7, 255, 1000000}),
                 bad |-> IF r <= 80 THEN "" ELSE IF v = 2 /\ r <= 92 THEN "wallet" ELSE "trunc"]
Adm == [op |-> "adm", what |-> Pick({"refresh", "norefresh"})]
Rekey == [op |-> "rekey", g |-> Pick(0 .. NGw - 1), k |-> Pick(0 .. NGw + 1)]
Restart == [op |-> "restart"]

Step ==
  \E r \in {Pick(1 .. 100)}, z \in {Pick(1 .. 100)}, w \in {Pick(1 .. 100)}, k \in {Pick(1 .. 100)}, v \in {Pick({1, 2})} :
    ops' = Append(ops,
      CASE Mix = "pub" -> IF k <= 45 THEN Pub(r, z) ELSE IF k <= 65 THEN List(r, z, w) ELSE IF k <= 85 THEN Got(z) ELSE IF k <= 90 THEN Ack(z)
                          ELSE IF k <= 94 THEN Rekey ELSE IF k <= 97 THEN InitOp(v, 1) ELSE Restart
        [] Mix = "ack" -> IF k <= 30 THEN Pub(IF r > 70 THEN 50 ELSE r, z) ELSE IF k <= 55 THEN List(r, z, w) ELSE IF k <= 62 THEN Got(z) ELSE IF k <= 94 THEN Ack(z)
                          ELSE IF k <= 97 THEN Rekey ELSE InitOp(v, 1)
        [] Mix = "init" -> IF k <= 25 THEN InitOp(v, r) ELSE IF k <= 30 THEN Restart ELSE IF k <= 50 THEN Pub(r, z) ELSE IF k <= 60 THEN Got(z) ELSE IF k <= 70 THEN Ack(z)
                           ELSE IF k <= 80 THEN List(r, z, w) ELSE IF k <= 90 THEN Note(r, z, w) ELSE Adm
        [] OTHER -> IF k <= 80 THEN Note(r, z, w) ELSE IF k <= 90 THEN Rekey ELSE Pub(90, z))
Init == ops = <<>>
Next == Len(ops) < Depth /\ Step
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = Depth => PrintT("VFGEN " \o ToJson(ops))
=============================================================================
