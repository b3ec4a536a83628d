------------------------------ MODULE AdminGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS NNodes, Side, Depth
VARIABLES n, h
Pick(S) == RandomSubset(1, S)
One(S) == CHOOSE x \in Pick(S) : TRUE
V == 0 .. 5
Tup(k) == { s : s \in Pick([1 .. k -> V]) }
\* lists of up to four values
List(least) == UNION { Tup(k) : k \in Pick(least .. 4) }
Kind(z) == IF Side = "gateway"
  THEN CASE z <= 3 -> "init1" [] z <= 6 -> "init2" [] z <= 9 -> "grp" [] z <= 12 -> "force" [] z <= 15 -> "list" [] z <= 18 -> "getrep" [] OTHER -> "setrep"
  ELSE CASE z <= 3 -> "init1" [] z <= 6 -> "init2" [] z <= 9 -> "force" [] z <= 13 -> "pubg" [] z <= 17 -> "pubd" [] OTHER -> "getp"
\* what is asked
Args(kind, x, y, l, m, p, q) == CASE kind = "init1" -> <<x>>
  [] kind = "init2" -> <<x, y>>
  [] kind \in {"force", "list"} -> <<>>
  [] kind \in {"grp", "getp"} -> <<l>>
  [] kind = "getrep" -> <<<<x[1]>>>>
  [] kind = "setrep" -> <<x>>
  [] kind = "pubg" -> <<m[1], <<x[1]>>, <<x[2]>>, <<y[1]>>>>
  [] OTHER -> m
Back(kind, l, x) == CASE kind = "getrep" -> <<<<x>>>>
  [] kind = "getp" -> IF x = 0 THEN <<<<0>>, <<>>>> ELSE <<<<1>>, l>>
  [] OTHER -> <<>>
Says(kind) == (IF kind = "getp" THEN {"nosig"} ELSE {"no", "no", "altered"}) \cup {"nosig", "retyped", "othertype", "nobody", "status", "junk", "hollow", "null", "empty", "down", "cut"}
  \cup (IF kind \in {"getrep", "setrep"} THEN {"otherid"} ELSE {}) \cup (IF kind = "setrep" THEN {"otherval", "near", "high"} ELSE {})
Rec(kind, g, x, y, l, b, m, rk, ad, s, u, v, w, ans) ==
  [op |-> "ask", kind |-> kind, g |-> g, a |-> Args(kind, x, y, l, m, 0, 0), rk |-> rk, ad |-> ad,
   reg |-> IF kind \in {"init1", "init2", "grp"} /\ s = 1 THEN "badid" ELSE IF s = 2 THEN "nokey" ELSE "",
   sk |-> IF u = 1 THEN 2 ELSE IF u \in {2, 3} THEN 1 - rk ELSE rk, ret |-> Back(kind, b, v), ans |-> IF w <= 7 THEN "" ELSE ans]
\* four lists of one length
Four == UNION { { <<a, b, c, d>> : a \in Tup(k), b \in Tup(k), c \in Tup(k), d \in Tup(k) } : k \in Pick(1 .. 4) }
Asks(gs) == UNION { { Rec(kind, g, x, y, l, b, m, rk, ad, s, u, v, w, ans) :
    g \in Pick(gs), x \in Tup(2), y \in Tup(3), l \in List(0), b \in List(1), m \in Four, rk \in { IF z <= 4 THEN 0 ELSE 1 : z \in Pick(1 .. 5) },
    ad \in { IF z <= 3 THEN 0 ELSE 1 : z \in Pick(1 .. 5) }, s \in Pick(1 .. 16), u \in Pick(1 .. 16), v \in Pick(0 .. 5), w \in Pick(1 .. 12), ans \in Pick(Says(kind)) }
  : kind \in { Kind(z) : z \in Pick(1 .. 20) } }
Init == n = 1 /\ h = <<>>
Op(r) == h' = Append(h, r) /\ n' = n + 1
Single == \E q \in Asks(0 .. NNodes - 1) : Op(q)
Par == /\ NNodes >= 3
       /\ \E a \in Asks({0}), b \in Asks({0}), c \in Asks({1}), d \in Asks({1}), e \in Asks({2}), f \in Asks({2}) :
            Op([op |-> "par", th |-> <<<<a, b>>, <<c, d>>, <<e, f>>>>])
Next == Len(h) < Depth /\ \E z \in Pick(1 .. 8) : IF z = 1 /\ NNodes >= 3 THEN Par ELSE Single
Spec == Init /\ [][Next]_<<n, h>>
Emit == Len(h) = Depth => PrintT("VFGEN " \o ToJson(h))
=============================================================================
