------------------------------- MODULE Offers -------------------------------
(* A node's offer store: a set of stored offers, looked up by CID, by digest *)
(* or by CID interval, each offer visible until its expiry.                  *)
(*                                                                           *)
(* An offer is a record [dg, cids, exp]: dg identifies everything but the    *)
(* signature (two offers that differ only in their signature share it), cids *)
(* is the sequence of its CIDs (as positions), exp its expiry in ms.         *)
EXTENDS Integers, Sequences, FiniteSets

CidSet(o) == { o.cids[i] : i \in 1 .. Len(o.cids) }
IsGroup(o) == Len(o.cids) > 1

\* Storing: the first offer of a digest stays, a second one changes nothing.
Holds(off, S, x) == \E y \in S : off[y].dg = off[x].dg
Put(off, S, x) == IF Holds(off, S, x) THEN S ELSE S \cup {x}

\* What a lookup running from t0 to t1 must and may show.
Must(off, S, t1) == { x \in S : off[x].exp > t1 }
May(off, S, t0)  == { x \in S : off[x].exp > t0 }

HasCid(off, S, c) == { x \in S : c \in CidSet(off[x]) }
HasDigest(off, S, d) == { x \in S : off[x].dg = d }

\* clockwise interval for the provider's ring, plain interval for the gateway's table
InArc(k, a, b)  == IF a <= b THEN a <= k /\ k <= b ELSE a <= k \/ k <= b
InSpan(k, a, b) == a <= k /\ k <= b
ArcSet(off, S, a, b)  == { x \in S : ~IsGroup(off[x]) /\ InArc(off[x].cids[1], a, b) }
SpanSet(off, S, a, b) == { x \in S : \E k \in CidSet(off[x]) : InSpan(k, a, b) }

Kind(off, S, k) == CASE k = "g" -> { x \in S : IsGroup(off[x]) }
                     [] k = "d" -> { x \in S : ~IsGroup(off[x]) }
                     [] OTHER -> S

Range(s) == { s[i] : i \in 1 .. Len(s) }
Once(s) == Cardinality(Range(s)) = Len(s)
\* an exact answer (as a set; the order of offers is not specified)
Exact(res, must, may) == Once(res) /\ must \subseteq Range(res) /\ Range(res) \subseteq may
\* an answer limited to n offers
Limited(res, must, may, n) ==
  /\ Once(res) /\ Range(res) \subseteq may
  /\ Len(res) <= n
  /\ Len(res) >= (IF Cardinality(must) < n THEN Cardinality(must) ELSE n)
=============================================================================
