-------------------------------- MODULE Rand ---------------------------------
(* The random number generators (public, private, separate ones), and what is *)
(* drawn from them: keys and identifiers.  Whoever reads, whenever, gets the   *)
(* whole of what was asked for, and no part of it was ever given before.       *)
EXTENDS Integers, Sequences, FiniteSets
Chunk == 16
\* parts that tell something in a read of n bytes
Parts(n) == (n \div Chunk) + (IF n % Chunk >= 8 THEN 1 ELSE 0)
Span(s) == { s[i] : i \in 1 .. Len(s) }
\* what came is new, filled and without repetition
Fresh(seen, out) == 0 \notin Span(out) /\ Span(out) \cap seen = {} /\ Cardinality(Span(out)) = Len(out)
Wanted(e) == CASE e.op = "read" -> e.k * Parts(e.n)
  [] e.op \in {"key", "id"} -> 2
  \* 64 bytes of each shared generator, an identifier and a key
  [] e.op = "child" -> e.k * 12
Draw(seen, e) == Len(e.out) = Wanted(e) /\ Fresh(seen, e.out)
==============================================================================
