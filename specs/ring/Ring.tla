-------------------------------- MODULE Ring --------------------------------
(* The DHT ring as a set of positions on a circle of circumference M, and   *)
(* the two queries every node answers from it.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* clockwise distance from a to b on a circle of circumference m
CW(m, a, b) == (b - a) % m
Near(m, a, b) == IF CW(m, a, b) < CW(m, b, a) THEN CW(m, a, b) ELSE CW(m, b, a)
\* m lies on the counter-clockwise side of t (an antipodal point counts as such)
IsLeft(m, t, x) == CW(m, x, t) <= CW(m, t, x)
\* the order of preference around target t: nearer first, the counter-clockwise one on a tie
Before(m, t, a, b) ==
  \/ Near(m, a, t) < Near(m, b, t)
  \/ Near(m, a, t) = Near(m, b, t) /\ a # b /\ IsLeft(m, t, a)

NoId == -1

ClosestSet(m, S, t, n, x) ==
  LET C == S \ {x} IN { c \in C : Cardinality({ o \in C : Before(m, t, o, c) }) < n }

Closest(m, S, t, n, x) ==
  LET Ch    == ClosestSet(m, S, t, n, x)
      Left  == { c \in Ch \ {t} : IsLeft(m, t, c) }
      Right == (Ch \ {t}) \ Left
  IN  SetToSortSeq(Left,  LAMBDA a, b : CW(m, a, t) > CW(m, b, t))
      \o (IF t \in Ch THEN <<t>> ELSE <<>>)
      \o SetToSortSeq(Right, LAMBDA a, b : CW(m, t, a) < CW(m, t, b))

Arc(m, S, a, b) ==
  SetToSortSeq({ c \in S : CW(m, a, c) <= CW(m, a, b) },
               LAMBDA p, q : CW(m, a, p) < CW(m, a, q))

Ins(S, k) == S \cup {k}
Del(S, k) == S \ {k}
=============================================================================
