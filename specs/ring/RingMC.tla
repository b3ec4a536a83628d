------------------------------- MODULE RingMC -------------------------------
(* Exhaustive design check: for every content of a small ring and every     *)
(* query, the answers defined in Ring.tla have the properties C02 and C03   *)
(* ask for, stated independently of how the answers are computed.           *)
EXTENDS Ring
CONSTANT M
VARIABLE S
Id == 0 .. M - 1
Init == S = {}
Next == \E k \in Id : S' = Ins(S, k) \/ S' = Del(S, k)
Spec == Init /\ [][Next]_S

TypeOK == S \subseteq Id

\* C01 (design): an insertion adds exactly k, a removal removes exactly k
Exact == [][\E k \in Id : (S' = S \cup {k}) \/ (S' = S \ {k})]_S

ClosestOK ==
  \A t \in Id, n \in 0 .. M, x \in Id \cup {NoId} :
    LET r == Closest(M, S, t, n, x)  R == { r[i] : i \in 1 .. Len(r) }  C == S \ {x} IN
    /\ R \subseteq C /\ Cardinality(R) = Len(r)
    /\ Len(r) = IF n < Cardinality(C) THEN n ELSE Cardinality(C)
    /\ \A a \in R, o \in C \ R : Near(M, a, t) <= Near(M, o, t)
    \* one clockwise run: going round from the first entry never overtakes it
    /\ \A i \in 1 .. Len(r) - 1 : CW(M, r[1], r[i]) < CW(M, r[1], r[i + 1])
    \* ... and the run has no gaps: no eligible member lies inside it and is omitted
    /\ \A o \in C \ R : Len(r) > 0 => CW(M, r[1], o) > CW(M, r[1], r[Len(r)])
    /\ (t \in C /\ n > 0) => t \in R

RangeOK ==
  \A a, b \in Id :
    LET r == Arc(M, S, a, b)  R == { r[i] : i \in 1 .. Len(r) } IN
    /\ R = { c \in S : CW(M, a, c) <= CW(M, a, b) } /\ Cardinality(R) = Len(r)
    /\ \A i \in 1 .. Len(r) - 1 : CW(M, a, r[i]) < CW(M, a, r[i + 1])
    /\ (a = b) => (R = S \cap {a})
    /\ (a # b /\ b \in S /\ a \in S) => (r[1] = a /\ r[Len(r)] = b)
=============================================================================
