------------------------------- MODULE Merkle --------------------------------
(* Merkle trees over terms.  <<"c", i>> is the i-th CID, <<"n", l, r>> the   *)
(* hash of the two terms, <<"u", i>> some other byte string.  A leaf's hash  *)
(* is the CID itself, so a term can stand for a CID, a leaf and a node.      *)
EXTENDS Integers, Sequences, FiniteSets
C(i) == <<"c", i>>
E0 == <<"e", 0>> \* the empty byte string
N(l, r) == IF l = E0 THEN <<"n", r, l>> ELSE <<"n", l, r>>
IsNode(t) == t[1] = "n"
Padded(s) == IF Len(s) % 2 = 1 THEN Append(s, s[Len(s)]) ELSE s
Level(s) == [i \in 1 .. (Len(s) + 1) \div 2 |-> N(s[2 * i - 1], IF 2 * i > Len(s) THEN s[2 * i - 1] ELSE s[2 * i])]
RECURSIVE Up(_)
Up(s) == IF Len(s) = 1 THEN s[1] ELSE Up(Level(s))
\* the root of a list of leaves: an odd list is padded with its last leaf, an odd node is its own sibling
Root(s) == Up(Level(Padded(s)))
RECURSIVE Fold(_, _, _)
Fold(t, path, idx) == IF path = <<>> THEN t
  ELSE Fold(IF idx[1] = 1 THEN N(t, path[1]) ELSE N(path[1], t), Tail(path), Tail(idx))
Proves(t, path, idx, root) == Len(path) > 0 /\ Len(path) = Len(idx) /\ Fold(t, path, idx) = root
=============================================================================
