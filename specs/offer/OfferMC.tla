------------------------------ MODULE OfferMC --------------------------------
(* A provider signs lists of CIDs; an attacker who knows every term of the   *)
(* trees presents sub-offers and offers of its own making.                   *)
(* Sep: the leaf hash is marked, so that no node is a leaf.  Counted: the    *)
(* signature covers the number of CIDs.  The code has neither: TLC must find *)
(* the foreign CID without Sep, and the other list without Counted.          *)
EXTENDS Merkle
CONSTANTS Sep, Counted, NCid, MaxLen, MaxPath
VARIABLES lists, try
vars == <<lists, try>>
Atoms == { C(i) : i \in 1 .. NCid }
Leaf(t) == IF Sep THEN <<"l", t, 0>> ELSE t
Leaves(s) == [i \in 1 .. Len(s) |-> Leaf(s[i])]
Seqs(T, n) == UNION { [1 .. k -> T] : k \in 1 .. n }
RECURSIVE Sub(_)
Sub(t) == {t} \cup (IF Len(t) = 3 THEN Sub(t[2]) \cup (IF t[1] = "n" THEN Sub(t[3]) ELSE {}) ELSE {})
Known == Atoms \cup UNION { Sub(Root(Leaves(s))) : s \in lists }
Signed(root, n) == \E s \in lists : Root(Leaves(s)) = root /\ (Counted => Len(s) = n)
None == [kind |-> "none"]
Init == lists = {} /\ try = None
Sign == try = None /\ lists = {} /\ \E s \in Seqs(Atoms, MaxLen) : lists' = {s} /\ try' = try
\* a sub-offer for any byte string with any path
PresentSub == /\ try = None /\ lists # {}
              /\ \E c \in Known, n \in 1 .. MaxPath : \E path \in [1 .. n -> Known], idx \in [1 .. n -> {0, 1}] :
                   try' = [kind |-> "sub", cid |-> c, ok |-> \E s \in lists : Proves(Leaf(c), path, idx, Root(Leaves(s)))]
              /\ UNCHANGED lists
PresentOffer == /\ try = None /\ lists # {}
                /\ \E s \in Seqs(Known, MaxLen + 1) : try' = [kind |-> "offer", cids |-> s, ok |-> Signed(Root(Leaves(s)), Len(s))]
                /\ UNCHANGED lists
Next == Sign \/ PresentSub \/ PresentOffer
Spec == Init /\ [][Next]_vars
NoForeign == try.kind = "sub" /\ try.ok => \E s \in lists : \E i \in 1 .. Len(s) : s[i] = try.cid
SameList == try.kind = "offer" /\ try.ok => try.cids \in lists
\* what a provider signed is provable for each of its CIDs
=============================================================================
