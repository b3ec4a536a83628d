------------------------------ MODULE Register ------------------------------
(* The register service: two maps, gateways and providers, from an           *)
(* identifier to the data last registered under it.  R is a set of           *)
(* [k, i, d].  A request q: [k, m, i, d, f, st, ans] - kind, method (post,    *)
(* get, list, del), identifier, data, fault of the store while it was        *)
(* served ("" for none), how it was answered and the data answered with.     *)
EXTENDS Integers, Sequences, FiniteSets
Of(R, k) == { x \in R : x.k = k }
At(R, k, i) == { x \in R : x.k = k /\ x.i = i }
After(R, q) ==
  CASE q.m = "post" -> (R \ At(R, q.k, q.i)) \cup {[k |-> q.k, i |-> q.i, d |-> q.d]}
    [] q.m = "del" -> R \ Of(R, q.k)
    [] OTHER -> R
\* answered as done
Done(R, q) ==
  CASE q.m = "post" -> q.st = "ok" /\ q.ans = <<q.d>>
    [] q.m = "del" -> q.st = "ok"
    [] q.m = "get" -> IF At(R, q.k, q.i) = {} THEN q.st = "absent" ELSE q.st = "ok" /\ \E x \in At(R, q.k, q.i) : q.ans = <<x.d>>
    [] q.m = "list" -> /\ q.st = "ok" /\ Len(q.ans) = Cardinality(Of(R, q.k))
                       /\ { q.ans[j] : j \in DOMAIN q.ans } = { x.d : x \in Of(R, q.k) }
\* states a request may leave behind: what it was answered with must be the truth;
\* a request that fails because the store does is answered by an error and done or not, never half
Leaves(R, q) ==
  (IF Done(R, q) THEN {After(R, q)} ELSE {})
  \cup (IF q.f # "" /\ q.st = "err" THEN {R, After(R, q)} ELSE {})
\* the service was killed before it answered
Cut(R, q) == IF q.st = "none" THEN {R, After(R, q)} ELSE Leaves(R, q)
\* several clients at once, each with its requests one after the other
RECURSIVE Reach(_, _)
Reach(R, ths) ==
  IF \A t \in DOMAIN ths : ths[t] = <<>> THEN {R}
  ELSE UNION { UNION { Reach(S, [ths EXCEPT ![t] = Tail(@)]) : S \in Leaves(R, Head(ths[t])) } : t \in { u \in DOMAIN ths : ths[u] # <<>> } }
=============================================================================
