-------------------------------- MODULE Admin --------------------------------
(* An administration library (gateway-admin, provider-admin).  It knows the   *)
(* nodes that confirmed one of its requests to take them on: their key and    *)
(* address, as the register told it then.  What it is asked to do is put to   *)
(* that node's administration address, under the administrator's key, once;   *)
(* it is done when that node says so, in that kind of answer, under its key.  *)
EXTENDS Integers, Sequences
\* requests that take a node on, and those put only to nodes taken on
Starts == {"init1", "init2", "grp"}
Looks == {"force", "list", "pubg", "pubd", "getp"}
None == [rk |-> 9, ad |-> 9]
\* who is asked, and where
Whom(act, e) == IF e.kind \in Looks THEN act[e.g] ELSE [rk |-> e.rk, ad |-> e.ad]
Sent(act, e) == IF e.kind \in Looks THEN act[e.g] # None ELSE e.reg = ""
Done(act, e) == Sent(act, e) /\ e.ans = "" /\ e.sk = Whom(act, e).rk
Request(act, e) == [n |-> (2 * e.g) + Whom(act, e).ad, kind |-> e.kind, a |-> e.a, by |-> TRUE, nid |-> IF e.kind \in Starts THEN e.g ELSE 0 - 1]
Requests(act, e) == IF Sent(act, e) THEN <<Request(act, e)>> ELSE <<>>
Value(e) == CASE e.kind \in {"getrep", "getp"} -> e.ret [] e.kind = "setrep" -> <<<<1>>>> [] OTHER -> <<>>
After(act, e) == IF e.kind \in Starts /\ Done(act, e) THEN [act EXCEPT ![e.g] = Whom(act, e)] ELSE act
==============================================================================
