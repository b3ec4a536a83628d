------------------------------- MODULE RegMgr -------------------------------
(* A node's view of the register: what it knows about each listed node.      *)
(* A listing is a sequence of [id, v]: identifier and version of its data.   *)
(* Entries are added and updated, never dropped (the manager does not        *)
(* support removal).  Identifiers 0 .. 999 are positions on the ring; larger *)
(* ones stand for malformed identifiers, which have no position.             *)
EXTENDS Ring

None == -1
IdsOf(l) == { l[i].id : i \in 1 .. Len(l) }
LastOf(l, x) == LET i == CHOOSE i \in 1 .. Len(l) : l[i].id = x /\ \A j \in i + 1 .. Len(l) : l[j].id # x IN l[i].v
\* view: function from known ids to versions
Merge(view, l) ==
  [x \in DOMAIN view \cup IdsOf(l) |-> IF x \in IdsOf(l) THEN LastOf(l, x) ELSE view[x]]
Empty == [x \in {} |-> 0]
Look(view, x) == IF x \in DOMAIN view THEN view[x] ELSE None
Pairs(view) == { [id |-> x, v |-> view[x]] : x \in DOMAIN view }
Positions(view) == { x \in DOMAIN view : x < 1000 }
Cap(n) == IF n > 16 THEN 16 ELSE n
NearCid(m, view, c, n, x) == LET s == Closest(m, Positions(view), c, Cap(n), x) IN [i \in 1 .. Len(s) |-> [id |-> s[i], v |-> view[s[i]]]]
Span(m, view, g) == Closest(m, Positions(view), g, 16, g)
=============================================================================
