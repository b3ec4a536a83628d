------------------------------ MODULE RepTrace ------------------------------
(* Histories of the real reputation manager.  Calls have a begin and an end; *)
(* a sequential history is the special case of no overlap.  A "bulk" is a    *)
(* great many overlapping events whose order cannot matter: none of them can *)
(* reach a bound.                                                            *)
EXTENDS Rep, TraceKit
Amount == <<1000, 10, 1, 1, -100, 10, 1, 1, -300, 1, -10>>  \* per event, in the order of the driver's table
VARIABLES rep, run
Val(c) == IF c \in DOMAIN rep THEN rep[c] ELSE Absent
Put(c, v) == IF v = Absent THEN rep ELSE [x \in DOMAIN rep \cup {c} |-> IF x = c THEN v ELSE rep[x]]
Init == TKInit /\ rep = [c \in {} |-> 0] /\ run = {}
Begin == Advance /\ E.op = "B" /\ run' = run \cup {[e |-> E, lin |-> FALSE]} /\ UNCHANGED rep
End == Advance /\ E.op = "E" /\ \E q \in run : q.e.id = E.id /\ q.lin /\ run' = run \ {q} /\ UNCHANGED rep
Result(id) == Tr.ev[CHOOSE j \in pos .. Len(Tr.ev) : Tr.ev[j].op = "E" /\ Tr.ev[j].id = id]
Ended(id) == \E j \in pos .. Len(Tr.ev) : Tr.ev[j].op = "E" /\ Tr.ev[j].id = id
Many[n \in Nat, d \in Int, v \in Int] == IF n = 0 THEN v ELSE Many[n - 1, d, Moved(v, d)]
Effect(b, r) ==
  CASE b.k = "est" -> rep' = Put(b.c, Established(Val(b.c))) /\ r.val = Established(Val(b.c))
    [] b.k = "ev"  -> rep' = Put(b.c, Moved(Val(b.c), Amount[b.e]))
    [] b.k = "run" -> rep' = Put(b.c, Many[b.n, Amount[b.e], Val(b.c)])
    [] b.k = "get" -> rep' = rep /\ r.is = (Val(b.c) # Absent) /\ (r.is => r.val = Val(b.c))
    [] b.k = "exists" -> rep' = rep /\ r.is = (Val(b.c) # Absent)
    [] b.k = "set" -> rep' = Put(b.c, b.v)
\* the initial value may be seen before the establishment challenge is charged
Half == /\ More /\ E.op = "E" /\ \E q \in run : q.e.id = E.id /\ ~q.lin
        /\ \E q \in run : ~q.lin /\ q.e.k = "est" /\ Val(q.e.c) = Absent /\ rep' = Put(q.e.c, Initial)
        /\ UNCHANGED <<tid, pos, run>>
Lin == /\ More /\ E.op = "E" /\ \E q \in run : q.e.id = E.id /\ ~q.lin
       /\ \E q \in run : ~q.lin /\ Ended(q.e.id) /\ Effect(q.e, Result(q.e.id))
            /\ run' = (run \ {q}) \cup {[q EXCEPT !.lin = TRUE]}
       /\ UNCHANGED <<tid, pos>>
\* many overlapping calls on one client: how many establishment challenges and events of each kind, and the value after
RECURSIVE Sum(_, _)
Sum(n, i) == IF i = 0 THEN 0 ELSE n[i] * Amount[i] + Sum(n, i - 1)
RECURSIVE Swing(_, _)
Swing(n, i) == IF i = 0 THEN 0 ELSE n[i] * (IF Amount[i] < 0 THEN -Amount[i] ELSE Amount[i]) + Swing(n, i - 1)
Bulk ==
  /\ Advance /\ E.op = "bulk" /\ run = {} /\ run' = run
  /\ LET base == IF Val(E.c) = Absent THEN Initial ELSE Val(E.c)
         end == base + Challenge * E.est + Sum(E.n, Len(E.n)) IN
     /\ E.est > 0 \/ Val(E.c) # Absent
     /\ Assert((IF base < 0 THEN -base ELSE base) + E.est + Swing(E.n, Len(E.n)) < Hi, "this bulk could reach a bound")
     /\ E.is /\ E.val = end
     /\ rep' = Put(E.c, end)
Next == Begin \/ End \/ Half \/ Lin \/ Bulk
Spec == Init /\ [][Next]_<<rep, run, tid, pos>>
=============================================================================
