--------------------------- MODULE DispatchTrace ---------------------------
(* Recorded histories of the servers: S a message (or something malformed)   *)
(* is sent on a connection, H a handler is invoked, R an answer is read,     *)
(* Q all is quiet; calm: the machine delayed nothing.                        *)
(* Classes of what is sent: good; stall (good, with a pause the server need  *)
(* not bear); odd (may pass for a message of no type); bad (not a message).  *)
EXTENDS TraceKit
VARIABLES msg,      \* m -> [c, l, t, cls, must, handled, answered]
          broken    \* connections on which nothing more is promised
Init == TKInit /\ msg = [m \in {} |-> 0] /\ broken = {}
Has(l, t) == \E i \in 1 .. Len(Tr.table) : Tr.table[i].l = l /\ Tr.table[i].t = t
Beh(l, t) == Tr.table[CHOOSE i \in 1 .. Len(Tr.table) : Tr.table[i].l = l /\ Tr.table[i].t = t].beh
S == /\ E.op = "S" /\ E.m \notin DOMAIN msg
     /\ msg' = [m \in DOMAIN msg \cup {E.m} |->
                 IF m # E.m THEN msg[m]
                 ELSE [c |-> E.c, l |-> E.l, t |-> E.t, cls |-> E.cls, rest |-> E.rest, must |-> E.cls = "good" /\ E.c \notin broken,
                       handled |-> FALSE, answered |-> FALSE]]
     \* a stream is out of step after anything but a good message, and dropped by a failing handler
     /\ broken' = IF ~E.rest /\ (E.cls # "good" \/ (Has(E.l, E.t) /\ Beh(E.l, E.t) = "err")) THEN broken \cup {E.c} ELSE broken
H == /\ E.op = "H" /\ E.m \in DOMAIN msg /\ UNCHANGED broken
     /\ LET x == msg[E.m] IN
        /\ ~x.handled /\ x.cls \in {"good", "stall"} /\ E.l = x.l /\ E.t = x.t /\ E.whole /\ Has(x.l, x.t)
        \* in the order of the stream
        /\ x.rest \/ \A m \in DOMAIN msg : (m < E.m /\ msg[m].c = x.c /\ msg[m].cls = "good" /\ Has(msg[m].l, msg[m].t)) => msg[m].handled
        /\ msg' = [msg EXCEPT ![E.m].handled = TRUE]
\* the messages of a stream that an answer may belong to: the first that waits for one
Waits(m) == msg[m].cls # "bad" /\ ~msg[m].answered /\ (Has(msg[m].l, msg[m].t) => Beh(msg[m].l, msg[m].t) = "reply")
First(c, m) == msg[m].c = c /\ Waits(m) /\ \A k \in DOMAIN msg : (k < m /\ msg[k].c = c /\ msg[k].cls = "good") => ~Waits(k)
R == /\ E.op = "R" /\ UNCHANGED broken
     /\ CASE E.kind = "reply" -> /\ E.m \in DOMAIN msg /\ First(E.c, E.m) /\ msg[E.m].handled /\ E.whole
                                 /\ msg' = [msg EXCEPT ![E.m].answered = TRUE]
          [] E.kind = "invalid" -> \E m \in DOMAIN msg : First(E.c, m) /\ ~Has(msg[m].l, msg[m].t) /\ msg' = [msg EXCEPT ![m].answered = TRUE]
          [] OTHER -> FALSE
\* the answer of a REST exchange, or none
A == /\ E.op = "A" /\ E.m \in DOMAIN msg /\ UNCHANGED broken
     /\ LET x == msg[E.m] IN
        /\ ~x.answered /\ msg' = [msg EXCEPT ![E.m].answered = TRUE]
        /\ IF x.cls = "good" /\ Has(x.l, x.t)
           THEN x.handled /\ (IF Beh(x.l, x.t) = "reply" THEN E.status = 200 /\ E.rm = E.m /\ E.whole ELSE E.status = 500)
           ELSE /\ ~x.handled
                /\ IF E.form = "trunc" THEN E.status = 0 \/ E.status \in 400 .. 499 ELSE E.status \in 400 .. 499
Q == /\ E.op = "Q" /\ UNCHANGED <<msg, broken>>
     /\ E.calm => \A m \in DOMAIN msg :
          msg[m].must => /\ Has(msg[m].l, msg[m].t) => msg[m].handled
                         /\ ~Waits(m)
Next == Advance /\ (S \/ H \/ R \/ A \/ Q)
Spec == Init /\ [][Next]_<<msg, broken, tid, pos>>
=============================================================================
