------------------------------ MODULE RegMgrMC ------------------------------
(* Design model of a forced refresh: callers and the updating routine meet   *)
(* on one unbuffered channel, used for the request and for the completion    *)
(* notice.  Without a lock around a caller's two operations one caller's     *)
(* request is taken by another caller as its notice, which then returns      *)
(* before anything was fetched; TLC must find that (the check runs both).    *)
EXTENDS Integers, FiniteSets
CONSTANTS Serial, NCall, MaxV
VARIABLES reg, view, upd, pend, got, pc, floor, lock
vars == <<reg, view, upd, pend, got, pc, floor, lock>>
Callers == 1 .. NCall
\* reg: version at the registry; view: version held; upd: updater step; got: version being applied;
\* pend: a caller asked for this round; floor: version at the registry when the caller's refresh began
Init == /\ reg = 1 /\ view = 0 /\ upd = "wait" /\ pend = FALSE /\ got = 0 /\ lock = 0
        /\ pc = [c \in Callers |-> "idle"] /\ floor = [c \in Callers |-> 0]
Change == reg < MaxV /\ reg' = reg + 1 /\ UNCHANGED <<view, upd, pend, got, pc, floor, lock>>
Start(c) == /\ pc[c] = "idle" /\ pc' = [pc EXCEPT ![c] = IF Serial THEN "lock" ELSE "send"]
            /\ floor' = [floor EXCEPT ![c] = reg] /\ UNCHANGED <<reg, view, upd, pend, got, lock>>
Lock(c) == pc[c] = "lock" /\ lock = 0 /\ lock' = c /\ pc' = [pc EXCEPT ![c] = "send"] /\ UNCHANGED <<reg, view, upd, pend, got, floor>>
Leave(c, p) == [p EXCEPT ![c] = "done"]
Free(c) == IF lock = c THEN 0 ELSE lock
\* rendezvous caller -> updater
Ask(c) == /\ pc[c] = "send" /\ upd = "wait" /\ upd' = "pull" /\ pend' = TRUE
          /\ pc' = [pc EXCEPT ![c] = "recv"] /\ UNCHANGED <<reg, view, got, floor, lock>>
\* rendezvous caller -> caller
Steal(c, d) == /\ c # d /\ pc[c] = "send" /\ pc[d] = "recv"
               /\ pc' = [pc EXCEPT ![c] = "recv", ![d] = "done"] /\ lock' = Free(d) /\ UNCHANGED <<reg, view, upd, pend, got, floor>>
Timer == upd = "wait" /\ upd' = "pull" /\ UNCHANGED <<reg, view, pend, got, pc, floor, lock>>
Pull == upd = "pull" /\ got' = reg /\ upd' = "apply" /\ UNCHANGED <<reg, view, pend, pc, floor, lock>>
Apply == upd = "apply" /\ view' = got /\ upd' = (IF pend THEN "tell" ELSE "wait") /\ UNCHANGED <<reg, pend, got, pc, floor, lock>>
\* rendezvous updater -> caller
Tell(c) == /\ upd = "tell" /\ pc[c] = "recv" /\ upd' = "wait" /\ pend' = FALSE
           /\ pc' = [pc EXCEPT ![c] = "done"] /\ lock' = Free(c) /\ UNCHANGED <<reg, view, got, floor>>
Again(c) == pc[c] = "done" /\ reg < MaxV /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<reg, view, upd, pend, got, floor, lock>>
Next == Change \/ Timer \/ Pull \/ Apply \/ \E c \in Callers : Start(c) \/ Lock(c) \/ Ask(c) \/ Tell(c) \/ Again(c) \/ \E d \in Callers : Steal(c, d)
Spec == Init /\ [][Next]_vars
Refreshed == \A c \in Callers : pc[c] = "done" => view >= floor[c]
=============================================================================
