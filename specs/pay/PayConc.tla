------------------------------- MODULE PayConc -------------------------------
(* Design model of two things the payment manager does for a channel it has  *)
(* not seen: look it up under a read lock, then create it under the write    *)
(* lock.  With Recheck = FALSE the creation trusts the earlier look and the   *)
(* second creator overwrites the first's state; TLC must find the lost       *)
(* deposit and the doubled credit (the check runs both variants).            *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Recheck, N
VARIABLES pc,       \* per caller
          chans,    \* deposits of the channels on the chain
          known,    \* the payer's state: [ch, dep] or none (0)
          credit,   \* payee: lane total kept locally (-1: no state yet)
          got,      \* payee: credit handed out
          who
vars == <<pc, chans, known, credit, got, who>>
Callers == 1 .. N
Init == /\ pc = [i \in Callers |-> "look"] /\ who \in [Callers -> {"topup", "recv"}]
        /\ chans = <<>> /\ known = [ch |-> 0, dep |-> 0] /\ credit = -1 /\ got = 0
Look(i) ==
  /\ pc[i] = "look"
  /\ pc' = [pc EXCEPT ![i] = IF (who[i] = "topup" /\ known.ch # 0) \/ (who[i] = "recv" /\ credit # -1) THEN "use" ELSE "create"]
  /\ UNCHANGED <<chans, known, credit, got, who>>
\* under the write lock, in one step: the lock is held to the end
Create(i) ==
  /\ pc[i] = "create"
  /\ IF who[i] = "topup"
     THEN IF Recheck /\ known.ch # 0
          THEN /\ pc' = [pc EXCEPT ![i] = "use"] /\ UNCHANGED <<chans, known>>
          ELSE /\ chans' = Append(chans, 1) /\ known' = [ch |-> Len(chans) + 1, dep |-> 1]
               /\ pc' = [pc EXCEPT ![i] = "end"]
     ELSE UNCHANGED <<chans, known, pc>>
  /\ IF who[i] = "recv"
     THEN IF Recheck /\ credit # -1
          THEN /\ pc' = [pc EXCEPT ![i] = "use"] /\ UNCHANGED <<credit, got>>
          ELSE credit' = 1 /\ got' = got + 1 /\ pc' = [pc EXCEPT ![i] = "end"]
     ELSE UNCHANGED <<credit, got>>
  /\ UNCHANGED who
Use(i) ==
  /\ pc[i] = "use" /\ pc' = [pc EXCEPT ![i] = "end"]
  /\ IF who[i] = "topup"
     THEN chans' = [chans EXCEPT ![known.ch] = @ + 1] /\ known' = [known EXCEPT !.dep = @ + 1] /\ UNCHANGED <<credit, got>>
     ELSE UNCHANGED <<chans, known, credit, got>>   \* the same voucher again: no credit
  /\ UNCHANGED who
Next == \E i \in Callers : Look(i) \/ Create(i) \/ Use(i)
Spec == Init /\ [][Next]_vars
Ended(k) == { i \in Callers : pc[i] = "end" /\ who[i] = k }
NothingLost == known.dep = Cardinality(Ended("topup"))
CreditedOnce == got <= 1
OneChannel == Len(chans) <= 1
=============================================================================
