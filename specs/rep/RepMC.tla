------------------------------- MODULE RepMC -------------------------------
(* Design: establishment challenges and events from N callers at once.       *)
(* Atomic = FALSE looks for the client first and establishes it later: TLC   *)
(* must then find a reputation that was reset.                               *)
EXTENDS Rep, Sequences, FiniteSets, Functions
CONSTANTS Atomic, N, Up, Down
Moves == {Up, -Down}
VARIABLES rep, pc, hist, did
vars == <<rep, pc, hist, did>>
Callers == 1 .. N
Init == rep = Absent /\ pc = [i \in Callers |-> "idle"] /\ hist = <<>> /\ did = 0
Look(i) == /\ pc[i] = "idle" /\ ~Atomic /\ did < 5 /\ did' = did + 1
           /\ pc' = [pc EXCEPT ![i] = IF rep = Absent THEN "establish" ELSE "move"] /\ UNCHANGED <<rep, hist>>
Set(i) == pc[i] = "establish" /\ rep' = Initial /\ pc' = [pc EXCEPT ![i] = "move"] /\ UNCHANGED <<hist, did>>
Move(i) == pc[i] = "move" /\ rep' = Clamp(rep + Challenge) /\ pc' = [pc EXCEPT ![i] = "idle"] /\ hist' = Append(hist, Challenge) /\ UNCHANGED did
Both(i) == /\ pc[i] = "idle" /\ Atomic /\ did < 5 /\ did' = did + 1
           /\ rep' = Established(rep) /\ hist' = Append(hist, Challenge) /\ UNCHANGED pc
Event(i) == /\ pc[i] = "idle" /\ rep # Absent /\ did < 5 /\ did' = did + 1
            /\ \E d \in Moves : rep' = Moved(rep, d) /\ hist' = Append(hist, d)
            /\ UNCHANGED pc
Next == \E i \in Callers : Look(i) \/ Set(i) \/ Move(i) \/ Both(i) \/ Event(i)
Spec == Init /\ [][Next]_vars
Fold[s \in Seq(Moves \cup {Challenge})] == IF s = <<>> THEN Initial ELSE Clamp(Fold[SubSeq(s, 1, Len(s) - 1)] + s[Len(s)])
InBounds == rep = Absent \/ rep \in Lo .. Hi
ExactlyTheEvents == (rep # Absent /\ \A i \in Callers : pc[i] = "idle") => rep = Fold[hist]
=============================================================================
