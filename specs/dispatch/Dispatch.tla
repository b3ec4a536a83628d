------------------------------ MODULE Dispatch ------------------------------
(* One stream of a listener: the sender's bytes, the server's reader.        *)
(* A frame is a length byte followed by that many bytes; the sender may      *)
(* pause at any byte longer than the reader's patience, and may put the      *)
(* bytes of a whole frame inside another.  Frames that the server takes for  *)
(* messages must be frames the sender sent as messages, each at most once,   *)
(* in order; without pauses inside a frame all of them.                      *)
(* Resume: what the reader does when its patience ends in mid-frame:         *)
(* "drop" the connection, or start "afresh" at the next byte.                *)
(* Greedy: one read may fetch bytes of the next frame, which are lost.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Resume, Greedy, Frames     \* Frames: how many are sent
\* a frame of kind 1: <<1, 7>>; of kind 2, holding the bytes of a frame of kind 1: <<2, 1, 7>>
Frame(k) == IF k = 1 THEN <<1, 7>> ELSE <<2, 1, 7>>
Body(k) == Tail(Frame(k))
VARIABLES sent,    \* kinds of the frames sent, in order
          wire,    \* bytes not read yet
          taken,   \* what the server took for a message, in order
          need,    \* bytes of the current frame still to come; -1: at a frame's start
          part,    \* bytes of the current frame read
          alive, paused
vars == <<sent, wire, taken, need, part, alive, paused>>
Init == sent = <<>> /\ wire = <<>> /\ taken = <<>> /\ need = -1 /\ part = <<>> /\ alive = TRUE /\ paused = FALSE
Send == /\ Len(sent) < Frames /\ \E k \in {1, 2} : sent' = Append(sent, k) /\ wire' = wire \o Frame(k)
        /\ UNCHANGED <<taken, need, part, alive, paused>>
ReadLen == /\ alive /\ need = -1 /\ wire # <<>> /\ need' = Head(wire) /\ wire' = Tail(wire) /\ part' = <<>> /\ UNCHANGED <<sent, taken, alive, paused>>
ReadByte == /\ alive /\ need > 0 /\ wire # <<>>
            /\ part' = Append(part, Head(wire)) /\ need' = IF need = 1 THEN -1 ELSE need - 1
            /\ taken' = IF need = 1 THEN Append(taken, part') ELSE taken
            /\ wire' \in {Tail(wire)} \cup (IF Greedy /\ need = 1 /\ Len(wire) > 1 THEN {SubSeq(wire, 3, Len(wire))} ELSE {})
            /\ UNCHANGED <<sent, alive, paused>>
\* the rest of the frame comes late
Late == /\ alive /\ need > 0 /\ paused' = TRUE
        /\ IF Resume = "drop" THEN alive' = FALSE /\ UNCHANGED <<need, part>> ELSE need' = -1 /\ part' = <<>> /\ UNCHANGED alive
        /\ UNCHANGED <<sent, wire, taken>>
Next == Send \/ ReadLen \/ ReadByte \/ Late
Spec == Init /\ [][Next]_vars /\ WF_vars(ReadLen \/ ReadByte)
Sent == [i \in 1 .. Len(sent) |-> Body(sent[i])]
\* what was taken is a prefix of what was sent
Faithful == Len(taken) <= Len(Sent) /\ \A i \in 1 .. Len(taken) : taken[i] = Sent[i]
Complete == <>[](paused \/ taken = Sent)
=============================================================================
