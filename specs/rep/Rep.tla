-------------------------------- MODULE Rep --------------------------------
(* The gateway's client reputations: an established client has a number;     *)
(* every event moves it by that event's amount, saturating at the bounds.    *)
EXTENDS Integers
CONSTANTS Hi, Initial, Cost   \* bounds are -Hi and Hi; a challenge costs Cost
Lo == -Hi
Challenge == -Cost
Clamp(v) == IF v > Hi THEN Hi ELSE IF v < Lo THEN Lo ELSE v
Absent == Hi + 1000000          \* not a reputation
\* an establishment challenge: establishes an unknown client, once
Established(v) == Clamp((IF v = Absent THEN Initial ELSE v) + Challenge)
\* any other event; nothing to move for an unknown client
Moved(v, d) == IF v = Absent THEN Absent ELSE Clamp(v + d)
=============================================================================
