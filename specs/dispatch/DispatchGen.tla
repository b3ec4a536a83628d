---------------------------- MODULE DispatchGen ----------------------------
(* Scripts of messages on connections to several listeners.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Threads, P2Ps, Rests, Types, Depth, Rough
VARIABLES ops
Good == {"whole", "bytes", "split", "big", "pipe", "edge"}
Bad == {"stall", "stallhead", "smuggle", "garbage", "zero", "huge", "trunc", "null", "idle", "reset"}
RGood == {"whole", "slow", "big", "keep"}
RBad == {"garbage", "empty", "trunc", "get", "path", "null"}
Step == \E th \in {RandomElement(1 .. Threads)}, l \in {RandomElement(1 .. P2Ps + Rests)}, t \in {RandomElement(1 .. Types)},
           g \in {RandomElement(Good)}, b \in {RandomElement(Bad)}, rg \in {RandomElement(RGood)}, rb \in {RandomElement(RBad)},
           k \in {RandomElement(1 .. 10)}, n \in {RandomElement(1 .. 4)}, f \in {RandomElement(1 .. 4)} :
          ops' = Append(ops, [th |-> th, l |-> l, t |-> t, n |-> n, fresh |-> f = 1,
                              form |-> IF l <= P2Ps THEN (IF k <= Rough THEN b ELSE g) ELSE (IF k <= Rough THEN rb ELSE rg)])
Init == ops = <<>>
Next == Len(ops) < Depth /\ Step
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = Depth => PrintT("VFGEN " \o ToJson(ops))
=============================================================================
