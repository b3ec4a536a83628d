-------------------------------- MODULE RandMC --------------------------------
(* One generator and its readers, step by step.  A part of output is a hash of  *)
(* a counter, of the inner generator's output and of the state, and becomes the *)
(* state.  Hashes of unlike terms are unlike.  Drop leaves out the lock or what *)
(* moves the generator on.  Seeds may be known, and the same each time.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Reads, Drop
VARIABLES ctr, inner, state, lock, pc, mine, given
vars == <<ctr, inner, state, lock, pc, mine, given>>
Init == /\ ctr = 0 /\ inner = 0 /\ state = <<0>> /\ lock = 0 /\ given = <<>>
        /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> <<0, 0>>]
Step(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Enter(t) == /\ Step(t, "idle", "count") /\ Len(given) < Reads
            /\ (lock = 0 \/ Drop = "lock")
            /\ lock' = t /\ UNCHANGED <<ctr, inner, state, mine, given>>
Count(t) == /\ Step(t, "count", "inner")
            /\ ctr' = IF Drop = "moves" THEN ctr ELSE ctr + 1
            /\ mine' = [mine EXCEPT ![t] = <<ctr', 0>>] /\ UNCHANGED <<inner, state, lock, given>>
Inner(t) == /\ Step(t, "inner", "hash")
            /\ inner' = (IF Drop = "moves" THEN inner ELSE inner + 1)
            /\ mine' = [mine EXCEPT ![t][2] = inner] /\ UNCHANGED <<ctr, state, lock, given>>
\* the counter is read again: another reader may have moved it
Hash(t) == /\ Step(t, "hash", "give")
           /\ mine' = [mine EXCEPT ![t] = <<ctr, mine[t][2]>> \o state] /\ UNCHANGED <<ctr, inner, state, lock, given>>
\* what is given out is the state as it then is
Give(t) == /\ Step(t, "give", "out")
           /\ state' = (IF Drop = "moves" THEN state ELSE mine[t]) /\ UNCHANGED <<ctr, inner, lock, mine, given>>
Out(t) == /\ Step(t, "out", "idle")
          /\ given' = Append(given, IF Drop = "lock" THEN state ELSE mine[t])
          /\ lock' = 0 /\ UNCHANGED <<ctr, inner, state, mine>>
\* a known seed goes into the inner generator and into the state
Seed(t) == /\ pc[t] = "idle" /\ (lock = 0 \/ Drop = "lock")
           /\ Len(state) < 9
           /\ inner' = inner + 100
           /\ state' = IF Drop = "seed" THEN <<0>> ELSE <<0 - 7>> \o state
           /\ ctr' = IF Drop = "seed" THEN 0 ELSE ctr
           /\ UNCHANGED <<lock, pc, mine, given>>
Reset(t) == Drop = "seed" /\ pc[t] = "idle" /\ lock = 0 /\ inner' = 0 /\ ctr' = 0 /\ state' = <<0>> /\ UNCHANGED <<lock, pc, mine, given>>
Next == \E t \in Threads : Enter(t) \/ Count(t) \/ Inner(t) \/ Hash(t) \/ Give(t) \/ Out(t) \/ Seed(t) \/ Reset(t)
Spec == Init /\ [][Next]_vars
Once == \A i, j \in 1 .. Len(given) : i # j => given[i] # given[j]
================================================================================
