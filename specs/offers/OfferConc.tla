----------------------------- MODULE OfferConc -----------------------------
(* Design model of concurrent storing in an index CID -> offers: every step  *)
(* between two lock operations is a transition.  With Atomic = FALSE the     *)
(* entry of a CID is looked up and created in separate critical sections,    *)
(* which loses offers; TLC must find that (the check runs both).             *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Atomic, NAdd, NRead
VARIABLES idx,      \* cid -> entry number (0: none)
          ent,      \* entry number -> set of offers
          pc, loc,  \* per adder: step, remembered entry of the CID in hand, position in its CID list
          done,     \* offers whose store call returned
          rd        \* per reader: [st, must, res, c]
vars == <<idx, ent, pc, loc, done, rd>>
Cid == {0, 1}
Adders == 1 .. NAdd
Readers == 1 .. NRead
\* offer i has these CIDs, in this order
Cids(i) == CASE i = 1 -> <<0>> [] i = 2 -> <<0, 1>> [] OTHER -> <<1, 0>>
Init ==
  /\ idx = [c \in Cid |-> 0] /\ ent = <<>>
  /\ pc = [i \in Adders |-> "look"] /\ loc = [i \in Adders |-> [e |-> 0, k |-> 1]]
  /\ done = {} /\ rd = [r \in Readers |-> [st |-> "idle", must |-> {}, res |-> {}, c |-> 0]]

HasC(i, c) == \E j \in 1 .. Len(Cids(i)) : Cids(i)[j] = c
\* one critical section for the whole store call
AddAtomic(i) ==
  /\ Atomic /\ pc[i] = "look"
  /\ LET missing == { c \in Cid : HasC(i, c) /\ idx[c] = 0 }
         n == Len(ent)
         num(c) == IF idx[c] # 0 THEN idx[c] ELSE n + Cardinality({ d \in missing : d <= c })
         idx2 == [c \in Cid |-> IF HasC(i, c) THEN num(c) ELSE idx[c]]
         grown == ent \o [j \in 1 .. Cardinality(missing) |-> {}] IN
     /\ idx' = idx2
     /\ ent' = [j \in 1 .. Len(grown) |-> IF \E c \in Cid : HasC(i, c) /\ idx2[c] = j THEN grown[j] \cup {i} ELSE grown[j]]
  /\ pc' = [pc EXCEPT ![i] = "ret"] /\ UNCHANGED <<loc, done, rd>>
\* separate critical sections
Look(i) ==
  /\ ~Atomic /\ pc[i] = "look"
  /\ loc' = [loc EXCEPT ![i].e = idx[Cids(i)[loc[i].k]]]
  /\ pc' = [pc EXCEPT ![i] = IF loc'[i].e = 0 THEN "create" ELSE "put"]
  /\ UNCHANGED <<idx, ent, done, rd>>
Create(i) ==
  /\ pc[i] = "create"
  /\ ent' = Append(ent, {}) /\ idx' = [idx EXCEPT ![Cids(i)[loc[i].k]] = Len(ent) + 1]
  /\ loc' = [loc EXCEPT ![i].e = Len(ent) + 1]
  /\ pc' = [pc EXCEPT ![i] = "put"] /\ UNCHANGED <<done, rd>>
PutIn(i) ==
  /\ pc[i] = "put"
  /\ ent' = [ent EXCEPT ![loc[i].e] = @ \cup {i}]
  /\ loc' = [loc EXCEPT ![i].k = @ + 1]
  /\ pc' = [pc EXCEPT ![i] = IF loc[i].k = Len(Cids(i)) THEN "ret" ELSE "look"]
  /\ UNCHANGED <<idx, done, rd>>
Return(i) == pc[i] = "ret" /\ done' = done \cup {i} /\ pc' = [pc EXCEPT ![i] = "end"] /\ UNCHANGED <<idx, ent, loc, rd>>

Seen == UNION { rd[r].res : r \in { q \in Readers : rd[q].st = "end" } }
Begin(r) == \E c \in Cid : rd[r].st = "idle" /\ rd' = [rd EXCEPT ![r] = [st |-> "run", must |-> { i \in done \cup Seen : HasC(i, c) }, res |-> {}, c |-> c]]
            /\ UNCHANGED <<idx, ent, pc, loc, done>>
Read(r) == rd[r].st = "run" /\ rd' = [rd EXCEPT ![r].st = "end", ![r].res = IF idx[rd[r].c] = 0 THEN {} ELSE ent[idx[rd[r].c]]]
           /\ UNCHANGED <<idx, ent, pc, loc, done>>
Next == (\E i \in Adders : AddAtomic(i) \/ Look(i) \/ Create(i) \/ PutIn(i) \/ Return(i)) \/ (\E r \in Readers : Begin(r) \/ Read(r))
Spec == Init /\ [][Next]_vars
NothingLost == \A r \in Readers : rd[r].st = "end" => rd[r].must \subseteq rd[r].res
=============================================================================
