-------------------------------- MODULE P2P --------------------------------
(* Requests of several callers to one peer over a pooled connection.         *)
(* A caller takes the pooled connection (dialling when there is none), locks *)
(* it, sends its request, waits for one answer or gives up, and on failure   *)
(* drops the connection.  Drop = "inside" drops it before unlocking it and   *)
(* makes whoever waited for the lock dial again; Drop = "after" unlocks      *)
(* first: TLC must then find an answer to somebody else's request, and a     *)
(* caller working on a connection that was closed under it.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Drop, MaxConn
VARIABLES pool,    \* the pooled connection, 0: none
          nconn,   \* connections dialled so far
          closed,  \* connections this node has closed
          lock,    \* connection -> caller holding it, 0: free
          req,     \* connection -> requests the peer has not answered
          resp,    \* connection -> answers not read yet
          pc, mine, got
vars == <<pool, nconn, closed, lock, req, resp, pc, mine, got>>
Callers == 1 .. N
Conns == 1 .. MaxConn
Init == /\ pool = 0 /\ nconn = 0 /\ closed = {} /\ lock = [c \in Conns |-> 0]
        /\ req = [c \in Conns |-> <<>>] /\ resp = [c \in Conns |-> <<>>]
        /\ pc = [i \in Callers |-> "get"] /\ mine = [i \in Callers |-> 0] /\ got = [i \in Callers |-> 0]
Get(i) == /\ pc[i] = "get" /\ pc' = [pc EXCEPT ![i] = "lock"]
          /\ IF pool # 0 THEN mine' = [mine EXCEPT ![i] = pool] /\ UNCHANGED <<pool, nconn>>
             ELSE /\ nconn < MaxConn /\ nconn' = nconn + 1 /\ pool' = nconn + 1 /\ mine' = [mine EXCEPT ![i] = nconn + 1]
          /\ UNCHANGED <<closed, lock, req, resp, got>>
Lock(i) == /\ pc[i] = "lock" /\ lock[mine[i]] = 0
           /\ IF Drop = "inside" /\ mine[i] \in closed
              THEN pc' = [pc EXCEPT ![i] = "get"] /\ UNCHANGED lock
              ELSE lock' = [lock EXCEPT ![mine[i]] = i] /\ pc' = [pc EXCEPT ![i] = "send"]
           /\ UNCHANGED <<pool, nconn, closed, req, resp, mine, got>>
Send(i) == /\ pc[i] = "send" /\ mine[i] \notin closed
           /\ req' = [req EXCEPT ![mine[i]] = Append(@, i)] /\ pc' = [pc EXCEPT ![i] = "wait"]
           /\ UNCHANGED <<pool, nconn, closed, lock, resp, mine, got>>
Answer(c) == /\ req[c] # <<>> /\ c \notin closed
             /\ resp' = [resp EXCEPT ![c] = Append(@, Head(req[c]))] /\ req' = [req EXCEPT ![c] = Tail(@)]
             /\ UNCHANGED <<pool, nconn, closed, lock, pc, mine, got>>
Recv(i) == /\ pc[i] = "wait" /\ resp[mine[i]] # <<>>
           /\ got' = [got EXCEPT ![i] = Head(resp[mine[i]])] /\ resp' = [resp EXCEPT ![mine[i]] = Tail(@)]
           /\ lock' = [lock EXCEPT ![mine[i]] = 0] /\ pc' = [pc EXCEPT ![i] = "done"]
           /\ UNCHANGED <<pool, nconn, closed, req, mine>>
GiveUp(i) == /\ pc[i] \in {"send", "wait"}
             /\ lock' = [lock EXCEPT ![mine[i]] = 0]
             /\ IF Drop = "inside"
                THEN /\ closed' = closed \cup {mine[i]} /\ pool' = IF pool = mine[i] THEN 0 ELSE pool
                     /\ pc' = [pc EXCEPT ![i] = "failed"]
                ELSE pc' = [pc EXCEPT ![i] = "drop"] /\ UNCHANGED <<closed, pool>>
             /\ UNCHANGED <<nconn, req, resp, mine, got>>
DropLater(i) == /\ pc[i] = "drop" /\ pc' = [pc EXCEPT ![i] = "failed"]
                /\ pool # 0 => lock[pool] = 0
                /\ closed' = IF pool = 0 THEN closed ELSE closed \cup {pool}
                /\ pool' = 0 /\ UNCHANGED <<nconn, lock, req, resp, mine, got>>
Next == (\E i \in Callers : Get(i) \/ Lock(i) \/ Send(i) \/ Recv(i) \/ GiveUp(i) \/ DropLater(i)) \/ (\E c \in Conns : Answer(c))
Spec == Init /\ [][Next]_vars
OwnAnswer == \A i \in Callers : got[i] \in {0, i}
NeverOnClosed == \A i \in Callers : pc[i] = "send" => mine[i] \notin closed
\* nobody holds a lock at the end, so nobody waits for ever
Released == \A c \in Conns : lock[c] # 0 => pc[lock[c]] \in {"send", "wait"}
=============================================================================
