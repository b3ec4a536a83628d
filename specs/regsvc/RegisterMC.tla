----------------------------- MODULE RegisterMC -----------------------------
(* Design model: clients' requests against the hashes of the store, where a  *)
(* step is one command of the store; the store may fail a command (executed  *)
(* or not) and the service may be killed between two of them.  Every history *)
(* of answers must be one of the maps'.  Drop leaves a safeguard out:        *)
(*   bulk    deletion is one removal for each entry that was listed before   *)
(*   mix     both kinds share one hash                                       *)
(*   first   a second registration under an identifier is not stored         *)
(*   quiet   a registration the store refuses is answered as done            *)
(*   absent  a lookup the store cannot serve is answered as not registered   *)
(*   cache   lookups are answered from what the service saw last             *)
EXTENDS Register, TLC
CONSTANTS Drop, Threads, Each
VARIABLES store, left, busy, done, memo, faults
vars == <<store, left, busy, done, memo, faults>>
Kinds == {"g", "p"}
Ids == {1}
Blank == [f |-> "", st |-> "", ans |-> <<>>]
Requests == [m : {"post"}, k : Kinds, i : Ids, d : {1, 2}] \cup [m : {"post"}, k : {"g"}, i : {2}, d : {3}]
            \cup [m : {"get"}, k : Kinds, i : Ids, d : {0}] \cup [m : {"list", "del"}, k : {"g"}, i : {0}, d : {0}]
Hash(k) == IF Drop = "mix" THEN "g" ELSE k
None == [m |-> "", todo |-> {}]
T == 1 .. Threads
Init == /\ store = {} /\ left = [t \in T |-> Each] /\ busy = [t \in T |-> None] /\ done = [t \in T |-> <<>>] /\ faults = 1 /\ memo = {}
\* the answer of a request executed on the store
Answer(q) ==
  CASE q.m = "post" -> [q EXCEPT !.st = "ok", !.ans = <<q.d>>]
    [] q.m = "del" -> [q EXCEPT !.st = "ok"]
    [] q.m = "get" -> LET from == IF Drop = "cache" /\ At(memo, Hash(q.k), q.i) # {} THEN memo ELSE store IN
                      IF At(from, Hash(q.k), q.i) = {} THEN [q EXCEPT !.st = "absent"]
                      ELSE [q EXCEPT !.st = "ok", !.ans = << (CHOOSE x \in At(from, Hash(q.k), q.i) : TRUE).d >>]
    [] q.m = "list" -> LET s == Of(store, Hash(q.k)) IN [q EXCEPT !.st = "ok", !.ans = LET RECURSIVE Seq_(_) Seq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x.d>> \o Seq_(S \ {x}) IN Seq_(s)]
Stored(q) == IF q.m = "post" /\ Drop = "first" /\ At(store, Hash(q.k), q.i) # {} THEN store ELSE After(store, [q EXCEPT !.k = Hash(q.k)])
Begin(t) == \E r \in Requests :
  /\ left[t] > 0 /\ busy[t] = None /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ LET q == [m |-> r.m, k |-> r.k, i |-> r.i, d |-> r.d, f |-> "", st |-> "", ans |-> <<>>] IN
     \/ /\ q.m = "del" /\ Drop = "bulk"
        /\ busy' = [busy EXCEPT ![t] = [m |-> "del", todo |-> Of(store, q.k)]] /\ UNCHANGED <<store, done, memo, faults>>
     \/ /\ ~(q.m = "del" /\ Drop = "bulk") /\ UNCHANGED <<busy, faults>>
        /\ store' = Stored(q) /\ done' = [done EXCEPT ![t] = Append(@, Answer(q))]
        /\ memo' = IF q.m = "get" THEN (memo \ At(memo, Hash(q.k), q.i)) \cup At(store, Hash(q.k), q.i) ELSE memo
     \* the store fails: executed or not, the service cannot tell
     \/ /\ faults > 0 /\ faults' = faults - 1 /\ ~(q.m = "del" /\ Drop = "bulk") /\ UNCHANGED <<busy, memo>>
        /\ store' \in {store, Stored(q)}
        /\ LET e == [q EXCEPT !.f = "fault", !.st = IF q.m = "post" /\ Drop = "quiet" THEN "ok" ELSE IF q.m = "get" /\ Drop = "absent" THEN "absent" ELSE "err",
                               !.ans = IF q.m = "post" /\ Drop = "quiet" THEN <<q.d>> ELSE <<>>]
           IN done' = [done EXCEPT ![t] = Append(@, e)]
Step(t) == /\ busy[t] # None
           /\ IF busy[t].todo = {}
              THEN /\ busy' = [busy EXCEPT ![t] = None] /\ UNCHANGED store
                   /\ done' = [done EXCEPT ![t] = Append(@, [m |-> "del", k |-> "g", i |-> 0, d |-> 0, f |-> "", st |-> "ok", ans |-> <<>>])]
              ELSE \E x \in busy[t].todo : /\ store' = store \ At(store, x.k, x.i) /\ busy' = [busy EXCEPT ![t].todo = @ \ {x}] /\ UNCHANGED done
           /\ UNCHANGED <<left, memo, faults>>
Next == \E t \in T : Begin(t) \/ Step(t)
Spec == Init /\ [][Next]_vars
Quiet == \A t \in T : left[t] = 0 /\ busy[t] = None
\* when all is answered, some order of the requests explains every answer and what is stored
Faithful == Quiet => store \in Reach({}, done)
=============================================================================
