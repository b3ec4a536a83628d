------------------------------ MODULE MsgTrace -------------------------------
EXTENDS Msg, TraceKit
VARIABLES facts, slots
Init == TKInit /\ facts = {} /\ slots = [i \in {} |-> 0]
Put(i, x) == slots' = [j \in DOMAIN slots \cup {i} |-> IF j = i THEN x ELSE slots[j]]
\* what the event shows of the slot it names
Seen(x) == E.o.c = x.c /\ E.o.sig = x.sig /\ (x.sig >= 0 => E.o.kv = x.kv)
Here == slots[E.slot]
Keep == UNCHANGED <<facts, slots>> /\ Seen(Here)
DoNew == /\ E.op = "new" /\ UNCHANGED facts
         /\ LET x == [c |-> [t |-> E.t, b |-> E.b, v |-> E.v, s |-> E.s], sig |-> NoSig, kv |-> 0] IN Put(E.slot, x) /\ Seen(x)
DoSign == /\ E.op = "sign"
          /\ LET x == [c |-> Here.c, sig |-> E.o.sig, kv |-> E.kv] IN
             /\ x.sig >= 0 /\ Fresh(facts, x.sig, E.key, x.c) /\ Put(E.slot, x) /\ Seen(x)
             /\ facts' = facts \cup {[sig |-> x.sig, key |-> E.key, c |-> x.c]}
DoCopy == E.op = "copy" /\ UNCHANGED facts /\ LET x == slots[E.from0] IN Put(E.slot, x) /\ Seen(x)
DoSet == E.op = "set" /\ UNCHANGED facts /\ LET x == [Here EXCEPT !.c = [@ EXCEPT ![E.f] = E.val]] IN Put(E.slot, x) /\ Seen(x)
DoFrom == /\ E.op = "sigfrom" /\ UNCHANGED facts
          /\ LET x == [Here EXCEPT !.sig = slots[E.from].sig, !.kv = slots[E.from].kv] IN Put(E.slot, x) /\ Seen(x)
DoJunk == /\ E.op = "junk" /\ UNCHANGED facts
          /\ LET x == [Here EXCEPT !.sig = IF E.how = "empty" THEN NoSig ELSE IF E.how = "ver" THEN @ ELSE Junk, !.kv = 7] IN Put(E.slot, x) /\ Seen(x)
DoVerify == E.op = "verify" /\ Keep /\ E.ok = Genuine(facts, Here.sig, E.key, Here.c)
DoPVerify == E.op = "pverify" /\ Keep /\ \A i \in 1 .. Len(E.keys) : E.oks[i] = Genuine(facts, Here.sig, E.keys[i], Here.c)
\* damaged bytes are refused, or read as some message; which one is seen
DoMangle == /\ E.op = "mangle" /\ UNCHANGED facts /\ (E.how = "trunc" => ~E.ok)
            /\ IF E.ok THEN Put(E.slot, [c |-> E.o.c, sig |-> E.o.sig, kv |-> E.o.kv]) ELSE slots' = slots /\ Seen(Here)
Next == Advance /\ (DoNew \/ DoSign \/ DoCopy \/ DoSet \/ DoFrom \/ DoJunk \/ DoVerify \/ DoPVerify \/ DoMangle)
Spec == Init /\ [][Next]_<<facts, slots, tid, pos>>
=============================================================================
