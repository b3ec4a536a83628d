--------------------------------- MODULE Msg ---------------------------------
(* Protocol messages and their signatures.  A content is [t, b, v, s]: type, *)
(* body, protocol version and supported versions, as indices into the value  *)
(* tables of the harness (which grow).  A signature is an atom; a     *)
(* fact [sig, key, c] records that the holder of key signed content c.       *)
EXTENDS Integers, FiniteSets, Sequences
Fields == {"t", "b", "v", "s"}
NoSig == -1
Junk == -2
Genuine(facts, sig, key, c) == [sig |-> sig, key |-> key, c |-> c] \in facts
\* a signature binds its key and its whole content
Fresh(facts, sig, key, c) == \A f \in facts : f.sig = sig => f.key = key /\ f.c = c
=============================================================================
