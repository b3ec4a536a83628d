----------------------------- MODULE OfferTrace ------------------------------
(* Offers: [p, cids, price, exp, qos, sig]; sub-offers: [p, cid, root, path, *)
(* idx, price, exp, qos, sig].  Values are indices into tables of the        *)
(* harness, CIDs and hashes are terms; every event shows the object it       *)
(* names.  Known*: findings listed for this property are in the code.        *)
EXTENDS Merkle, TraceKit
CONSTANTS KnownNode, KnownList
VARIABLES facts, offers, subs, digests
vars == <<facts, offers, subs, digests, tid, pos>>
Empty == [i \in {} |-> 0]
Init == TKInit /\ facts = {} /\ offers = Empty /\ subs = Empty /\ digests = {}
PutIn(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
Signed(o) == [p |-> o.p, root |-> Root(o.cids), price |-> o.price, exp |-> o.exp, qos |-> o.qos]
Terms(s) == [p |-> s.p, root |-> s.root, price |-> s.price, exp |-> s.exp, qos |-> s.qos]
Body(o) == [p |-> o.p, cids |-> o.cids, price |-> o.price, exp |-> o.exp, qos |-> o.qos]
Cids(o) == { o.cids[i] : i \in 1 .. Len(o.cids) }
\* the object shown: content, digest and expiry
SeenO(x) == /\ E.o = x /\ (x.exp < 6 => E.expired = (x.exp < 3))
            /\ digests' = digests \cup {[d |-> E.dig, b |-> Body(x)]}
            /\ \A g \in digests : (g.d = E.dig) = (g.b = Body(x))
SeenS(x) == E.s = x /\ (x.exp < 6 => E.expired = (x.exp < 3)) /\ UNCHANGED digests
Quiet == UNCHANGED <<facts, offers, subs>>
NoOffer == UNCHANGED <<facts, offers, subs, digests>>
NoSig == -1
Junk == -2
DoOffer == /\ E.op = "offer"
           /\ IF E.cids = <<>> THEN ~E.ok /\ NoOffer
              ELSE LET x == [p |-> E.p, cids |-> E.cids, price |-> E.price, exp |-> E.exp, qos |-> E.qos, sig |-> NoSig] IN
                   E.ok /\ offers' = PutIn(offers, E.slot, x) /\ SeenO(x) /\ UNCHANGED <<facts, subs>>
DoSign == /\ E.op = "sign"
          /\ LET x == [offers[E.slot] EXCEPT !.sig = E.o.sig] IN
             /\ x.sig >= 0 /\ \A f \in facts : f.sig = x.sig => f.key = E.key /\ f.t = Signed(x)
             /\ facts' = facts \cup {[sig |-> x.sig, key |-> E.key, t |-> Signed(x), cids |-> x.cids]}
             /\ offers' = PutIn(offers, E.slot, x) /\ SeenO(x) /\ UNCHANGED subs
\* the offer's encoding with some fields replaced, decoded
DoOCopy == /\ E.op = "ocopy"
           /\ LET src == offers[E.slot0]
                  x == [src EXCEPT !.p = IF E.f = "p" THEN E.val ELSE @, !.price = IF E.f = "price" THEN E.val ELSE @,
                                   !.exp = IF E.f = "exp" THEN E.val ELSE @, !.qos = IF E.f = "qos" THEN E.val ELSE @,
                                   !.cids = IF E.f = "cids" THEN E.cids ELSE @,
                                   !.sig = IF E.f = "sig" THEN offers[E.from].sig ELSE IF E.f = "junk" THEN Junk ELSE @] IN
              IF x.cids = <<>> THEN ~E.ok /\ NoOffer
              ELSE E.ok /\ offers' = PutIn(offers, E.slot, x) /\ SeenO(x) /\ UNCHANGED <<facts, subs>>
DoOVerify == /\ E.op = "overify" /\ Quiet /\ SeenO(offers[E.slot])
             /\ LET x == offers[E.slot]
                    Root0 == \E f \in facts : f.sig = x.sig /\ f.key = E.key /\ f.t = Signed(x)
                    Strict == \E f \in facts : f.sig = x.sig /\ f.key = E.key /\ f.t = Signed(x) /\ f.cids = x.cids IN
                (Strict => E.ok) /\ (E.ok => Strict \/ (KnownList /\ Root0))
\* a sub-offer exists exactly for the offer's CIDs, and proves them
DoSub == /\ E.op = "sub"
         /\ LET o == offers[E.slot] IN
            IF E.cid \notin Cids(o) THEN ~E.ok /\ NoOffer
            ELSE /\ E.ok /\ Proves(E.cid, E.s.path, E.s.idx, Root(o.cids))
                 /\ LET x == [p |-> o.p, cid |-> E.cid, root |-> Root(o.cids), path |-> E.s.path, idx |-> E.s.idx,
                              price |-> o.price, exp |-> o.exp, qos |-> o.qos, sig |-> o.sig] IN
                    subs' = PutIn(subs, E.to, x) /\ SeenS(x) /\ UNCHANGED <<facts, offers>>
Take(s, m) == SubSeq(s, 1, IF m > Len(s) THEN Len(s) ELSE m)
DoSCopy == /\ E.op = "scopy"
           /\ LET src == subs[E.slot0]
                  frm == subs[E.from]
                  n == Len(src.path)
                  i == 1 + (E.val % (IF n = 0 THEN 1 ELSE n))
                  x == [src EXCEPT
                    !.p = IF E.f = "p" THEN E.val ELSE @, !.price = IF E.f = "price" THEN E.val ELSE @,
                    !.exp = IF E.f = "exp" THEN E.val ELSE @, !.qos = IF E.f = "qos" THEN E.val ELSE @,
                    !.cid = IF E.f = "cid" THEN E.term ELSE IF E.f = "lift" /\ n > 0 /\ Len(src.idx) > 0 THEN Fold(src.cid, <<src.path[1]>>, <<src.idx[1]>>) ELSE @,
                    !.root = IF E.f = "root" THEN E.term ELSE IF E.f = "rootfrom" THEN frm.root ELSE @,
                    !.sig = IF E.f = "sig" THEN frm.sig ELSE IF E.f = "junk" THEN Junk ELSE @,
                    !.path = IF E.f = "proof" THEN frm.path ELSE IF E.f = "cut" THEN Take(@, n - 1)
                             ELSE IF E.f \in {"lift", "behead"} THEN SubSeq(@, 2, n) ELSE IF E.f = "push" THEN Append(@, E.term)
                             ELSE IF E.f = "elem" /\ n > 0 THEN [@ EXCEPT ![i] = E.term] ELSE IF E.f = "pathonly" THEN Take(@, n - 1)
                             ELSE IF E.f = "noproof" THEN <<>> ELSE @,
                    !.idx = IF E.f = "proof" THEN frm.idx ELSE IF E.f = "cut" THEN Take(@, n - 1)
                            ELSE IF E.f \in {"lift", "behead"} THEN SubSeq(@, 2, Len(@)) ELSE IF E.f = "push" THEN Append(@, E.val % 2)
                            ELSE IF E.f = "flip" /\ n > 0 /\ i <= Len(@) THEN [@ EXCEPT ![i] = 1 - @] ELSE IF E.f = "idxonly" THEN Take(@, Len(@) - 1)
                            ELSE IF E.f = "idxmore" THEN Append(@, E.val % 2)
                            ELSE IF E.f = "noproof" THEN <<>> ELSE @] IN
              E.ok /\ subs' = PutIn(subs, E.slot, x) /\ SeenS(x) /\ UNCHANGED <<facts, offers>>
DoSVerify == /\ E.op = "sverify" /\ Quiet /\ SeenS(subs[E.slot])
             /\ LET x == subs[E.slot] IN E.ok = \E f \in facts : f.sig = x.sig /\ f.key = E.key /\ f.t = Terms(x)
DoPVerify == /\ E.op = "pverify" /\ Quiet /\ SeenS(subs[E.slot])
             /\ LET x == subs[E.slot]
                    Fits == Proves(x.cid, x.path, x.idx, x.root) IN
                (Fits /\ ~IsNode(x.cid) => E.ok) /\ (E.ok => Fits /\ (KnownNode \/ ~IsNode(x.cid)))
\* damaged encodings are refused, or read as some object; which one is seen
DoMangle == /\ E.op \in {"omangle", "smangle"} /\ UNCHANGED facts
            /\ (E.how = "trunc" => ~E.ok)
            /\ IF ~E.ok THEN UNCHANGED <<offers, subs, digests>>
               ELSE IF E.op = "omangle" THEN E.o.cids # <<>> /\ offers' = PutIn(offers, E.slot, E.o) /\ UNCHANGED subs /\ SeenO(E.o)
               ELSE subs' = PutIn(subs, E.slot, E.s) /\ UNCHANGED offers /\ SeenS(E.s)
Next == Advance /\ (DoOffer \/ DoSign \/ DoOCopy \/ DoOVerify \/ DoSub \/ DoSCopy \/ DoSVerify \/ DoPVerify \/ DoMangle)
Spec == Init /\ [][Next]_vars
=============================================================================
