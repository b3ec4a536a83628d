"""C14: offers, sub-offers and Merkle proofs."""
import vf

MC = ("SPECIFICATION Spec\nCONSTANTS Sep = %s\nCounted = %s\nNCid = %d\nMaxLen = %d\nMaxPath = 2\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n")


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    binary = ctx.build("common", "offerchk")

    def drive(ss):
        return ctx.drive(binary, ss, timeout=700, procs=8)
    n = 3
    ctx.model_check("offer/OfferMC.tla", MC % ("TRUE", "TRUE", 2 if q else 3, n, "NoForeign\nINVARIANT SameList"))
    for sep, cnt, inv in (("FALSE", "TRUE", "NoForeign"), ("TRUE", "FALSE", "SameList")):
        rc, out = ctx.tlc("offer/OfferMC.tla", MC % (sep, cnt, 2, n, inv), workers="4")
        if "Invariant %s is violated" % inv not in out:
            raise vf.CheckError("the design model does not see the forgery against %s" % inv)
    known = {f["key"]: f for f in vf.known_findings("C14")}
    consts = "KnownNode = %s\nKnownList = %s\n" % tuple(str(k in known).upper() for k in ("tree-node-as-cid", "other-list-same-root"))
    sc = []
    for i in range(1 if q else 6):
        cfg = "SPECIFICATION Spec\nCONSTANTS Depth = 90\nNCid = 12\nINVARIANT Emit\n"
        for ops in ctx.generate("offer/OfferGen.tla", cfg, num=320 if q else 1500, depth=92, seed=ctx.seed * 100 + i):
            sc.append({"id": "o%d" % len(sc), "hdr": {"seed": rng.getrandbits(40)}, "ops": ops})
    c = lambda *l: [["c", i] for i in l]
    first = {"op": "offer", "slot": 0, "p": 0, "price": 1, "exp": 3, "qos": 2}
    sc.append({"id": "node", "hdr": {"seed": 1}, "ops": [
        dict(first, cids=c(3, 4, 5, 6)), {"op": "sign", "slot": 0, "key": 1}, {"op": "sub", "slot": 0, "to": 0, "cid": ["c", 3]},
        {"op": "scopy", "slot0": 0, "slot": 1, "f": "lift", "val": 0, "term": ["c", 0], "from": 0}, {"op": "pverify", "slot": 1}]})
    sc.append({"id": "list", "hdr": {"seed": 1}, "ops": [
        dict(first, cids=c(3)), {"op": "sign", "slot": 0, "key": 1},
        {"op": "ocopy", "slot0": 0, "slot": 1, "f": "cids", "val": 0, "cids": c(3, 3), "from": 0}, {"op": "overify", "slot": 1, "key": 1}]})
    tr = drive(sc)
    for t in tr:
        # which of the listed findings show on this tree
        signed = {}
        for e in t["ev"]:
            if e["op"] == "pverify" and e["ok"] and e["s"]["cid"][0] == "n" and "tree-node-as-cid" in known:
                ctx.known(known["tree-node-as-cid"])
            if e["op"] == "sign":
                signed.setdefault(e["o"]["sig"], e["o"]["cids"])
            if e["op"] == "overify" and e["ok"] and signed.get(e["o"]["sig"]) != e["o"]["cids"] and "other-list-same-root" in known:
                ctx.known(known["other-list-same-root"])
    ctx.judge(binary, sc, tr, "offer/OfferTrace.tla", lambda e: "offer behaviour not explained: %s" % e, drive=drive, consts=consts)
