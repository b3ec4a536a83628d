"""C11: requests through the peer-to-peer server."""
import vf

MC = "SPECIFICATION Spec\nCONSTANTS N = %d\nMaxConn = %d\nDrop = \"%s\"\nINVARIANTS OwnAnswer NeverOnClosed Released\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.model_check("p2p/P2P.tla", MC % (3 if ctx.quick else 4, 3 if ctx.quick else 4, "inside"))
    rc, out = ctx.tlc("p2p/P2P.tla", MC % (2, 2, "after"), workers="4")
    if "is violated" not in out:
        raise vf.CheckError("the design model does not see the stale connection")
    binary = ctx.build("common", "p2p")
    sc = []
    shapes = [(1, 1, 12, 5), (1, 3, 20, 4), (2, 1, 10, 5), (3, 1, 14, 4), (4, 2, 24, 4), (6, 2, 40, 2), (8, 3, 60, 1), (4, 1, 40, 1)]
    for i, (th, peers, depth, rough) in enumerate(shapes):
        cfg = "SPECIFICATION Spec\nCONSTANTS Threads = %d\nPeers = %d\nDepth = %d\nRough = %d\nINVARIANT Emit\n" % (th, peers, depth, rough)
        for ops in ctx.generate("p2p/P2PGen.tla", cfg, num=50 if ctx.quick else 600, depth=depth + 2, seed=ctx.seed * 100 + i):
            if th > 1:
                # a restart in mid-air may hit any call: keep most concurrent scenarios free of it
                if ctx.rng.random() < .8:
                    ops = [o for o in ops if o["beh"] != "restart"]
            sc.append({"id": "s%d" % len(sc), "hdr": {"peers": peers, "provs": ctx.rng.randrange(16), "fromprovider": ctx.rng.random() < .3}, "ops": ops})
    huge = [{"t": 1, "p": 1, "beh": "huge"}, {"t": 1, "p": 1, "beh": "ok"}, {"t": 2, "p": 1, "beh": "bigreq"}]
    sc.append({"id": "s%d" % len(sc), "hdr": {"peers": 1, "provs": 0, "fromprovider": False}, "ops": huge})
    ctx.assumptions += ["peers answer each request at most once and in order (a peer that sends unasked messages is not modelled: answers carry no identification at this level)",
                        "a pooled connection that the peer broke while idle may cost the next request its answer"]

    def drive(ss):
        return ctx.drive(binary, ss, procs=24, timeout=700)
    ctx.judge(binary, sc, drive(sc), "p2p/P2PTrace.tla", lambda e: "exchange not explained: %s" % e, tries=2, drive=drive, copies=8)
