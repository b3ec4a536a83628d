"""C15: the gateway's client reputations."""
import vf

MC = """SPECIFICATION Spec
CONSTANTS
Hi = 3
Initial = 1
Cost = 1
Atomic = %s
N = %d
Up = 2
Down = 3
INVARIANTS InBounds ExactlyTheEvents
CHECK_DEADLOCK FALSE
"""
REAL = "Hi = 10000\nInitial = 10\nCost = 1\n"
AMOUNT = [1000, 10, 1, 1, -100, 10, 1, 1, -300, 1, -10]


def conc(ctx):
    rng, res = ctx.rng, []
    for i in range(1500 if ctx.quick else 10000):
        nt = rng.choice([2, 2, 3, 4])
        clients = rng.choice([1, 1, 2])

        def op():
            c = rng.randrange(1, clients + 1)
            k = rng.choice(["est", "est", "ev", "get", "exists"]) if i % 2 else rng.choice(["est", "est", "est", "get"])
            return {"op": k, "c": c, "e": rng.randrange(1, 12)}
        before, threads = [], [[op() for _ in range(rng.choice([1, 2, 3]))] for _ in range(nt)]
        if i % 2:
            for c in range(1, clients + 1):
                before.append({"op": "est", "c": c})
                if rng.random() < .5:
                    before.append({"op": "set", "c": c, "v": rng.choice([9990, 9500, -9990, -9800, 0])})
        after = [{"op": "get", "c": c} for c in range(1, clients + 1)]
        res.append({"id": "c%d" % i, "hdr": {"clients": clients, "seed": rng.randrange(1 << 30), "threads": threads, "after": after}, "ops": before})
    for i in range(60 if ctx.quick else 400):
        bulk = []
        for c in (1, 2):
            for _ in range(2):
                # at most about 4000 in each direction, two bulks per client
                n = [rng.randrange(0, max(1, 400 // abs(a))) if rng.random() < .7 else 0 for a in AMOUNT]
                bulk.append({"c": c, "est": rng.randrange(1, 300), "n": n, "g": rng.choice([2, 4, 8, 16])})
        res.append({"id": "b%d" % i, "hdr": {"clients": 2, "seed": rng.randrange(1 << 30), "bulk": bulk}, "ops": []})
    return res


def run(ctx):
    ctx.model_check("rep/RepMC.tla", MC % ("TRUE", 2 if ctx.quick else 3))
    rc, out = ctx.tlc("rep/RepMC.tla", MC % ("FALSE", 2), workers="4")
    if "Invariant ExactlyTheEvents is violated" not in out:
        raise vf.CheckError("the design model does not see the reset reputation")
    binary = ctx.build("gateway", "reput")
    seqs = []
    for i, (clients, depth) in enumerate([(1, 40), (2, 80), (4, 80)] + ([] if ctx.quick else [(3, 400)])):
        cfg = "SPECIFICATION Spec\nCONSTANTS Clients = %d\nKinds = 11\nDepth = %d\nINVARIANT Emit\n" % (clients, depth)
        for ops in ctx.generate("rep/RepGen.tla", cfg, num=60 if ctx.quick else 500, depth=depth + 2, seed=ctx.seed * 100 + i):
            seqs.append({"id": "s%d" % len(seqs), "hdr": {"clients": clients, "seed": ctx.rng.randrange(1 << 30)}, "ops": ops})
    sc = seqs + conc(ctx)

    def drive(ss):
        return ctx.drive(binary, ss, procs=4)
    ctx.assumptions += ["events other than an establishment challenge for a client that never established may panic (a programming error, recovered by the driver); they must not establish it",
                        "values an administrator sets may lie outside the bounds until the next event"]
    ctx.judge(binary, sc, drive(sc), "rep/RepTrace.tla", lambda e: "reputation not explained: %s" % e, consts=REAL, tries=5, drive=drive, copies=100)
