"""C12: message dispatch of the P2P and REST servers."""
import vf

MC = "SPECIFICATION Spec\nCONSTANTS Resume = \"%s\"\nGreedy = %s\nFrames = %d\nINVARIANT Faithful\nPROPERTY Complete\nCHECK_DEADLOCK FALSE\n"


def servers(ctx):
    binary = ctx.build("common", "dispatch")
    sc = []
    shapes = [(1, 2, 2, 30, 2), (3, 3, 2, 40, 2), (6, 2, 1, 60, 1), (2, 3, 3, 30, 6), (8, 1, 2, 60, 3)]
    for i, (th, np, nr, depth, rough) in enumerate(shapes):
        cfg = "SPECIFICATION Spec\nCONSTANTS Threads = %d\nP2Ps = %d\nRests = %d\nTypes = 4\nDepth = %d\nRough = %d\nINVARIANT Emit\n" % (th, np, nr, depth, rough)
        for ops in ctx.generate("dispatch/DispatchGen.tla", cfg, num=30 if ctx.quick else 400, depth=depth + 2, seed=ctx.seed * 100 + i):
            table = []
            for l in range(1, np + nr + 1):
                for t in range(1, 5):
                    if ctx.rng.random() < .55:
                        beh = ctx.rng.choice(["reply", "reply", "reply", "silent", "err"] if l <= np else ["reply", "reply", "reply", "panic"])
                        table.append({"l": l, "t": t, "beh": beh})
            sc.append({"id": "s%d" % len(sc), "hdr": {"p2ps": np, "rests": nr, "table": table, "types": ctx.rng.choice([0, 0, 1, 2, 3]), "seed": ctx.rng.randrange(1 << 30)}, "ops": ops})

    def drive(ss):
        return ctx.drive(binary, ss, procs=16, timeout=800)
    ctx.judge(binary, sc, drive(sc), "dispatch/DispatchTrace.tla", lambda e: "dispatch not explained: %s" % e, tries=2, drive=drive)


def run(ctx):
    ctx.model_check("dispatch/Dispatch.tla", MC % ("drop", "FALSE", 3 if ctx.quick else 5))
    for r, g in (("afresh", "FALSE"), ("drop", "TRUE")):
        rc, out = ctx.tlc("dispatch/Dispatch.tla", MC % (r, g, 2), workers="4")
        if "is violated" not in out and "were violated" not in out:
            raise vf.CheckError("the design model does not see %s" % ("smuggling" if r == "afresh" else "lost messages"))
    servers(ctx)
