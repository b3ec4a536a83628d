"""C29: what the administration libraries report done, the node confirmed."""
import vf

MC = "SPECIFICATION Spec\nCONSTANTS Nodes = {1, 2%s}\nSteps = %d\nDrop = \"%s\"\nINVARIANTS Confirmed TakenOn Looked\nCHECK_DEADLOCK FALSE\n"


def header(rng, n):
    return {"seed": rng.randrange(1 << 30), "nodes": n, "ver": rng.randrange(6), "alike": rng.random() < .6, "low": rng.random() < .3}


def run(ctx):
    ctx.model_check("admin/AdminMC.tla", MC % ("" if ctx.quick else ", 3", 5 if ctx.quick else 6, ""))
    for d in ("verify", "kind", "yes", "known", "early"):
        rc, out = ctx.tlc("admin/AdminMC.tla", MC % ("", 3, d), workers="4")
        if "is violated" not in out:
            raise vf.CheckError("the design model does not miss the guard '%s'\n%s" % (d, vf.trim(out)))
    for k, side in enumerate(("gateway", "provider")):
        # calls at once are watched by the race detector: a race is an order no specification explains
        drv = ctx.build(side + "-admin", "lib", race=True)
        sc = []
        for i, (n, num, depth) in enumerate([(1, 40, 14), (2, 60, 20), (4, 100, 30)]):
            cfg = "SPECIFICATION Spec\nCONSTANTS NNodes = %d\nSide = \"%s\"\nDepth = %d\nINVARIANT Emit\n" % (n, side, depth)
            for ops in ctx.generate("admin/AdminGen.tla", cfg, num=num if ctx.quick else num * 15, depth=depth + 2, seed=ctx.seed * 100 + k * 10 + i):
                sc.append({"id": "%s%d" % (side[0], len(sc)), "hdr": header(ctx.rng, n), "ops": ops})

        def drive(ss):
            return ctx.drive(drv, ss, procs=8, env={"GORACE": "halt_on_error=1"})
        ctx.judge(drv, sc, drive(sc), "admin/AdminTrace.tla",
                  lambda e: "the %s administration library did what the specification does not allow: %s" % (side, e), tries=2, drive=drive)
    ctx.cov["faults"] = "answers unsigned, altered, retyped, of another kind, under another key, refusing, cut, lost, with an error status"
