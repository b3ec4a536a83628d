"""C30: random values, keys and identifiers are fresh, whoever draws them at once."""
import vf

MC = "SPECIFICATION Spec\nCONSTANTS Threads = {1, 2}\nReads = %d\nDrop = \"%s\"\nINVARIANT Once\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.model_check("rand/RandMC.tla", MC % (3 if ctx.quick else 4, ""))
    for d in ("lock", "moves", "seed"):
        rc, out = ctx.tlc("rand/RandMC.tla", MC % (2, d), workers="4")
        if "is violated" not in out:
            raise vf.CheckError("the design model does not miss '%s'\n%s" % (d, vf.trim(out)))
    rng, sc = ctx.rng, []
    for i, (num, depth) in enumerate([(60, 8), (60, 24), (40, 50)]):
        for ops in ctx.generate("rand/RandGen.tla", "SPECIFICATION Spec\nCONSTANTS Depth = %d\nINVARIANT Emit\n" % depth, num=num if ctx.quick else num * 15, depth=depth + 2, seed=ctx.seed * 100 + i):
            if rng.random() < .4:
                t = rng.choice(["bytes", "bytes", "id", "key"])
                ops = list(ops)
                ops.insert(rng.randrange(len(ops) + 1), {"op": "storm", "t": t, "g": rng.choice([0, 0, 1, 2]), "th": rng.choice([2, 4, 8, 16]), "each": 30 if t == "key" else 400,
                                                         "n": 32 if t != "bytes" else rng.choice([16, 32, 48, 64, 256]), "kick": rng.random() < .4, "more": rng.random() < .4})
            sc.append({"id": "r%d" % len(sc), "hdr": {}, "ops": ops})
    # once as it is, once watched for races
    drv, watched = ctx.build("common", "rand"), ctx.build("common", "rand", race=True)
    half = len(sc) // 2
    for b, part in ((drv, sc[:half]), (watched, sc[half:])):
        def drive(ss):
            return ctx.drive(b, ss, procs=8, env={"GORACE": "halt_on_error=1"})
        ctx.judge(b, part, drive(part), "rand/RandTrace.tla", lambda e: "random values came as the specification does not allow: %s" % e, tries=3, drive=drive, copies=3)
