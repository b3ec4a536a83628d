"""C24: the register service is a faithful map of registrations."""
import os
import vf

MC = "SPECIFICATION Spec\nCONSTANTS Drop = \"%s\"\nThreads = %d\nEach = %d\nINVARIANT Faithful\nCHECK_DEADLOCK FALSE\n"
ODD = ["plain", "with space", "a/b", "x?y=1", "100%", "%41", "Ünï✓", "#frag", "a&b;c", "\"q\"", "semi:colon", "UPPER", "upper", "dot.", "tab\there", "g", "gateway"]


def design(ctx):
    ctx.model_check("regsvc/RegisterMC.tla", MC % ("", 2, 2))
    for drop, th, each in (("bulk", 2, 2), ("mix", 1, 2), ("first", 1, 3), ("quiet", 1, 2), ("absent", 1, 2), ("cache", 1, 4)):
        rc, out = ctx.tlc("regsvc/RegisterMC.tla", MC % (drop, th, each), workers="4")
        if "Invariant Faithful is violated" not in out:
            raise vf.CheckError("the design model does not see '%s'\n%s" % (drop, vf.trim(out)))


def kin(rng, x):
    """Other texts that are easily taken for this one."""
    y = {x.upper(), x.lower(), x.swapcase(), x.capitalize(), x + " ", " " + x, x + "/", x[:-1] or "x", x + "0", "0" + x, "0x" + x, x.replace(" ", "+"), x.replace("%", "%25"),
         x[::-1], x[:32] + "z", x + ":gateway", "*", x[:3] + "*", "?" + x[1:]} - {x, ""}
    return rng.sample(sorted(y), min(len(y), 4))


def header(rng):
    n = rng.choice([2, 3, 3, 5])
    ids = ["%064x" % rng.getrandbits(256) for _ in range(n)]
    if rng.random() < .5:
        # any text names a node
        for i, x in zip(range(1, n), rng.sample(ODD, n - 1)):
            ids[i] = x
    if rng.random() < .5:
        # ids alike
        for i, x in zip(range(1, n), kin(rng, ids[0])):
            ids[i] = x
    assert len(set(ids)) == n
    return {"ids": ids, "seed": rng.randrange(1 << 30), "password": rng.choice(["", "", "secret pass"]), "conns": 150}


def scripts(ctx):
    rng, sc = ctx.rng, []
    for i, (n, faults, depth, num) in enumerate([(2, "TRUE", 30, 60), (2, "FALSE", 40, 40), (5, "TRUE", 50, 40), (5, "FALSE", 25, 20)]):
        cfg = "SPECIFICATION Spec\nCONSTANTS NIds = %d\nFaults = %s\nDepth = %d\nINVARIANT Emit\n" % (n, faults, depth)
        for ops in ctx.generate("regsvc/RegisterGen.tla", cfg, num=num if ctx.quick else num * 12, depth=depth + 2, seed=ctx.seed * 100 + i):
            h = header(rng)
            while len(h["ids"]) < n:
                h["ids"].append("%064x" % rng.getrandbits(256))
            both = []
            for o in ops:
                both.append(o)
                # what is there now is looked at
                if o["op"] in ("crash", "par") or o["op"] == "req" and (o["f"] or o["m"] == "del"):
                    both += [{"op": "req", "m": "list", "k": k, "f": ""} for k in "gp"]
            if rng.random() < .25:
                both.insert(rng.randrange(len(both)), {"op": "many", "k": rng.choice("gp"), "n": 170})
            sc.append({"id": "s%d" % len(sc), "hdr": h, "ops": both})
    # many registrations
    for i in range(4 if ctx.quick else 30):
        h = header(rng)
        n = rng.choice([40, 130, 300]) if i > 1 else rng.randint(1050, 1400)
        h["ids"] = ["%064x" % rng.getrandbits(256) for _ in range(n)]
        ops = []
        for j in rng.sample(range(n), n):
            k = rng.choice("ggp") if n < 1000 else "gp"[i]
            ops.append({"op": "req", "m": "post", "k": k, "i": j, "v": 1, "f": ""})
        for j in rng.sample(range(n), 10):
            ops += [{"op": "req", "m": "get", "k": k, "i": j, "f": ""} for k in "gp"]
        tail = [{"op": "req", "m": "list", "k": k, "f": ""} for k in "gp"]
        ops += tail + [{"op": "restart"}] + tail + [{"op": "req", "m": "del", "k": rng.choice("gp"), "f": ""}] + tail
        sc.append({"id": "s%d" % len(sc), "hdr": h, "ops": ops})
    return sc


def run(ctx):
    design(ctx)
    binary = ctx.build("common", "regsvc")
    env = {"VERIF_REGISTER": ctx.build_cmd("register", "./cmd/register-server", "register-server")}

    def drive(ss):
        return ctx.drive(binary, ss, env=env, procs=16, timeout=800)
    sc = scripts(ctx)
    ctx.judge(binary, sc, drive(sc), "regsvc/RegisterTrace.tla",
              lambda e: "the register service did what the specification does not allow: %s" % e, tries=2, drive=drive)
    ctx.cov["faults"] = "store down, erring, cut or losing answers; service killed with a command in flight"
