"""C10: the register manager's view of the registry."""
import vf

MC = "SPECIFICATION Spec\nCONSTANTS Serial = %s\nNCall = %d\nMaxV = 3\nINVARIANT Refreshed\nCHECK_DEADLOCK FALSE\n"


def header(rng, m):
    bits = m.bit_length() - 1
    return {"m": m, "rot": rng.randrange(56), "shift": 256 - bits, "off": rng.choice(["0", "%x" % rng.getrandbits(256), "%x" % rng.getrandbits(200)]),
            "gd": rng.random() > .08, "pd": rng.random() > .08}


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    binary = ctx.build("common", "regmgr")
    ctx.model_check("regmgr/RegMgrMC.tla", MC % ("TRUE", 3))
    rc, out = ctx.tlc("regmgr/RegMgrMC.tla", MC % ("FALSE", 2), workers="4")
    if "Invariant Refreshed is violated" not in out:
        raise vf.CheckError("the design model does not see the early return")

    def drive(ss):
        return ctx.drive(binary, ss, timeout=700, procs=8)
    sc = []
    for i, (m, depth) in enumerate([(8, 40), (32, 60), (64, 80)] + ([] if q else [(64, 250), (128, 150)])):
        cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nDepth = %d\nINVARIANT Emit\n" % (m, depth)
        for ops in ctx.generate("regmgr/RegMgrGen.tla", cfg, num=40 if q else 300, depth=depth + 2, seed=ctx.seed * 100 + i):
            h = header(rng, m)
            if not h["gd"]:
                ops = [o for o in ops if o["op"] not in ("near", "range")]
            if m > 8 and rng.random() < .5:
                # a network larger than the 16 nearest
                g = [{"id": x, "v": 0} for x in rng.sample(range(m), rng.randrange(14, min(m, 30)))]
                ops.insert(0, {"op": "set", "g": g, "p": [], "gm": "ok", "pm": "ok"})
            sc.append({"id": "s%d" % len(sc), "hdr": h, "ops": ops})
    ctx.judge(binary, sc, drive(sc), "regmgr/RegMgrTrace.tla", lambda e: "register view not explained: %s" % e, drive=drive)

    cc = []
    for i in range(200 if q else 2000):
        m = 16
        h = header(rng, m)
        h.update(conc=True, gd=True, pd=True, us=rng.choice([200, 1000, 3000]), period=rng.choice([0, 0, 300, 2000]))
        rounds, v = [], 1
        known = rng.sample(range(14), rng.randrange(0, 6))
        rounds.append({"sets": [{"g": [{"id": k, "v": v} for k in known], "p": [{"id": 1, "v": v}]}]})
        left = [k for k in range(14) if k not in known]
        for _ in range(4):
            sets, threads = [], []
            for _ in range(rng.randrange(0, 3)):
                v += 1
                g = [{"id": k, "v": v} for k in rng.sample(known, min(len(known), rng.randrange(0, 3)))]
                if left and rng.random() < .8:
                    k = left.pop()
                    known.append(k)
                    g.append({"id": k, "v": v})
                sets.append({"g": g, "p": [{"id": rng.randrange(5), "v": v}] if rng.random() < .5 else [], "us": rng.randrange(0, 1500)})
            for _ in range(rng.choice([2, 3, 4, 6])):
                ops = []
                for _ in range(rng.choice([1, 2, 3])):
                    k = rng.choice(["getg", "getg", "getg", "refresh", "refresh", "getp", "near", "range", "range", "allg"])
                    o = {"op": k, "wait": rng.choice([0, 0, 200, 700, 1500])}
                    if k in ("getg", "range"):
                        o["id"] = rng.choice(known[-2:] or [0]) if rng.random() < .7 else rng.randrange(16)
                    if k == "getp":
                        o["id"] = rng.randrange(5)
                    if k == "near":
                        o.update(c=rng.randrange(16), n=16, x=-1)
                    ops.append(o)
                threads.append(ops)
            # whether a just registered gateway is found straight away
            if sets and rng.random() < .7:
                rounds.append({"sets": sets, "threads": []})
                rounds.append({"sets": [], "threads": threads})
            else:
                rounds.append({"sets": sets, "threads": threads})
        if rng.random() < .3 and left:
            # every remaining gateway is listed while CID ranges and closest gateways are computed
            v += 1
            sets = [{"g": [{"id": k, "v": v} for k in left], "p": [], "us": 0}]
            known += left
            threads = [[{"op": rng.choice(["range", "range", "near"]), "wait": 0, "rep": 600, "id": known[0], "c": 3, "n": 16, "x": -1}] for _ in range(4)]
            rounds.append({"sets": sets, "threads": threads + [[{"op": "refresh", "wait": rng.randrange(300, 900)}] * 2]})
        h["rounds"] = rounds
        cc.append({"id": "c%d" % i, "hdr": h, "ops": []})
    ctx.judge(binary, cc, drive(cc), "regmgr/RegMgrConcTrace.tla", lambda e: "concurrent register view not explained: %s" % e,
              drive=drive, tries=4, copies=10)
