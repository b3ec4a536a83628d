"""C01-C03: the DHT ring (common/pkg/dhtring)."""
import vf

JUDGE = {"C01": "content", "C02": "closest", "C03": "range"}
INF = 1 << 30


def embeddings(rng):
    """Ways to lay model positions on the 256-bit circle, keeping order and distance comparisons."""
    def top(bits):
        return lambda: {"m": 1 << bits, "shift": 256 - bits, "off": "0", "zero": 0}

    def low(shift, wrap):
        def f():
            # a window of positions 0..255 starting at off; with wrap, hex zero falls inside it
            if wrap:
                z = rng.randrange(1, 12)
                off = (1 << 256) - (z << shift)
                return {"m": INF, "shift": shift, "off": "%x" % off, "zero": z}
            off = rng.getrandbits(255) + 1
            return {"m": INF, "shift": shift, "off": "%x" % off, "zero": INF // 2}
        return f
    return top, low


def header(rng, bits):
    top, low = embeddings(rng)
    kinds = [top(bits)] * 4 + [low(0, False), low(0, True), low(60, False), low(62, True), low(120, True),
                               low(rng.randrange(0, 200), False), low(rng.randrange(0, 200), True)]
    h = rng.choice(kinds)()
    h["every"] = rng.random() < 0.4
    h["upper"] = rng.random() < 0.3
    h["seed"] = rng.randrange(1 << 30)
    return h


def sweep(rng, m, subset, judge, full):
    """One content, then every query of one kind (or a random part of them)."""
    ids = list(subset)
    rng.shuffle(ids)
    ops = [{"op": "ins", "k": k} for k in ids]
    # some extra members come and go first, so that the links have been edited
    for k in rng.sample(range(m), min(2, m)):
        if k not in subset:
            ops.insert(rng.randrange(len(ops) + 1), {"op": "ins", "k": k})
            ops.append({"op": "del", "k": k})
    q = []
    if judge == "closest":
        q = [{"op": "closest", "t": t, "n": n, "x": x} for t in range(m) for n in range(0, len(ids) + 3)
             for x in [-1] + list(range(m))]
    else:
        q = [{"op": "range", "a": a, "b": b} for a in range(m) for b in range(m)]
    rng.shuffle(q)
    return ops + (q if full else q[:60])


def scripts(ctx, judge):
    rng, q = ctx.rng, ctx.quick
    res = []

    def add(name, ops, bits):
        res.append({"id": "%s%d" % (name, len(res)), "hdr": header(rng, bits), "ops": ops})
    # all edit sequences up to a length over a small ring, from TLC's breadth-first search
    if judge == "content":
        depth = 4 if q else 6
        n = 4 if q else 3
        cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nDepth = %d\nMode = \"edit\"\nCONSTRAINT Emit\n" % (n, depth)
        for ops in ctx.generate("ring/RingGen.tla", cfg.replace("CONSTRAINT", "INVARIANT"), heap="4g"):
            add("edit", ops, 2 if n == 4 else 2)
    # long mixed behaviours
    for bits, depth, num in ([(3, 40, 60), (4, 60, 60), (7, 80, 40)] if q else [(3, 60, 500), (4, 120, 500), (7, 250, 300)]):
        cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nDepth = %d\nMode = \"mixed\"\nINVARIANT Emit\n" % (1 << bits, depth)
        for ops in ctx.generate("ring/RingGen.tla", cfg, num=num, depth=depth + 2, seed=ctx.seed * 1000 + bits):
            o = []
            for x in ops:
                o.append(x)
                r = rng.random()
                if r < 0.02:
                    o.append({"op": "bad"})
                elif r < 0.04:
                    o.append({"op": "badq"})
            add("mix", o, bits)
    # every content of a small ring, with every query of the judged kind
    if judge != "content":
        for bits in (2, 3):
            m = 1 << bits
            for s in range(1 << m):
                sub = [k for k in range(m) if s >> k & 1]
                add("sweep", sweep(rng, m, sub, judge, not q or bits == 2), bits)
        # rings around the size the network uses (16 nearest)
        for i in range(20 if q else 150):
            size = rng.choice([14, 15, 16, 17, 18, 30, 40])
            sub = rng.sample(range(128), size)
            ops = [{"op": "ins", "k": k} for k in sub]
            for _ in range(25):
                if judge == "closest":
                    ops.append({"op": "closest", "t": rng.choice(sub) if rng.random() < .4 else rng.randrange(128),
                                "n": rng.choice([1, 2, 4, 15, 16, 16, 17, 20, size, size - 1, size + 1]),
                                "x": rng.choice([-1, -1, rng.choice(sub), rng.randrange(128)])})
                else:
                    ops.append({"op": "range", "a": rng.choice(sub) if rng.random() < .4 else rng.randrange(128),
                                "b": rng.choice(sub) if rng.random() < .4 else rng.randrange(128)})
                if rng.random() < .2:
                    ops.append({"op": "del", "k": rng.choice(sub)})
            add("net", ops, 7)
    return res


def run(ctx):
    judge = JUDGE[ctx.prop]
    binary = ctx.build("common", "ring")
    ctx.model_check("ring/RingMC.tla", "SPECIFICATION Spec\nCONSTANT M = %d\nINVARIANTS TypeOK ClosestOK RangeOK\nPROPERTY Exact\n"
                    % (7 if ctx.quick else 9))
    sc = scripts(ctx, judge)
    traces = ctx.drive(binary, sc)
    consts = "Judge = {\"%s\"}\n" % judge
    rej = ctx.validate("ring/RingTrace.tla", traces, consts)
    if rej:
        # the ring is deterministic: a real violation shows again in a fresh process
        byid = {s["id"]: s for s in sc}
        first = rej[:20]
        again = ctx.drive(binary, [byid[t["id"]] for t, _ in first])
        rej2 = ctx.validate("ring/RingTrace.tla", again, consts, name="reproduction")
        if not rej2:
            raise vf.CheckError("rejected traces did not reproduce")
        for t, p in rej2[:3]:
            ctx.report("ring answer not explained: %s" % vf.at(t, p, 1)["unexplained"], {"trace": t, "pos": p, "at": vf.at(t, p)})
    for t in traces[:1] + traces[-1:]:
        ctx.sample({"id": t["id"], "first_events": t["ev"][:6], "events": len(t["ev"])})
