"""C04, C05: the provider's in-memory offer store and the gateway's database-backed one."""
import vf


def universe(rng, kind, noff, ncid, ticks, big=False):
    vals = set()
    while len(vals) < ncid:
        r = rng.random()
        if r < .1:
            vals.add(rng.choice([0, 1, 255, 1 << 255, (1 << 256) - 1, (1 << 256) - 2, 10, 15, 16, 17]))
        elif r < .4 and vals:
            vals.add((rng.choice(sorted(vals)) + rng.randrange(1, 3)) % (1 << 256))
        else:
            vals.add(rng.getrandbits(256))
    cids = ["%064x" % v for v in sorted(vals)]
    offers = []
    exps = ["far"] * 3 + ["huge", "past"] + ["in"] * (4 if ticks else 0) + (["zero", "neg"] if rng.random() < .3 else [])
    for i in range(noff):
        if offers and rng.random() < .2:
            # like an earlier offer but for one field
            o = dict(rng.choice(offers))
            f = rng.choice(["sig", "price", "qos", "prov", "exp", "cids", "order"])
            if f == "sig":
                o["sig"] = "%x" % rng.getrandbits(64)
            elif f in ("price", "qos"):
                o[f] = str(rng.randrange(1 << 20))
            elif f == "prov":
                o["prov"] = o["prov"] + 1
            elif f == "exp":
                o["exp"], o["in"] = rng.choice(exps), rng.choice([2, 3])
            elif f == "order":
                o["cids"] = list(reversed(o["cids"]))
            else:
                o["cids"] = rng.sample(range(ncid), min(ncid, len(o["cids"])))
            if o in offers:
                continue
        else:
            n = rng.choice([1, 1, 1, 2, 2, 3, min(5, ncid), ncid if rng.random() < .3 else 2])
            cs = rng.sample(range(ncid), min(n, ncid))
            if rng.random() < .06:
                cs = cs + [cs[0]]
            o = {"prov": rng.randrange(1, 4), "cids": cs, "exp": rng.choice(exps), "in": rng.choice([2, 3]),
                 "price": str(rng.choice([0, 1, 5, 41, (1 << 32) + 7, (1 << 62) + 11, (1 << 63) - 1, 1 << 63, (1 << 64) - 1])),
                 "qos": str(rng.choice([0, 1, 42, (1 << 53) + 1, (1 << 63) - 1, (1 << 63) + 9, (1 << 64) - 2])),
                 "sig": rng.choice(["", "00000001", "%x" % rng.getrandbits(256), "quote'\"; drop table offer"])}
        offers.append(o)
    while len(offers) < noff:
        o = dict(rng.choice(offers))
        o["sig"] = "%x" % rng.getrandbits(64)
        offers.append(o)
    return {"store": kind, "cids": cids, "offers": offers,
            "tz": rng.choice(["UTC0", "JST-9", "EST5", "AAA12", "BBB-14", "CCC-5:30"])}


# instants visited by the ticks (ms after the base second): around the expiries at 2 s and 3 s
TICKS = [[1700, 2120, 3120], [2250], [1850, 3300], [3200], [2100, 2900]]


def distinct(rng, h):
    """No two offers alike in every field (an instant is irrelevant unless the expiry is relative)."""
    seen = set()
    for o in h["offers"]:
        while True:
            k = (o["prov"], tuple(o["cids"]), o["exp"], o["in"] if o["exp"] == "in" else 0, o["price"], o["qos"], o["sig"])
            if k not in seen:
                break
            o["sig"] = "%x" % rng.getrandbits(64)
        seen.add(k)


def scripts(ctx, kind):
    rng, q = ctx.rng, ctx.quick
    res = []
    num = {("mem", True): 40, ("mem", False): 400, ("sql", True): 16, ("sql", False): 130}[(kind, q)]
    shapes = [(8, 4, 40, 0), (8, 5, 50, 3), (16, 8, 90, 3)] + ([] if q else [(30, 12, 250, 2), (14, 3, 120, 3)])
    for si, (noff, ncid, depth, ticks) in enumerate(shapes):
        restarts = 2 if kind == "sql" else 0
        cfg = ("SPECIFICATION Spec\nCONSTANTS NOff = %d\nNCid = %d\nDepth = %d\nTicks = %d\nRestarts = %d\nINVARIANT Emit\n"
               % (noff, ncid, depth, ticks, restarts))
        for ops in ctx.generate("offers/OffersGen.tla", cfg, num=num, depth=depth + 2, seed=ctx.seed * 100 + si):
            h = universe(rng, kind, noff, ncid, ticks)
            tk = rng.choice([t for t in TICKS if len(t) >= ticks] or TICKS) if ticks else []
            for o in ops:
                if o["op"] == "tick":
                    o["to"] = tk[min(o["i"], len(tk)) - 1] if tk else 0
                if o["op"] == "crashadd":
                    o["us"] = rng.choice([0, 50, 100, 200, 400, 700, 1000, 1500, 2500])
            # read everything back at the end
            for c in range(ncid):
                ops.append({"op": "get", "c": c, "k": "a"})
            if kind == "mem":
                ops += [{"op": "range", "a": a, "b": b, "n": n} for a, b, n in
                        [(0, ncid - 1, 1000), (1, 0, 1000), (ncid - 1, 0, 1000), (2, 2, 1000)]]
            else:
                ops += [{"op": "range", "a": 0, "b": ncid - 1, "n": 1000}, {"op": "range", "a": 2, "b": 2, "n": 1000}]
                ops = [dict(o, k="a") if o["op"] == "get" else o for o in ops if o["op"] != "range" or o["a"] <= o["b"]]
            ops += [{"op": "dig", "o": i + 1} for i in range(noff)]
            res.append({"id": "s%d" % len(res), "hdr": h, "ops": ops})
    # many crash points inside the storing of one large offer
    if kind == "sql":
        for i in range(24 if q else 300):
            h = universe(rng, kind, 3, 16, 0)
            for o in h["offers"]:
                o.update(exp="far", cids=rng.sample(range(16), 16))
                o["price"] = str(rng.getrandbits(40))
            ops = [{"op": "add", "o": 1}, {"op": "crashadd", "o": 2, "us": rng.randrange(0, 6000)}]
            ops += [{"op": "get", "c": c, "k": "a"} for c in (0, 5, 15)] + [{"op": "dig", "o": 2}]
            ops += [{"op": "add", "o": 2}, {"op": "crashadd", "o": 3, "us": rng.randrange(0, 3000)}]
            ops += [{"op": "get", "c": c, "k": "a"} for c in (0, 7, 15)] + [{"op": "dig", "o": 3}, {"op": "range", "a": 0, "b": 15, "n": 9}]
            res.append({"id": "crash%d" % i, "hdr": h, "ops": ops})
    # long use: the same lookups again and again
    for i in range(2 if q else 6):
        h = universe(rng, kind, 6, 4, 0)
        for o in h["offers"][:3]:
            o["exp"] = "far"
        ops = [{"op": "add", "o": k} for k in range(1, 7)]
        ops += [{"op": "dig", "o": 1, "rep": 150}, {"op": "range", "a": 0, "b": 3, "n": 1, "rep": 150},
                {"op": "get", "c": h["offers"][0]["cids"][0], "k": "a", "rep": 150},
                {"op": "get", "c": 1, "k": "a"}, {"op": "add", "o": 2}, {"op": "dig", "o": 2}]
        res.append({"id": "long%d" % i, "hdr": h, "ops": ops})
    # many offers on few CIDs
    for i in range(2 if q else 10):
        n = 60 if q else 200
        h = universe(rng, kind, n, 5, 0)
        ops = [{"op": "add", "o": k} for k in range(1, n + 1)]
        rng.shuffle(ops)
        for _ in range(40):
            a, b = sorted((rng.randrange(5), rng.randrange(5)))
            ops.append(rng.choice([{"op": "get", "c": a, "k": "a"}, {"op": "dig", "o": rng.randrange(1, n + 1)},
                                   {"op": "range", "a": a, "b": b, "n": rng.choice([1, 2, 10, 33, 500])}]))
        res.append({"id": "many%d" % i, "hdr": h, "ops": ops})
    for x in res:
        distinct(rng, x["hdr"])
    return res


def run(ctx):
    kind = "mem" if ctx.prop == "C04" else "sql"
    binary = ctx.build("common", "offers")
    ctx.model_check("offers/OffersMC.tla", "SPECIFICATION Spec\nCONSTANTS NCid = 3\nTMax = %d\nINVARIANTS AnswerOK Whole OneEach\n" % 3)
    sc = scripts(ctx, kind)
    traces = ctx.drive(binary, sc, timeout=600)
    ctx.judge(binary, sc, traces, "offers/OffersTrace.tla", lambda e: "offer store answer not explained: %s" % e)
