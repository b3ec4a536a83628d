"""C22, C23, C28: the client library among scripted gateways and providers."""
import vf


def header(rng, mix):
    ng, np, ncid = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3]), rng.choice([2, 3, 4])
    kind = lambda p: "ok" if rng.random() < p else rng.choice(["bad", "unreg"])
    offers = []
    for p in range(np):
        for c in range(ncid):
            offers.append({"prov": p, "by": p, "cids": [c]})
        for _ in range(3):
            n = rng.randint(2, ncid)
            offers.append({"prov": p, "by": p, "cids": rng.sample(range(ncid), n)})
    for _ in range(4):
        offers.append({"prov": rng.randrange(np), "by": rng.randrange(np + 2), "cids": rng.sample(range(ncid), rng.randint(1, 2))})
    rng.shuffle(offers)
    return {"vary": rng.choice(["price", "qos", "exp"]), "at": rng.randrange(4), "seed": rng.randrange(1 << 30), "np": np, "ncid": ncid, "offers": offers,
            "greg": [kind(.7 if mix == "sets" else .92) for _ in range(ng)], "preg": [kind(.85) for _ in range(np)],
            "region": [rng.choice(["AU", "AU", "US"]) for _ in range(ng)],
            "unit": rng.choice(["1", "1000000000000000", "7"]), "sp": rng.choice([1, 1, 2, 5, 0]), "price": rng.choice([1, 2, 3, 7]), "top": rng.choice([3, 10, 50, 1000])}


def finish(rng, h, mix, ops):
    """Chooses the offers, to fit the CIDs; brings the gateways into use."""
    def fit(c, p=.85):
        l = [i + 1 for i, o in enumerate(h["offers"]) if c in o["cids"] or rng.random() > p]
        return rng.choice(l or [1])

    def single(c, p):
        l = [i + 1 for i, o in enumerate(h["offers"]) if len(o["cids"]) == 1 and (o["cids"][0] == c or rng.random() < .15)]
        return rng.choice(l)

    def items(q, c, ds=None):
        for x in q.get("items", []):
            x["o"] = rng.choice(ds) if ds and rng.random() < .8 else fit(c)

    def digests(q, c):
        q["ds"] = [fit(c) if d == 0 else -1 for d in q["ds"]]
        return [d for d in q["ds"] if d > 0]

    for o in ops:
        if o["op"] == "std":
            items(o["std"][0], o["c"])
        if o["op"] == "dht":
            for s in o["dht"][0]["subs"]:
                items(s, o["c"])
        if o["op"] == "std2":
            bought = []
            for q in o["std2"]:
                bought += digests(q, o["c"])
            items(o["stdoffer"][0], o["c"], bought)
        if o["op"] == "dht2":
            bought = {}
            for q in o["dht2"]:
                for s in q["subs"]:
                    bought.setdefault(s["g"], []).extend(digests(s, o["c"]))
            for s in o["dhtoffer"][0]["subs"]:
                items(s, o["c"], bought.get(s["g"]))
        if o["op"] == "ack":
            o["msg"]["os"] = [single(o["c"], o["p"]) for _ in o["msg"]["os"]]
    if mix == "sets":
        return ops
    every = list(range(len(h["greg"])))
    return [{"op": "use", "gs": every}, {"op": "act", "gs": every, "est": {}}] + ops


def scripts(ctx, mix, num, depth):
    rng, res = ctx.rng, []
    for i in range(6):
        h = header(rng, mix)
        shape = lambda x: (len(x["greg"]), x["np"], x["ncid"])
        cfg = "SPECIFICATION Spec\nCONSTANTS NG = %d\nNP = %d\nNCid = %d\nDepth = %d\nMix = \"%s\"\nINVARIANT Emit\n" % (shape(h) + (depth, mix))
        for ops in ctx.generate("client/ClientGen.tla", cfg, num=num // 6, depth=depth + 2, seed=ctx.seed * 100 + i):
            h2 = header(rng, mix)
            while shape(h2) != shape(h):
                h2 = header(rng, mix)
            res.append({"id": "%s%d" % (mix, len(res)), "hdr": h2, "ops": finish(rng, h2, mix, ops)})
    return res


PLAN = {"C22": [("free", 360, 4000, 20), ("paid", 240, 3000, 16)], "C23": [("sets", 480, 6000, 24)], "C28": [("paid", 480, 5000, 16)]}
MC = "SPECIFICATION Spec\nCONSTANTS Drop = \"%s\"\nSteps = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
INV = "InUse ProvedOnly GenuineOnly AskedOnly PaidExactly WithinMax"
DROPS = {"C22": ["envelope", "signer", "proof", "cid", "attested"], "C23": ["listed", "inuse", "proves", "forget", "again", "active"], "C28": ["price", "aligned", "room"]}


def run(ctx):
    ctx.model_check("client/ClientMC.tla", MC % ("", 5 if ctx.quick else 6, INV))
    for d in DROPS[ctx.prop]:
        rc, out = ctx.tlc("client/ClientMC.tla", MC % (d, 5, INV), workers="4")
        if "is violated" not in out:
            raise vf.CheckError("the design model does not miss the guard '%s'" % d)
    drv = ctx.build("client", "lib")
    sc = []
    for mix, q, t, depth in PLAN[ctx.prop]:
        sc += scripts(ctx, mix, q if ctx.quick else t, depth)

    def drive(ss):
        return ctx.drive(drv, ss, procs=16)
    ctx.judge(drv, sc, drive(sc), "client/ClientTrace.tla", lambda e: "the client did what the specification does not allow: %s" % e, tries=4, drive=drive, copies=6)
