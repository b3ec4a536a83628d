"""C16-C19, C25, C27: the gateway program in a made-up network."""
import vf
from areas import provider


def ring_positions(rng, n):
    return rng.sample(range(0, 200), n)


def header(rng, mix):
    np = rng.choice([1, 2, 2, 3])
    ncid = rng.choice([1, 2, 3])
    noff = {"pub": 10, "disc": 6, "paid": 5, "init": 3, "relay": 1, "grp": 1}[mix]
    npeer = {"relay": rng.choice([2, 3, 5, 5, 18]), "init": 3}.get(mix, 2)
    pos = ring_positions(rng, npeer + ncid + 1)
    behs = ["ok"] * 6 + ["badsig", "nosig", "altered", "refuse", "cut"] + (["silent"] if rng.random() < .15 else [])
    peers = [{"pos": pos[i], "beh": "ok" if mix != "relay" else rng.choice(behs)} for i in range(npeer)]
    if sum(p["beh"] == "silent" for p in peers) > 1:
        for p in peers:
            p["beh"] = "ok" if p["beh"] == "silent" else p["beh"]
    offers, seen = [], set()
    while len(offers) < noff:
        prov = rng.randrange(np)
        o = {"prov": prov, "by": prov, "cids": rng.sample(range(ncid), min(ncid, rng.choice([1, 1, 1, 1, 2, 3]))),
             "exp": rng.choice(["far"] * 6 + ["past", "huge"] + (["soon"] if mix in ("pub", "disc") else [])), "in": rng.choice([2, 3]), "bad": "", "like": 0}
        if mix == "pub":
            r = rng.random()
            if r < .12 and offers:
                j = rng.randrange(len(offers))
                if not offers[j]["like"] and offers[j]["bad"] == "":
                    o = dict(offers[j], like=j + 1, by=rng.randrange(np + 2), bad=rng.choice(["", "", "sig", "nosig"]))
            elif r < .22:
                o["by"] = rng.randrange(np + 2)
            elif r < .34:
                o["bad"] = rng.choice(["sig", "price", "cids", "exp", "nosig"])
            k = (o["like"] or len(offers) + 1, o["by"], o["bad"])
            if k in seen:
                continue
            seen.add(k)
        offers.append(o)
    sp, op = rng.choice([(1, 2), (3, 3), (2, 7), (5, 1)])
    big = mix != "paid" or rng.random() < .7
    return {"vary": rng.choice(["price", "qos", "exp"]), "at": rng.randrange(4), "seed": rng.randrange(1 << 30), "unit": rng.choice(["1", "1000000000000000", "1000000000000000000000"]), "tcp": "1200ms" if any(p["beh"] == "silent" for p in peers) else "20s",
            "sp": sp, "op": op, "top": rng.choice([20, 50, 60]), "np": np,
            "unreg": [p for p in range(np) if rng.random() < .1] if mix in ("pub", "grp") else [],
            "cids": pos[npeer:npeer + ncid], "gpos": pos[-1], "peers": peers,
            "bal": [100000, 100000, 100000, 50] if big else [rng.choice([3, 10, 40]) for _ in range(4)], "offers": offers}


def finish(rng, h, mix, ops):
    """Fills in what depends on the world: registered keys, amounts owed, initialisation."""
    reg = {p: (-1 if p in h["unreg"] else p) for p in range(h["np"])}

    def by(m):
        if m["by"] == -9:
            m["by"] = reg[m["p"]] if reg[m["p"]] >= 0 else m["p"]
    def init():
        v = 2 if mix in ("paid", "relay", "disc") else rng.choice([1, 2])
        return {"op": "init", "v": v, "k": rng.choice([0, 0, 1, 2]), "ver": rng.choice([1, 1, 0, 9, 70000]), "bad": ""}
    res = [] if mix == "init" else [init()]
    for o in ops:
        k = o["op"]
        if k == "pub":
            by(o)
        elif k == "pull":
            for f in o["from"]:
                by(f)
                for m in f["msgs"]:
                    by(m)
        elif k == "rekey":
            reg[o["p"]] = o["k"]
        elif k in ("paid", "relay"):
            v = o["v"]
            if not v.pop("abs"):
                if k == "paid":
                    owed = h["sp"] if o["via"] in ("std2", "peer2") else h["op"] * len(o["ds"])
                else:
                    owed = h["sp"] * o["n"] if o["via"] == "dht2" else h["op"] * sum(o["dss"])
                v["d"] = max(owed, 1) + v["d"]
        res.append(o)
        if k == "restart" and mix != "init":
            res.append(init())
    if mix == "pub" and rng.random() < .2:
        res.insert(rng.randrange(3, len(res)), {"op": "wait", "ms": 2100})
    return res


def bunch(rng, ops, often):
    """Some successive requests are sent at once.  Publications and payments do not meet: a paid request takes its
    payment before it looks at the offers, and is no single step."""
    res, i = [], 0
    while i < len(ops):
        fam = [f for f in ({"pub", "disc", "est"}, {"paid", "disc", "est"}) if ops[i]["op"] in f]
        if not fam or rng.random() > often:
            res.append(ops[i])
            i += 1
            continue
        fam = rng.choice(fam)
        k = i
        while k < len(ops) and k - i < rng.choice([2, 3, 4, 5]) and ops[k]["op"] in fam:
            k += 1
        got = ops[i:k]
        i = k
        for o in list(got):
            if o["op"] == "pub":
                o["os"] = o["os"][:1]
            if o["op"] == "paid" and rng.random() < .4:
                # the same voucher is shown twice
                got.append(dict(o, v=dict(o["v"], kind="replay", tamper="")))
        got = got[:6]
        rng.shuffle(got)
        th = [[] for _ in range(rng.choice([2, 3, 4, 6]))]
        for o in got:
            th[rng.randrange(len(th))].append(o)
        th = [t for t in th if t]
        res.append({"op": "par", "th": th} if len(th) > 1 else got[0])
        if len(th) == 1:
            res += got[1:]
    return res


def rush(rng, ops, h):
    """Many discoveries at once, free and paid, every paying client on a channel of its own."""
    nc, np = len(h["cids"]), len(h["peers"])
    def free():
        return {"op": "disc", "via": rng.choice(["std", "std", "peer"]), "c": rng.randrange(nc), "ttl": "ok", "g": rng.randrange(np), "by": "", "tamper": ""}
    def paid(ch):
        via = rng.choice(["std2", "stdoffer", "stdoffer", "peer2", "peeroffer"])
        ds = [] if via in ("std2", "peer2") else rng.sample(range(1, len(h["offers"]) + 1), rng.choice([1, 1, 2]))
        owed = h["sp"] if not ds else h["op"] * len(ds)
        v = {"ch": ch, "l": rng.choice([0, 1]), "d": owed + rng.choice([0, 0, 0, 1, -1]), "kind": rng.choice(["fresh"] * 5 + ["replay"]), "tamper": ""}
        return {"op": "paid", "via": via, "c": rng.randrange(nc), "ds": ds, "ttl": "ok", "v": v, "g": rng.randrange(np), "by": "", "tamper": ""}
    for i in sorted(rng.sample(range(len(ops) // 2, len(ops) + 1), 2), reverse=True):
        n = rng.choice([4, 8, 20])
        ops.insert(i, {"op": "rush", "th": [[free() for _ in range(n)] for _ in range(rng.choice([2, 4, 6]))]
                       + [[paid(ch) for _ in range(n)] for ch in range(3)]})
    return ops


def scripts(ctx, mix, num, depth):
    rng, res = ctx.rng, []
    hs = [header(rng, mix) for _ in range(6)]
    for i, h in enumerate(hs):
        cfg = ("SPECIFICATION Spec\nCONSTANTS NOff = %d\nNProv = %d\nNCid = %d\nNPeer = %d\nDepth = %d\nMix = \"%s\"\nINVARIANT Emit\n"
               % (len(h["offers"]), h["np"], len(h["cids"]), len(h["peers"]), depth, mix))
        for ops in ctx.generate("gateway/GatewayGen.tla", cfg, num=num // 6, depth=depth + 2, seed=ctx.seed * 100 + i):
            # the same shape with other offers and prices
            h2 = header(rng, mix)
            while any(len(h2[f]) != len(h[f]) for f in ("cids", "peers")) or h2["np"] != h["np"]:
                h2 = header(rng, mix)
            ops = finish(rng, h2, mix, ops)
            if mix in ("pub", "disc", "paid"):
                if len(res) % 2:
                    ops = bunch(rng, ops, .3)
                elif len(res) % 4 == 0 and mix != "pub" and all(o["op"] != "restart" for o in ops):
                    ops = rush(rng, ops, h2)
            res.append({"id": "%s%d" % (mix, len(res)), "hdr": h2, "ops": ops})
    return res


def turnover(rng, i):
    """Offers of a few CIDs expire and others take their place, with requests before, meanwhile and after."""
    h = header(rng, "disc")
    nc = len(h["cids"])
    h["unreg"] = []
    h["offers"] = [{"prov": rng.randrange(h["np"]), "cids": rng.sample(range(nc), min(nc, rng.choice([1, 1, 2]))), "exp": e, "in": 2, "bad": "", "like": 0}
                   for e in ["soon"] * 3 + ["far"] * 3]
    for o in h["offers"]:
        o["by"] = o["prov"]

    def pubs(os):
        for o in os:
            yield {"op": "pub", "k": "dht" if len(h["offers"][o - 1]["cids"]) == 1 else "grp", "p": h["offers"][o - 1]["prov"], "os": [o],
                   "by": h["offers"][o - 1]["prov"], "tamper": ""}

    def ask():
        for c in range(nc):
            for via in ("std", "peer"):
                yield {"op": "disc", "via": via, "c": c, "ttl": "ok", "g": 0, "by": "", "tamper": ""}
            d = len(h["offers"])
            yield {"op": "paid", "via": rng.choice(["stdoffer", "peeroffer"]), "c": c, "ds": rng.sample(range(1, d + 1), rng.randint(1, d)), "ttl": "ok",
                   "v": {"ch": 0, "l": 0, "d": 60, "kind": "new", "tamper": ""}, "g": 0, "by": "", "tamper": ""}
    first, later = [1, 2, 3], [4, 5, 6]
    rng.shuffle(first)
    rng.shuffle(later)
    ops = [{"op": "init", "v": 2, "k": rng.choice([0, 1]), "ver": 1, "bad": ""}] + list(pubs(first)) + list(ask())
    early = rng.randrange(2)
    ops += list(pubs(later[:early])) + [{"op": "wait", "ms": 3400}] + (list(ask()) if rng.random() < .5 else []) + list(pubs(later[early:])) + list(ask())
    return {"id": "turn%d" % i, "hdr": h, "ops": ops}


def storm(rng, i):
    """Very many requests at once for CIDs with offers of their own, so that answers that meet are seen."""
    h = header(rng, "disc")
    nc, np = len(h["cids"]), len(h["peers"])
    h["unreg"] = []
    h["offers"] = [{"prov": p, "by": p, "cids": [j % nc], "exp": "far", "in": 2, "bad": "", "like": 0} for j in range(9) for p in [rng.randrange(h["np"])]]
    ops = [{"op": "init", "v": 2, "k": rng.choice([0, 1]), "ver": 1, "bad": ""}]
    for o in rng.sample(range(1, 10), 8):
        ops.append({"op": "pub", "k": "dht", "p": h["offers"][o - 1]["prov"], "os": [o], "by": h["offers"][o - 1]["prov"], "tamper": ""})
    vias = [["std"], ["peer"], ["std", "peer"]][i % 3]

    def free(k):
        return {"op": "disc", "via": vias[k % len(vias)], "c": rng.randrange(nc), "ttl": "ok", "g": rng.randrange(np), "by": "", "tamper": ""}

    def paid(ch):
        via = rng.choice(["stdoffer", "peeroffer", "std2"])
        ds = [] if via == "std2" else [rng.randint(1, 9)]
        return {"op": "paid", "via": via, "c": rng.randrange(nc), "ds": ds, "ttl": "ok", "v": {"ch": ch, "l": 0, "d": h["op"] if ds else h["sp"], "kind": "fresh", "tamper": ""},
                "g": rng.randrange(np), "by": "", "tamper": ""}
    for _ in range(2):
        ops.append({"op": "rush", "th": [[free(k) for _ in range(60)] for k in range(8)] + [[paid(ch) for _ in range(12)] for ch in range(3)]})
    return {"id": "storm%d" % i, "hdr": h, "ops": ops}


PLAN = {"C16": [("pub", 240, 2400, 26)], "C17": [("disc", 240, 2400, 28)], "C18": [("paid", 240, 2400, 34)],
        "C19": [("init", 300, 3000, 16)], "C27": [("relay", 210, 2100, 12)], "C25": [("grp", 90, 600, 10)]}


MC = "SPECIFICATION Spec\nCONSTANTS Drop = \"%s\"\nSteps = %d\nPart = \"%s\"\nINVARIANTS Allowed OnlyGenuine\nCHECK_DEADLOCK FALSE\n"
DESIGN = {"C16": ("pub", ["name", "sig", "kind", "msg", "init", "all", "store"]), "C18": ("paid", ["replay", "amount", "price"]),
          "C19": ("pub", ["init"]), "C27": ("relay", ["topup"])}


def design(ctx):
    if ctx.prop not in DESIGN:
        return
    part, drops = DESIGN[ctx.prop]
    steps = {"pub": (3, 4), "paid": (4, 6), "relay": (6, 8)}[part]
    ctx.model_check("gateway/GatewayMC.tla", MC % ("", steps[0 if ctx.quick else 1], part))
    for d in drops:
        rc, out = ctx.tlc("gateway/GatewayMC.tla", MC % (d, 4, part), workers="4")
        if "is violated" not in out:
            raise vf.CheckError("the design model does not miss the guard '%s'" % d)


def gateway(ctx):
    drv = ctx.build("gateway", "node")
    gw = ctx.build_cmd("gateway", "./cmd/gateway", "gateway")
    sc = []
    for mix, q, t, depth in PLAN[ctx.prop]:
        sc += scripts(ctx, mix, q if ctx.quick else t, depth)
    if ctx.prop == "C17":
        sc += [turnover(ctx.rng, i) for i in range(16 if ctx.quick else 160)]

    def drive(ss):
        # few storms at a time: they need the machine for themselves
        few = [s for s in ss if s["id"].startswith("storm")]
        some = [s for s in ss if not s["id"].startswith("storm")]
        return (ctx.drive(drv, some, env={"VERIF_GATEWAY": gw}, procs=16) if some else []) + (ctx.drive(drv, few, env={"VERIF_GATEWAY": gw}, procs=2) if few else [])
    if ctx.prop == "C17":
        sc += [storm(ctx.rng, i) for i in range(9 if ctx.quick else 60)]
    ctx.judge(drv, sc, drive(sc), "gateway/GatewayTrace.tla", lambda e: "the gateway did what the specification does not allow: %s" % e, tries=4, drive=drive, copies=6)


def run(ctx):
    design(ctx)
    gateway(ctx)
    if ctx.prop == "C19":
        provider.provider(ctx)
    if ctx.prop == "C25":
        provider.groups(ctx)
