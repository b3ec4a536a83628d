"""C19-C21: the provider program in a made-up network."""
import vf

ROUGH = ["badsig", "nosig", "altered", "badack", "otherack", "noack", "stale", "inv", "refuse", "cut"]


def header(rng, mix, big=0):
    ncid = rng.choice([2, 3, 4, 6])
    ngw = rng.choice([1, 2, 3, 3, 4, 18]) if mix == "pub" else rng.choice([1, 2, 3])
    ns, ng = (rng.choice([4, 7, 10]), 3) if not big else (big, 1)
    pos = rng.sample(range(0, 200), ngw + ncid)
    behs = ["ok"] * 12 + ROUGH + (["silent"] if rng.random() < .1 else [])
    gws = [{"pos": pos[i], "beh": rng.choice(behs)} for i in range(ngw)]
    silent = [g for g in gws if g["beh"] == "silent"]
    for g in silent[1:]:
        g["beh"] = "ok"
    items = []
    for i in range(ns + ng):
        n = 1 if i < ns else rng.randint(1, min(3, ncid))
        items.append({"cids": rng.sample(range(ncid), n), "exp": rng.choice(["far"] * 6 + ["past", "huge"] + (["soon"] if mix == "pub" else [])), "in": rng.choice([2, 3])})
    return {"vary": rng.choice(["price", "qos", "exp"]), "at": rng.randrange(4), "seed": rng.randrange(1 << 30), "tcp": "1500ms" if silent else "20s", "gws": gws, "cids": pos[ngw:], "items": items, "single": ns, "group": ng,
            "unreg": [g for g in range(ngw) if rng.random() < .08]}


def finish(rng, h, mix, ops):
    """Fills in what depends on the world: registered keys, initialisation."""
    reg = {g: (-1 if g in h["unreg"] else g) for g in range(len(h["gws"]))}

    def init():
        return {"op": "init", "v": rng.choice([1, 2]), "k": rng.choice([0, 0, 1, 2]), "ver": rng.choice([1, 1, 0, 9, 70000]), "bad": ""}
    res = [] if mix == "init" else [init()]
    for o in ops:
        if o.get("by") == -9:
            o["by"] = reg[o["g"]] if reg.get(o["g"], -1) >= 0 else max(o["g"], 0)
        if o["op"] == "rekey":
            reg[o["g"]] = o["k"]
        res.append(o)
        if o["op"] == "restart" and mix != "init":
            res.append(init())
    if mix == "pub" and rng.random() < .15:
        res.insert(rng.randrange(3, len(res)), {"op": "wait", "ms": 2100})
    return res


def bunch(rng, ops, often):
    """Some successive requests are sent at once; publications that meet are of different offers."""
    res, i = [], 0
    fam = ("pub", "got", "ack", "list", "note", "adm")
    while i < len(ops):
        if ops[i]["op"] not in fam or rng.random() > often:
            res.append(ops[i])
            i += 1
            continue
        got, used, most = [], set(), rng.choice([2, 3, 4, 6, 8])
        while i < len(ops) and len(got) < most and ops[i]["op"] in fam:
            o = ops[i]
            if o["op"] == "pub":
                if used & set(o["os"]):
                    break
                used |= set(o["os"])
            got.append(o)
            i += 1
        # what is published is asked for meanwhile
        for o in list(got):
            if o["op"] in ("ack", "list", "got") and rng.random() < .5:
                got.append(dict(o))
        rng.shuffle(got)
        th = [[] for _ in range(rng.choice([2, 3, 4, 6]))]
        for o in got:
            th[rng.randrange(len(th))].append(o)
        th = [t for t in th if t]
        if len(th) > 1:
            res.append({"op": "par", "th": th})
        else:
            res += got
    return res


def storm(rng, i):
    """Publications, listings and questions by many at once."""
    n = 48
    h = header(rng, "ack", n)
    for g in h["gws"]:
        g["beh"] = rng.choice(["ok", "ok", "stale"])
    h["unreg"], h["tcp"] = [], "20s"
    nc, ng = len(h["cids"]), len(h["gws"])
    ops, left = [{"op": "init", "v": 1, "k": 0, "ver": 1, "bad": ""}], list(range(1, n + 2))
    for o in left:
        if h["items"][o - 1]["exp"] == "soon":
            h["items"][o - 1]["exp"] = "far"

    def ask():
        g = rng.randrange(ng)
        a, b = rng.choice([(0, 255), (0, 255), (100, 99), (rng.randrange(200), rng.randrange(200))])
        return rng.choice([{"op": "ack", "c": rng.randrange(nc), "g": g}, {"op": "ack", "c": rng.randrange(nc), "g": g}, {"op": "got", "gs": [g]}, {"op": "got", "gs": []},
                           {"op": "list", "g": g, "by": g, "tamper": "", "a": a, "b": b, "plan": rng.choice(["all", "first", "last", "none"])},
                           {"op": "note", "g": g, "by": g, "tamper": "", "on": rng.random() < .5}])
    for _ in range(3):
        pubs = []
        for _ in range(4):
            some, left = left[:rng.choice([1, 1, 2, 3, 5])], left[5:]
            pubs.append([{"op": "pub", "k": "dht", "os": some, "odd": ""}] if some and some[-1] <= n else [])
            if rng.random() < .5 and pubs[-1] and all(o["op"] == "pub" for o in pubs[-1]):
                pubs[-1].append({"op": "ack", "c": h["items"][some[0] - 1]["cids"][0], "g": rng.randrange(ng)})
        th = [t for t in pubs if t] + [[ask() for _ in range(6)] for _ in range(4)]
        rng.shuffle(th)
        ops += [{"op": "par", "th": th}] + [{"op": "got", "gs": []}] + [{"op": "ack", "c": c, "g": g} for c in range(nc) for g in range(ng)]
    # questions only, very many
    ops.append({"op": "par", "th": [[{"op": "ack", "c": rng.randrange(nc), "g": rng.randrange(ng)} if rng.random() < .9 else {"op": "got", "gs": [rng.randrange(ng)]}
                                     for _ in range(120)] for _ in range(8)]})
    return {"id": "storm%d" % i, "hdr": h, "ops": ops}


def big(rng, i):
    """A store too large for one message, or for one listing."""
    n = [60, 130, 520, 100][i % 4]
    h = header(rng, "ack", n)
    h["gws"] = h["gws"][:2]
    for g in h["gws"]:
        g["beh"] = "ok"
    h["unreg"], h["tcp"] = [], "20s"
    ops, left = [{"op": "init", "v": 1, "k": 0, "ver": 1, "bad": ""}], list(range(1, n + 1))
    while left:
        k = rng.choice([1, 30, 50, 51, 300])
        ops.append({"op": "pub", "k": "dht", "os": left[:k], "odd": ""})
        left = left[k:]
    for _ in range(8):
        g = rng.randrange(len(h["gws"]))
        a, b = rng.choice([(0, 255), (0, 255), (100, 99), (rng.randrange(200), rng.randrange(200))])
        ops.append({"op": "list", "g": g, "by": g, "tamper": "", "a": a, "b": b,
                    "plan": rng.choice(["all", "first", "last", "rev", "badlast", "badfirst", "foreign", "trash", "extra"])})
        ops.append({"op": "ack", "c": rng.randrange(len(h["cids"])), "g": g})
        ops.append({"op": "got", "gs": [g]})
    return {"id": "big%d" % i, "hdr": h, "ops": ops}


def scripts(ctx, mix, num, depth):
    rng, res = ctx.rng, []
    for i in range(6):
        h = header(rng, mix)
        cfg = ("SPECIFICATION Spec\nCONSTANTS NSingle = %d\nNGroup = %d\nNCid = %d\nNGw = %d\nDepth = %d\nMix = \"%s\"\nINVARIANT Emit\n"
               % (h["single"], h["group"], len(h["cids"]), len(h["gws"]), depth, mix))
        for ops in ctx.generate("provider/ProviderGen.tla", cfg, num=num // 6, depth=depth + 2, seed=ctx.seed * 100 + i):
            h2 = header(rng, mix)
            while any(len(h2[f]) != len(h[f]) for f in ("cids", "gws")) or h2["single"] != h["single"]:
                h2 = header(rng, mix)
            ops = finish(rng, h2, mix, ops)
            if mix != "init" and len(res) % 2:
                ops = bunch(rng, ops, .3)
            res.append({"id": "%s%d" % (mix, len(res)), "hdr": h2, "ops": ops})
    return res


PLAN = {"C20": [("pub", 240, 2400, 24)], "C21": [("ack", 240, 2400, 30)], "C19": [("init", 300, 3000, 16)]}
BIG = {"C20": (2, 16), "C21": (3, 24)}


def provider(ctx):
    drv = ctx.build("provider", "node")
    pv = ctx.build_cmd("provider", "./cmd/provider", "provider")
    sc = []
    for mix, q, t, depth in PLAN[ctx.prop]:
        sc += scripts(ctx, mix, q if ctx.quick else t, depth)
    for i in range(BIG.get(ctx.prop, (0, 0))[0 if ctx.quick else 1]):
        sc.append(big(ctx.rng, i))

    def drive(ss):
        # few storms at a time: they need the machine for themselves
        few = [s for s in ss if s["id"].startswith("storm")]
        some = [s for s in ss if not s["id"].startswith("storm")]
        return (ctx.drive(drv, some, env={"VERIF_PROVIDER": pv}, procs=16) if some else []) + (ctx.drive(drv, few, env={"VERIF_PROVIDER": pv}, procs=2) if few else [])
    if ctx.prop != "C19":
        sc += [storm(ctx.rng, i) for i in range(8 if ctx.quick else 80)]
    ctx.judge(drv, sc, drive(sc), "provider/ProviderTrace.tla", lambda e: "the provider did what the specification does not allow: %s" % e, tries=6, drive=drive, copies=6)


def groups(ctx):
    try:
        drv = ctx.build("provider", "groups")
    except vf.CheckError as e:
        # the list is read from the provider's core; if it is kept another way now, this half is left out
        ctx.log("the provider's list cannot be read: %s" % str(e)[-300:])
        ctx.cov["provider_list"] = "not read: its driver does not build"
        return
    rng, sc, num = ctx.rng, [], 160 if ctx.quick else 3000
    for i, n in enumerate([1, 2, 4, 8]):
        cfg = "SPECIFICATION Spec\nCONSTANTS NGw = %d\nDepth = 16\nINVARIANT Emit\n" % n
        for ops in ctx.generate("provider/GroupGen.tla", cfg, num=num // 4, depth=18, seed=ctx.seed * 100 + 50 + i):
            unreg = [g for g in range(n) if rng.random() < .1]
            reg = {g: -1 if g in unreg else g for g in range(n)}
            for o in ops:
                if o["op"] == "rekey":
                    reg[o["g"]] = o["k"]
                for m in o.get("ns", []):
                    if m["by"] == -9:
                        m["by"] = reg[m["g"]] if reg[m["g"]] >= 0 else m["g"]
            sc.append({"id": "grp%d" % len(sc), "hdr": {"seed": rng.randrange(1 << 30), "n": n, "unreg": unreg}, "ops": ops})

    def drive(ss):
        return ctx.drive(drv, ss)
    ctx.judge(drv, sc, drive(sc), "provider/GroupTrace.tla", lambda e: "the provider's list of gateways does not follow their notices: %s" % e, tries=6, drive=drive, copies=6)


MC = ("SPECIFICATION Spec\nCONSTANTS Drop = \"%s\"\nSteps = %d\nINVARIANTS Allowed OnlyAcknowledged AllAcknowledged ShownIsTrue Shown\n"
      "CHECK_DEADLOCK FALSE\n")
DROPS = {"C20": ["init", "near", "ack"], "C21": ["ack", "inner", "others", "outer", "asker"]}


def run(ctx):
    ctx.model_check("provider/ProviderMC.tla", MC % ("", 4 if ctx.quick else 5))
    for d in DROPS[ctx.prop]:
        rc, out = ctx.tlc("provider/ProviderMC.tla", MC % (d, 3), workers="4")
        if "is violated" not in out:
            raise vf.CheckError("the design model does not miss the guard '%s'" % d)
    provider(ctx)
