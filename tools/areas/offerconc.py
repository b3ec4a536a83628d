"""C06: concurrent use of both offer stores."""
import vf

MC = "SPECIFICATION Spec\nCONSTANTS NAdd = %d\nNRead = %d\nAtomic = %s\nINVARIANT NothingLost\nCHECK_DEADLOCK FALSE\n"


def template(rng, store, n):
    ncid = rng.choice([2, 3, 4])
    kind = rng.choice(["same", "same", "mixed", "mixed", "groups", "twins", "range", "dead"])
    offers, threads = [], []
    nt = rng.choice([2, 3, 4, 5])
    for i in range(rng.choice([nt, nt, nt + 2])):
        if kind in ("same", "twins"):
            cs = [0]
        elif kind == "groups":
            cs = rng.sample(range(ncid), rng.randrange(2, ncid + 1)) if ncid > 2 else [0, 1]
        else:
            cs = rng.sample(range(ncid), rng.choice([1, 1, 2, ncid]))
        o = {"cids": cs}
        if kind == "dead" and i % 2 == 0:
            o["dead"] = True
        offers.append(o)
    live = [i + 1 for i, o in enumerate(offers) if not o.get("dead")]

    def look():
        r = rng.random()
        if r < (.2 if kind == "range" else .5):
            return {"op": "get", "c": rng.randrange(ncid) if kind not in ("same", "twins") else 0}
        if r < .75 and kind != "range":
            return {"op": "dig", "o": rng.randrange(1, len(offers) + 1)}
        a, b = rng.randrange(ncid), rng.randrange(ncid)
        return {"op": "range", "a": min(a, b), "b": max(a, b)}
    adds = list(live)
    if kind == "twins":
        adds = live + live
    rng.shuffle(adds)
    for i in range(nt):
        ops = [{"op": "add", "o": o} for o in adds[i::nt]]
        while rng.random() < .7 and len(ops) < 4:
            ops.insert(rng.randrange(len(ops) + 1), look())
        threads.append(ops)
    for _ in range(rng.choice([0, 1, 2])):
        threads.append([look() for _ in range(rng.choice([1, 2, 3]))])
    return {"store": store, "ncid": ncid, "offers": offers, "threads": threads, "rounds": n, "salt": rng.randrange(1 << 30)}


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    binary = ctx.build("common", "offerconc")
    ctx.model_check("offers/OfferConc.tla", MC % (3, 2, "TRUE"))
    rc, out = ctx.tlc("offers/OfferConc.tla", MC % (2, 1, "FALSE"), workers="4")
    if "Invariant NothingLost is violated" not in out:
        raise vf.CheckError("the design model does not see the lost update")
    sc = []
    for i in range(36 if q else 200):
        h = template(rng, "mem", 1500 if q else 3000)
        h["ms"] = 900 if q else 3000
        sc.append({"id": "mem%d" % i, "hdr": h, "ops": []})
    for i in range(8 if q else 60):
        h = template(rng, "sql", 40 if q else 120)
        h["ms"] = 1500 if q else 6000
        sc.append({"id": "sql%d" % i, "hdr": h, "ops": []})

    def drive(ss):
        res, total = [], 0
        for t in ctx.drive(binary, ss, timeout=1500):
            if not isinstance(t.get("rounds"), list):
                t.update(off=[], pre=[], store="mem")
                res.append(t)
                continue
            for k, r in enumerate(t["rounds"]):
                total += r["count"]
                r["id"] = t["id"]
                res.append(r)
        ctx.cov["rounds_run"] = ctx.cov.get("rounds_run", 0) + total
        ctx.log("%d rounds, %d distinct histories" % (total, len(res)))
        return res
    traces = drive(sc)
    ctx.judge(binary, sc, traces, "offers/OfferConcTrace.tla", lambda e: "concurrent offer history not explained: %s" % e,
              tries=4, drive=drive)
