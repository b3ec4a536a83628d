"""C07, C08, C09: the payment manager as payer, as payee, and used concurrently."""
import vf

MC = """SPECIFICATION Spec
CONSTANTS MaxDep = %d
MaxVch = %d
ByName = %s
AnyChannel = %s
INVARIANTS Promised UniqueNonces OnceEach %s
CHECK_DEADLOCK FALSE
"""
CONC = "SPECIFICATION Spec\nCONSTANTS Recheck = %s\nN = %d\nINVARIANTS NothingLost CreditedOnce OneChannel\nCHECK_DEADLOCK FALSE\n"
UNITS = ["1", "1000000000000000000", "18446744073709551616", str(10 ** 30 + 7), str(3 ** 40)]


def design(ctx):
    ctx.model_check("pay/PayMC.tla", MC % (2, 3, "FALSE", "FALSE", "SumOfHighest"))
    for byname, anych in (("TRUE", "FALSE"), ("FALSE", "TRUE")):
        rc, out = ctx.tlc("pay/PayMC.tla", MC % (2, 3, byname, anych, ""), workers="4")
        if "Invariant OnceEach is violated" not in out:
            raise vf.CheckError("the design model does not see the doubled credit")


def generate(ctx, role, shapes, num):
    res = []
    for i, (nrec, depth) in enumerate(shapes):
        cfg = 'SPECIFICATION Spec\nCONSTANTS Role = "%s"\nNRec = %d\nDepth = %d\nINVARIANT Emit\n' % (role, nrec, depth)
        for ops in ctx.generate("pay/PayGen.tla", cfg, num=num, depth=depth + 2, seed=ctx.seed * 100 + i):
            h = {"role": role, "unit": ctx.rng.choice(UNITS), "recipients": nrec, "reuse": ctx.rng.random() < .5, "lanes": ctx.rng.randrange(4),
                 "bal": [6, 9, 4, 50], "seed": ctx.rng.randrange(1 << 30)}
            if role == "payee" and ctx.rng.random() < .2:
                # once the highest nonce there is has been used, no voucher of that lane is newer
                k = ctx.rng.randrange(0, len(ops))
                for o in ops[k:k + 1]:
                    if o["op"] == "recv":
                        o["v"]["n"] = 1000
            res.append({"id": "s%d" % len(res), "hdr": h, "ops": ops})
    return res


def edge(ctx):
    """Directed payee histories: the largest nonce, many lanes, one voucher everywhere."""
    res, rng = [], ctx.rng

    def rec(ch, vch, l, n, a, by=None, how="t", tamper="", fail=""):
        return {"op": "recv", "ch": ch, "how": how, "fail": fail, "nth": 0,
                "v": {"ch": vch, "l": l, "n": n, "a": a, "by": [0, 0, 1, 0, 0, 0][vch] if by is None else by, "tamper": tamper}}
    for i in range(4 if ctx.quick else 20):
        hows = [rng.choice("tf") for _ in range(8)]
        h = {"role": "payee", "unit": rng.choice(UNITS), "bal": [6, 9, 4, 50], "seed": rng.randrange(1 << 30), "lanes": i % 4}
        ops = [rec(0, 0, 1, 1000, 2, how=hows[0]), rec(0, 0, 1, 0, 3), rec(0, 0, 1, 1000, 4), rec(0, 0, 1, 5, 6, how=hows[1]),
               rec(0, 0, 0, 0, 1, how=hows[2]), rec(0, 0, 0, 1, 5), rec(0, 0, 0, 1, 4)]
        res.append({"id": "edge%d" % len(res), "hdr": h, "ops": ops})
        ops = []
        for ch in (0, 1, 2, 3, 4, 5):
            for how in "tf":
                ops.append(rec(ch, rng.choice([0, 1]), 2, 0, 2, how=how))
        ops += [rec(c, c, 2, 0, 2) for c in range(6)] + [rec(c, c, 2, 0, 3, how="f") for c in range(6)]
        ops += [rec(c, c, 2, 1, 3, how="f") for c in range(6)]
        res.append({"id": "edge%d" % len(res), "hdr": h, "ops": ops})
    # a long lane: hundreds of vouchers, old ones among them
    ops = [{"op": "dep", "ch": 1, "a": 600}]
    for n in range(270):
        ops.append(rec(1, 1, 3, n, n + 1, how=rng.choice("tf")))
        if n % 9 == 8:
            m = rng.choice([n, n - 1, n // 2, 0, max(0, n - 256)])
            ops.append(rec(1, 1, 3, m, n + 1 + rng.randrange(3)))
    res.append({"id": "long", "hdr": dict(h, lanes=ctx.seed % 4), "ops": ops})
    return res


def slow(ctx):
    """Directed payer histories: receipts that are late or cannot be read, and a lane of hundreds of vouchers."""
    res, rng = [], ctx.rng

    def top(a, late=0, fail=""):
        return {"op": "topup", "r": 0, "a": a, "fail": fail, "nth": 0, "after": False, "slow": late}

    def pay(a, l=0):
        return {"op": "pay", "r": 0, "l": l, "a": a}
    h = {"role": "payer", "unit": UNITS[1], "recipients": 1, "reuse": False, "bal": [6, 9, 4, 50], "seed": 1, "lanes": 0}
    late = [1, 2] if ctx.quick else [1, 2, 3]
    for k in late:
        for fail in ("", "exit"):
            for known in (False, True):
                ops = ([top(3), pay(1)] if known else []) + [top(5, k, fail), pay(5), pay(3), pay(2, 1), pay(1), top(2), pay(2), pay(1)]
                res.append({"id": "slow%d" % len(res), "hdr": dict(h, unit=rng.choice(UNITS), lanes=rng.randrange(4)), "ops": ops})
    ops = [top(500)]
    for n in range(280):
        ops.append(pay(rng.choice([1, 1, 1, 0, 2]), 0 if n < 265 else rng.randrange(4)))
    res.append({"id": "long", "hdr": dict(h, lanes=ctx.seed % 4), "ops": ops + [pay(500), pay(1)]})
    return res


def conc(ctx):
    rng, res = ctx.rng, []
    for i in range(1000 if ctx.quick else 8000):
        kind = rng.choice(["recv", "recv", "recv", "recvmix", "topup", "topup", "pay", "pay", "mix"])
        nt = rng.choice([2, 2, 3, 4]) if kind != "recv" else rng.choice([2, 4])
        vouchers = []
        for _ in range(4):
            k = rng.choice([0, 0, 1, 2])
            vouchers.append({"ch": k, "l": rng.randrange(2), "n": rng.randrange(3), "a": rng.randrange(1, 5), "by": [0, 0, 1][k], "tamper": ""})
        before, after, threads = [], [], []
        h = {"role": "conc", "unit": rng.choice(UNITS), "bal": [6, 9, 4, 50], "seed": rng.randrange(1 << 30), "vouchers": vouchers, "lanes": rng.randrange(4)}

        def op(k):
            if k == "recv":
                v = 0 if kind == "recv" else rng.randrange(4)
                return {"op": "recv", "ch": vouchers[v]["ch"], "v": v}
            if k == "topup":
                return {"op": "topup", "r": 0 if kind == "topup" or rng.random() < .8 else 1, "a": rng.randrange(1, 5)}
            return {"op": "pay", "r": 0 if rng.random() < .8 else 1, "l": rng.randrange(2), "a": rng.randrange(1, 4)}
        ks = {"recv": ["recv"], "recvmix": ["recv"], "topup": ["topup"], "pay": ["pay"], "mix": ["pay", "topup", "recv"]}[kind]
        for _ in range(nt):
            threads.append([op(rng.choice(ks)) for _ in range(rng.choice([1, 1, 1, 2, 3]))])
        if kind == "pay" or rng.random() < .3:
            before.append({"op": "topup", "r": 0, "a": rng.randrange(3, 9)})
        if kind.startswith("recv"):
            # a channel already known: small vouchers before the contested ones
            for k in (0, 1, 2):
                if rng.random() < .6:
                    vouchers.append({"ch": k, "l": 2, "n": 0, "a": 1, "by": [0, 0, 1][k], "tamper": ""})
                    before.append({"op": "recv", "ch": k, "v": len(vouchers) - 1})
        if kind in ("topup", "mix", "pay"):
            for r in (0, 0, 1):
                after.append({"op": "pay", "r": r, "l": 3, "a": rng.choice([1, 2, 5])})
            after += [{"op": "pay", "r": 0, "l": 3, "a": 1} for _ in range(8)]
        else:
            after += [{"op": "recv", "ch": v["ch"], "v": j} for j, v in enumerate(vouchers)]
        h.update(before=before, after=after, threads=threads,
                 gate=rng.choice(["StateReadState", "StateAccountKey", "MpoolGetNonce", "GasEstimateFeeCap", "MpoolPush", "StateGetReceipt", ""]),
                 delay=rng.choice(["StateReadState", "StateAccountKey", "MpoolPush", ""]), us=rng.choice([100, 1000, 5000]))
        if kind.startswith("recv") and rng.random() < .8:
            h["gate"] = rng.choice(["StateReadState", "StateAccountKey"])
        if kind == "topup" and rng.random() < .6:
            h["gate"] = ""
        res.append({"id": "c%d" % i, "hdr": h, "ops": []})
    return res


def run(ctx):
    q = ctx.quick
    binary = ctx.build("common", "pay")
    if ctx.prop == "C09":
        ctx.model_check("pay/PayConc.tla", CONC % ("TRUE", 4))
        rc, out = ctx.tlc("pay/PayConc.tla", CONC % ("FALSE", 2), workers="4")
        if "is violated" not in out:
            raise vf.CheckError("the design model does not see the race")
        sc = conc(ctx)
        spec = "pay/PayConcTrace.tla"
    elif ctx.prop == "C07":
        design(ctx)
        sc = generate(ctx, "payer", [(1, 25), (3, 60)] + ([] if q else [(2, 400)]), 60 if q else 500) + slow(ctx)
        spec = "pay/PayTrace.tla"
    else:
        design(ctx)
        sc = generate(ctx, "payee", [(1, 30), (1, 80)] + ([] if q else [(1, 300)]), 60 if q else 500) + edge(ctx)
        spec = "pay/PayTrace.tla"
    tries = 4 if ctx.prop == "C09" else 1
    def drive(ss):
        return ctx.drive(binary, ss, timeout=700, procs=8)
    ctx.judge(binary, sc, drive(sc), spec, lambda e: "payment not explained: %s" % e, tries=tries, drive=drive,
              copies=60 if ctx.prop == "C09" else 1)
