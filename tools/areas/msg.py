"""C13: message signatures; C26: message encodings."""
import vf

MC = ("SPECIFICATION Spec\nCONSTANTS Covered = {%s}\nNKey = 2\nNSlot = 2\nMaxFacts = %d\nINVARIANT Authentic\nINVARIANT Complete\n"
      "CHECK_DEADLOCK FALSE\n")
FIELDS = ['"t"', '"b"', '"v"', '"s"']


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    binary = ctx.build("common", "msg")

    def drive(ss):
        return ctx.drive(binary, ss, timeout=700, procs=8)
    if ctx.prop == "C26":
        sc = []
        for i in range(1 if q else 6):
            cfg = "SPECIFICATION Spec\nCONSTANTS Depth = 60\nNKind = 60\nINVARIANT Emit\n"
            for ops in ctx.generate("msg/CodecGen.tla", cfg, num=160 if q else 600, depth=62, seed=ctx.seed * 100 + i):
                sc.append({"id": "k%d" % len(sc), "hdr": {"mode": "codec", "seed": rng.getrandbits(40)}, "ops": ops})
        # every kind is sent, received and damaged at least once
        for k in range(60):
            ops = []
            for _ in range(2):
                ops += [{"op": "send", "slot": 0, "k": k}, {"op": "recv", "slot": 0, "k": k}, {"op": "all", "slot": 0}]
                ops += [{"op": "bad", "slot": 0, "k": k}] * (4 if q else 20)
            sc.append({"id": "e%d" % k, "hdr": {"mode": "codec", "seed": rng.getrandbits(40)}, "ops": ops})
        known = vf.known_findings("C26")
        pairs = [tuple(p) for f in known for p in f["pairs"]]
        tr = drive(sc)
        # which of the listed findings show on this tree
        for f in known:
            fp = {tuple(p) for p in f["pairs"]}
            for t in tr:
                k = {}
                for e in t["ev"]:
                    if e["op"] == "send":
                        k[e["slot"]] = e["k"]
                    elif e["op"] == "all" and any((k[e["slot"]], a) in fp for a in e["acc"]):
                        ctx.known(f)
        ctx.judge(binary, sc, tr, "msg/CodecTrace.tla", lambda e: "message encoding not explained: %s" % e, drive=drive,
                  consts="Known = {%s}\n" % ", ".join("%d" % (1000 * p[0] + p[1]) for p in pairs))
        return
    ctx.model_check("msg/MsgMC.tla", MC % (", ".join(FIELDS), 1 if q else 2), timeout=1500)
    for f in FIELDS:
        rc, out = ctx.tlc("msg/MsgMC.tla", MC % (", ".join(x for x in FIELDS if x != f), 1), workers="4")
        if "Invariant Authentic is violated" not in out:
            raise vf.CheckError("the design model does not see a forgery when %s is not covered" % f)
    sc = []
    for i in range(1 if q else 6):
        cfg = "SPECIFICATION Spec\nCONSTANTS Depth = 80\nINVARIANT Emit\n"
        for ops in ctx.generate("msg/MsgGen.tla", cfg, num=300 if q else 1500, depth=82, seed=ctx.seed * 100 + i):
            sc.append({"id": "m%d" % len(sc), "hdr": {"mode": "sign", "seed": rng.getrandbits(40)}, "ops": ops})
    ctx.judge(binary, sc, drive(sc), "msg/MsgTrace.tla", lambda e: "message verification not explained: %s" % e, drive=drive)
