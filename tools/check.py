#!/usr/bin/env python3
"""Usage: check.py <property id>   (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

AREAS = {"C01": "ring", "C02": "ring", "C03": "ring",
         "C04": "offers", "C05": "offers", "C06": "offerconc", "C07": "pay", "C08": "pay", "C09": "pay", "C10": "regmgr",
         "C13": "msg", "C26": "msg", "C14": "offer", "C15": "rep",
         "C11": "p2p", "C12": "dispatch",
         "C16": "gateway", "C17": "gateway", "C18": "gateway", "C19": "gateway", "C25": "gateway", "C27": "gateway",
         "C20": "provider", "C21": "provider",
         "C24": "regsvc",
         "C22": "client", "C23": "client", "C28": "client",
         "C29": "admin", "C30": "rand"}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = vf.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("areas." + AREAS[prop])
        mod.run(ctx)
        rc = ctx.finish()
    except vf.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e), flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
