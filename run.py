#!/usr/bin/env python3
"""setup | check <id> [quick|thorough] | replay <file> | list"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from vf import build as B, core, tlc


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    if cmd == "setup":
        print("built in %.1f s" % B.build()); return 0
    if cmd == "replay":
        r = json.load(open(sys.argv[2]))
        drv = r["driver"]
        B.build()
        lines = core.run_driver(drv, r["script"], 600, r["env"])
        rej = tlc.validate(r["module"], r["constants"], lines)[0]
        for x in rej[:20]:
            print("REJECTED", x["names"], lines[x["line"] - 1].decode()[:1500])
        return 1 if rej else 0
    if cmd == "check":
        prop = sys.argv[2]
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        mod = importlib.import_module("vf.checks")
        fn, drivers = mod.CHECKS[prop]
        ctx = core.Ctx(prop, tier, seed)
        try:
            t = B.build(["java"] + list(drivers))
            ctx.notes["build_s"] = round(t, 1)
            fn(ctx)
        except Exception:
            traceback.print_exc()
            print("ERROR property=%s: the check itself failed" % prop)
            return 2
        ctx.evidence()
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for v in ctx.violations:
            print("  conjuncts %s of event %s (%d occurrences): %s" % (", ".join(v["names"]), v["op"], v["count"], v["event"][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        print("%s %s: %d traces, %d events, %d states, %d violations, %.1f s" %
              (prop, tier, ctx.traces, ctx.events, ctx.states, len(ctx.violations), time.time() - ctx.t0))
        return 1 if ctx.violations else 0
    print(__doc__); return 2


sys.exit(main())
