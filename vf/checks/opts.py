"""Option objects as values (C26): the specification is TraceOpts.tla."""
from ..core import fl

ENUM = {"basisType": ["ProbabilistHermite", "PhysicistHermite", "HermiteFunctions"], "posFuncType": ["Exp", "SoftPlus"],
        "quadType": ["ClenshawCurtis", "AdaptiveSimpson", "AdaptiveClenshawCurtis"]}
DBL = ["basisLB", "basisUB", "quadAbsTol", "quadRelTol", "nugget"]
INT = ["quadMaxSub", "quadMinSub", "quadPts"]
BOOL = ["contDeriv", "basisNorm"]
MAPF = list(ENUM) + DBL + INT + BOOL
TD = ["opt_stopval", "opt_ftol_rel", "opt_ftol_abs", "opt_xtol_rel", "opt_xtol_abs", "opt_maxtime"]
TRAINF = TD + ["opt_alg", "opt_maxeval", "verbose"]
OWN = ["maxPatience", "maxSize", "maxDegrees"]
FIELDS = {"map": MAPF, "train": TRAINF, "atm": MAPF + TRAINF + OWN}


def value(r, f):
    if f in ENUM: return r.choice(ENUM[f])
    if f in DBL + TD: return r.choice(["inf", "-inf", "0", "-0.0", "1e-6", fl(r.uniform(-9, 9)), fl(10 ** r.uniform(-20, 20)), fl(-10 ** r.uniform(-300, 300)), "0.1", "3"])
    if f in BOOL: return r.choice(["true", "false"])
    if f == "opt_alg": return r.choice(["LD_SLSQP", "LD_LBFGS", "LN_COBYLA", "LD_MMA"])
    if f == "maxDegrees": return ",".join(str(r.choice([0, 0, 1, 2, 7, 100000])) for _ in range(r.randint(0, 4))) or "-"
    return str(r.choice([0, 1, 2, 3, 30, 1000, 2 ** 31 - 1, r.randint(0, 10 ** 6)]))


def script(ctx, python, n):
    r = ctx.rng; out = []
    for kind in FIELDS:                                     # every field on its own: set, text, equality, file
        for f in FIELDS[kind]:
            for v in ENUM.get(f, [value(r, f) for _ in range(3)] if f not in BOOL else ["true", "false"]):
                out += ["reset", "onew 1 " + kind, "onew 2 " + kind, "oset 1 %s %s" % (f, v), "ostr 1"]
                if kind == "map": out += ["oeq 1 2", "oeq 2 1", "ofile 3 1", "oeq 3 1", "oset 2 %s %s" % (f, v), "oeq 1 2"]
    for f in MAPF:                                          # objects that differ in one field, whatever the others are
        for k in range(max(3, n // 25)):
            out += ["reset", "onew 1 map"] + ["oset 1 %s %s" % (g, value(r, g)) for g in MAPF if g == f or r.random() < .8]
            if not python: out.append("ocopy 2 1")
            else: out += ["ofile 2 1"]
            out += ["oeq 1 2", "oset 2 %s %s" % (f, value(r, f)), "oeq 1 2", "oeq 2 1"]
    for _ in range(n):
        out.append("reset"); have = {}
        for _ in range(r.randint(6, 30)):
            k = r.randint(1, 4); a = r.random()
            if k not in have or a < .08: have[k] = r.choice(["map", "map", "train", "atm"]); out.append("onew %d %s" % (k, have[k]))
            elif a < .55: f = r.choice(FIELDS[have[k]]); out.append("oset %d %s %s" % (k, f, value(r, f)))
            elif a < .68: out.append("ostr %d" % k)
            else:
                b = r.choice(sorted(have))
                if a < .75 and not python: have[k] = have[b]; out.append("ocopy %d %d" % (k, b))
                elif a < .8 and not python and have[b] == "atm" and b != k: have[k] = r.choice(["map", "train"]); out.append("opart %d %d %s" % (k, b, have[k]))
                elif a < .88 and have[b] == "map": have[k] = "map"; out.append("ofile %d %d" % (k, b))
                elif have[b] == "map" == have[k]: out.append("oeq %d %d" % (k, b))
    return out


def c26(ctx):
    from .py import DRV, ENV
    ctx.conform("drv_opts", "TraceOpts", {}, script(ctx, False, ctx.pick(300, 4000)), label="C++")
    ctx.conform(DRV, "TraceOpts", {}, script(ctx, True, ctx.pick(150, 2000)), env=ENV, label="Python")


CHECKS = {"C26": (c26, ["drv_opts", "pympart"])}
