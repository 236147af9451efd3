"""C01-C04: multi-indices, multi-index sets, limiters, factories, fixed sets."""
from .. import tlc

MODELS = [("2d", "2", "2", "<- LimMix2"), ("1d", "1", "5", "<- LimMix1"), ("3d", "3", "1", "<- LimMix3")]


def model_scripts(ctx, per=60):
    """Every transition of the exhaustive model, as a script that replays it on the real code."""
    scripts = []
    for name, n, k, lims in MODELS:
        r = ctx.model("MISetMC", name, constants={"N": n, "K": k, "Limiters": lims},
                      invariants=["InvWellFormed", "InvMargins", "InvExpandEmpty", "InvExpandIsRM"],
                      properties=["PropGrow", "PropClosed"], constraint="InBox", action_constraint="Emit", view="View")
        tests = sorted(set(tlc.printed(r["out"], "TEST")))
        ctx.notes["model_transitions_" + name] = len(tests)
        if not ctx.thorough and len(tests) > 2600:
            tests = ctx.rng.sample(tests, 2600)
        out = []
        for j, t in enumerate(tests):
            if j % per == 0:
                out += ["reset", "box %s %d" % (n, int(k) + 1)]
            cmds = t.strip("<>").strip()
            cmds = [c.strip().strip('"') for c in cmds.split('", "')]
            out += ["hist"] + ["quiet " + c for c in cmds[:-1]] + ["last " + cmds[-1]]
        scripts += out
    return scripts


def limiter(r, n, depth=0):
    k = r.random()
    if depth < 2 and k < 0.3:
        return "%s %s %s" % (r.choice(["And", "Or", "Xor"]), limiter(r, n, depth + 1), limiter(r, n, depth + 1))
    k = r.randrange(6)
    if k == 0: return "None"
    if k == 1: return "TotalOrder %d" % r.randint(0, 5)
    if k == 2: return "MaxDegree %d %s" % (n, " ".join(str(r.randint(0, 4)) for _ in range(n)))
    if k == 3: return "MaxDegree1 %d %d" % (r.randint(0, 4), n)
    if k == 4:
        lo = r.randint(0, n - 1)
        return "Dimension %d %d" % (lo, r.randint(0, n - lo))
    return "Aniso %d %s %d" % (n, " ".join(str(r.choice([1, 2, 3, 4])) for _ in range(n)), r.choice([3, 7, 11, 23, 41, 67]))


def loose(r, n):
    k = r.random()
    if k < 0.45: return "None"
    if k < 0.6: return "TotalOrder %d" % r.randint(3, 6)
    return limiter(r, n)


def mi(r, n, k):
    style = r.random()
    if style < 0.2:
        v = [0] * n; v[r.randrange(n)] = r.randint(0, k)
    elif style < 0.3:
        v = [r.randint(0, 1) for _ in range(n)]
    else:
        v = [r.randint(0, k) for _ in range(n)]
    return "%d %s" % (n, " ".join(map(str, v)))


def random_histories(ctx, count, length):
    """Random operation sequences over several sets at once, with varying limiters and dimensions."""
    r = ctx.rng
    out = []
    for _ in range(count):
        n = r.choice([1, 2, 2, 2, 3, 3, 4, 5])
        kmax = {1: 9, 2: 4, 3: 3, 4: 2, 5: 2}[n]
        out += ["reset", "box %d %d" % (n, {1: 10, 2: 5, 3: 3, 4: 2, 5: 1}[n])]
        slots, fixed = [], []
        other = None

        def create(slot):
            k = r.random()
            if k < 0.35: out.append("new %d %d %s" % (slot, n, loose(r, n)))
            elif k < 0.6: out.append("total %d %d %d %s" % (slot, n, r.randint(0, 3 if n < 4 else 2), loose(r, n)))
            elif k < 0.8: out.append("tensor %d %d %d %s" % (slot, n, r.randint(0, 2 if n < 4 else 1), loose(r, n)))
            else:
                rows = r.randint(0, 5)
                vals = [str(r.randint(0, kmax)) for _ in range(rows * n)]
                if rows > 1 and r.random() < 0.3: vals[-n:] = vals[:n]
                out.append("matrix %d %d %d %s" % (slot, rows, n, " ".join(vals)))
            if slot not in slots: slots.append(slot)
        create(0)
        if r.random() < 0.7: create(1)
        for _ in range(r.randint(length // 2, length)):
            s = r.choice(slots)
            k = r.random()
            if k < 0.2: out.append("add %d %s" % (s, mi(r, n, kmax)))
            elif k < 0.24: out.append("iadd %d %s" % (s, mi(r, n, kmax)))
            elif k < 0.34: out.append("expand %d %d" % (s, r.randrange(1000)))
            elif k < 0.38: out.append("expandall %d" % s)
            elif k < 0.46: out.append("fexpand %d %d" % (s, r.randrange(1000)))
            elif k < 0.54: out.append("factivate %d %s" % (s, mi(r, n, kmax)))
            elif k < 0.6: out.append("activate %d %s" % (s, mi(r, n, kmax)))
            elif k < 0.68: out.append("setlim %d %s" % (s, limiter(r, n) if r.random() < 0.6 else "None"))
            elif k < 0.73: out.append("%s %d %d" % (r.choice(["union", "iunion"]), s, r.choice(slots)))
            elif k < 0.77:
                d = r.randrange(4); out.append("copy %d %d" % (d, s)); slots = sorted(set(slots) | {d})
            elif k < 0.8: out.append("assign %d %d" % (s, r.choice(slots)))
            elif k < 0.83:
                d = r.randrange(4); out.append("plus %d %d %d" % (d, s, r.choice(slots))); slots = sorted(set(slots) | {d})
            elif k < 0.86:
                d = r.randrange(4); out.append("plusm %d %d %s" % (d, s, mi(r, n, kmax))); slots = sorted(set(slots) | {d})
            elif k < 0.88: create(r.randrange(4))
            elif k < 0.91: out.append("filter %d %s" % (s, mi(r, n, kmax)))
            elif k < 0.92 and n == 2: out.append("vis %d" % s)
            elif k < 0.96:
                f = r.randrange(3); out.append("fix %d %d %d" % (f, s, r.randrange(2))); fixed = sorted(set(fixed) | {f})
            elif fixed and k < 0.98: out.append("fobs %d" % r.choice(fixed))
            elif fixed:
                f = r.randrange(3); out.append("fcopy %d %d" % (f, r.choice(fixed))); fixed = sorted(set(fixed) | {f})
        for f in fixed: out.append("fobs %d" % f)
    # assignment between different lengths
    for a, b in ((1, 2), (3, 2), (2, 4)):
        out += ["reset", "box 2 3", "total 0 %d 2 None" % a, "total 1 %d 1 None" % b, "assign 0 1", "assign 1 0", "add 0 %s" % mi(r, a, 2)]
    return out


def c01(ctx):
    ctx.conform("drv_mset", "TraceMISet", {"ASPECT": '"book"'}, model_scripts(ctx), label="model transitions")
    ctx.conform("drv_mset", "TraceMISet", {"ASPECT": '"book"'}, random_histories(ctx, ctx.pick(160, 1500), 30), label="random histories")


def c02(ctx):
    ctx.conform("drv_mset", "TraceMISet", {"ASPECT": '"adapt"'}, model_scripts(ctx), label="model transitions")
    ctx.conform("drv_mset", "TraceMISet", {"ASPECT": '"adapt"'}, random_histories(ctx, ctx.pick(160, 1500), 30), label="random histories")


def c03(ctx):
    """Register machine over multi-index values."""
    r = ctx.rng
    out = []
    for _ in range(ctx.pick(250, 3000)):
        out.append("reset")
        n = r.choice([0, 1, 1, 2, 3, 3, 4, 6])
        for _ in range(r.randint(8, 30)):
            a, b = r.randrange(4), r.randrange(4)
            ln = n if r.random() < 0.85 else r.randint(0, 6)
            big = r.random() < 0.05
            vals = [r.choice([0, 0, 0, 1, 2, 3, 5]) if not big else r.choice([0, 255, 256, 65535, 65536, 1000000]) for _ in range(ln)]
            k = r.random()
            if k < 0.22: out.append("%s %d %d %s" % (r.choice(["mvec", "mptr", "meig", "minit"]), a, ln, " ".join(map(str, vals))))
            elif k < 0.27: out.append("mconst %d %d %d" % (a, max(1, ln), r.randint(0, 4)))
            elif k < 0.33: out.append("mcopy %d %d" % (a, b))
            elif k < 0.6: out.append("mset %d %d %d" % (a, r.randint(0, max(0, n - 1)) if r.random() < 0.85 else r.randint(0, 9), r.choice([0, 0, 1, 2, 3, 4, 7])))
            elif k < 0.68: out.append("mget %d %d" % (a, r.randint(0, n + 1)))
            elif k < 0.92: out.append("mcmp %d %d" % (a, b))
            else: out.append("mnb %d" % a)
    # permutations and near-equal pairs, for the order
    for _ in range(ctx.pick(40, 400)):
        out.append("reset")
        n = r.randint(1, 5)
        base = [r.randint(0, 3) for _ in range(n)]
        for reg in range(4):
            v = base[:]
            r.shuffle(v)
            if r.random() < 0.5 and n: v[r.randrange(n)] = max(0, v[r.randrange(n)] + r.choice([-1, 1]))
            out.append("mvec %d %d %s" % (reg, n, " ".join(map(str, v))))
        out += ["mcmp %d %d" % (i, j) for i in range(4) for j in range(4)]
    ctx.conform("drv_mset", "TraceMISet", {"ASPECT": '"value"'}, out, label="multi-index registers")


def c04(ctx):
    r = ctx.rng
    out = []
    for n in range(1, 6):
        for p in range(0, {1: 9, 2: 7, 3: 5, 4: 4, 5: 3}[n]):
            out += ["reset", "box %d %d" % (n, {1: 9, 2: 6, 3: 4, 4: 2, 5: 1}[n]), "ftotal 0 %d %d" % (n, p), "total 0 %d %d None" % (n, p), "fix 1 0 0", "fix 2 0 1",
                    "total 1 %d %d %s" % (n, p, limiter(r, n)), "fix 1 1 0", "fobs 2"]
            if (p + 1) ** n <= 130:
                out += ["tensor 2 %d %d None" % (n, p), "fix 1 2 1", "tensor 3 %d %d %s" % (n, p, limiter(r, n)), "fix 0 3 0"]
    for _ in range(ctx.pick(120, 1200)):
        n = r.randint(1, 5)
        out += ["reset", "box %d %d" % (n, {1: 9, 2: 6, 3: 4, 4: 3, 5: 2}[n])]
        out += ["limcheck %d %s" % (n, limiter(r, n)) for _ in range(6)]
    out += random_histories(ctx, ctx.pick(60, 600), 14)
    ctx.conform("drv_mset", "TraceMISet", {"ASPECT": '"fact"'}, out, label="factories, limiters, fixed sets")


CHECKS = {"C01": (c01, ["drv_mset"]), "C02": (c02, ["drv_mset"]), "C03": (c03, ["drv_mset"]), "C04": (c04, ["drv_mset"])}
