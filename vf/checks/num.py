"""One-dimensional numerics: bases, expansions, quadrature, root finding, bijectors, sigmoids (C12-C14, C24)."""
from .. import tlc
from ..core import fl
from .maps import BASES, INF, Opts, some_multis

MOD = ("drv_basis", "TraceNum", {})
BNDS = [(-INF, INF), (-1.5, 2.0), (-2.25, 1.25), (-INF, 1.5), (-1.75, INF)]


def vec(v):
    return "%d %s" % (len(v), " ".join(map(fl, v)))


def c12(ctx):
    r = ctx.rng; out = []
    for b in BASES:
        for nrm in (0, 1):
            for lb, ub in BNDS:
                out.append("reset")
                for n in range(0, 11):
                    for _ in range(ctx.pick(3, 30)):
                        x = r.choice([r.uniform(-4, 4), r.uniform(-1, 1), r.choice([0.0, lb, ub, -3.0, 2.5])])
                        if abs(x) == INF: x = 1.0
                        out.append("basis %s %d %s %s %d %s" % (b, nrm, fl(lb), fl(ub), n, fl(x)))
                for n in (13, 15, 20) if nrm or b == "hf" else (14,):
                    out.append("basis %s %d %s %s %d %s" % (b, nrm, fl(lb), fl(ub), n, fl(r.uniform(-2, 2))))
                for _ in range(ctx.pick(14, 150)):
                    d = r.choice([1, 2, 3, 4, 5]); p = r.choice([1, 2, 3, 5])
                    ms = some_multis(r, d, p, r.randint(1, 8))
                    c = [r.uniform(-1, 1) for _ in ms]; x = [r.choice([r.uniform(-2.5, 2.5), 0.0]) for _ in range(d)]
                    out.append("worker %s %d %s %s %d %d %d %s %s %s" % (b, nrm, fl(lb), fl(ub), r.randrange(2), d, len(ms),
                               " ".join(str(v) for m in ms for v in m), vec(c), vec(x)))
    ctx.conform(*MOD, out, label="bases and expansions")


def rand_fn(r, smooth=False):
    k = r.choice(["poly", "exp", "cos", "gauss"] + ([] if smooth else ["abs", "step"]))
    u = r.uniform
    return {"poly": lambda: ("poly", [u(-2, 2) for _ in range(r.randint(1, 7))]), "exp": lambda: ("exp", [u(-2, 2), u(-1.5, 1.5)]),
            "cos": lambda: ("cos", [u(-2, 2), u(0, 6)]), "gauss": lambda: ("gauss", [u(-2, 2), u(0.5, 30), u(-1, 1)]),
            "abs": lambda: ("abs", [u(-2, 2), u(-1, 1)]), "step": lambda: ("step", [u(-1, 1), u(-1, 1), u(0, 2)])}[k]()


def fns(fs):
    return "%d %s" % (len(fs), " ".join("%s %s" % (t, vec(p)) for t, p in fs))


METRICS = ("first", "inf", "two", "one")


def quad_line(r, rule, np, ms, mn, at, rt, fs, ivs, how=None, extra=0):
    return "quad %s %d %d %d %s %s %s %d %d %s %d %s" % (rule, np, ms, mn, fl(at), fl(rt), r.choice(METRICS), r.randrange(3) if how is None else how, extra,
                                                         fns(fs), len(ivs), " ".join("%s %s" % (fl(a), fl(b)) for a, b in ivs))


def c13(ctx):
    r = ctx.rng; out = ["reset"]
    for n in range(1, ctx.bound(34, 34)):
        out.append("rule %d" % n)
    iv = lambda: r.choice([(0.0, 1.0), (r.uniform(-2, 0), r.uniform(0.1, 2)), (0.0, r.uniform(-2, 2)), (1.0, 1.0), (0.0, 1e-15), (0.5, -1.0), (r.uniform(-1, 1),) * 2])
    for _ in range(ctx.pick(150, 1500)):
        out.append("reset")
        out.append(quad_line(r, "cc", r.randint(1, 24), 0, 0, 1e-3, 1e-3, [rand_fn(r) for _ in range(r.randint(1, 4))], [iv() for _ in range(4)], extra=r.choice([0, 0, 2])))
    for _ in range(ctx.pick(250, 2500)):
        out.append("reset")
        rule = r.choice(["as", "acc"])
        ms = r.choice([1, 2, 3, 5, 8, 12]); mn = r.choice([0, 0, 0, 1, 2, 3])
        tol = (10 ** r.uniform(-7, -2), r.choice([0.0, 10 ** r.uniform(-7, -2)]))
        if r.random() < 0.15: tol = (0.0, 10 ** r.uniform(-6, -2))
        out.append(quad_line(r, rule, r.choice([1, 1, 2, 3]), ms, min(mn, ms - 1), tol[0], tol[1], [rand_fn(r) for _ in range(r.randint(1, 3))], [iv() for _ in range(2)], extra=r.choice([0, 0, 2])))
    for _ in range(ctx.pick(60, 600)):         # jumps and kinks found to the last bit: very deep subdivision
        out.append("reset")
        t = r.choice([r.uniform(0, 1), r.uniform(-1e-3, 1e-3), 10 ** -r.uniform(2, 25), 0.0])
        f = r.choice([("step", [r.uniform(-1, 1), t, r.uniform(0.5, 2)]), ("step", [0.0, t, 1.0]), ("abs", [r.uniform(-2, 2), t])])
        rule = r.choice(["as", "acc"])
        at, rt = r.choice([(10 ** -r.uniform(8, 15), 0.0), (10 ** -r.uniform(8, 13), 0.0), (1e-300, 10 ** -r.uniform(1, 3))])
        ms = r.choice([20, 31, 32, 33, 34, 40, 60, 64, 65, 90])
        if f[0] == "step" and rt: f = ("abs", [1.0, t])
        out.append(quad_line(r, rule, r.choice([1, 2]), ms, 0, at, rt, [f], [r.choice([(0.0, 1.0), (-1.0, 1.0), (0.0, r.uniform(0.5, 2))])]))
    for _ in range(ctx.pick(250, 2500)):       # tabulated integrands force every pattern of accepted and refined intervals
        out.append("reset")
        D = r.choice([3, 4, 5, 6]); a = r.choice([0.0, -1.0, 2.0]); b = a + r.choice([1.0, 2.0, 0.5])
        fs = []
        for _ in range(r.randint(1, 2)):
            t = [0.0] * (2 ** D + 1)
            for _ in range(r.randint(0, 5)): t[r.randrange(2 ** D + 1)] = r.uniform(-1, 1)
            if r.random() < 0.2: t = [r.uniform(-1, 1) for _ in t]
            fs.append(("tab", [a, b] + t))
        ms = r.randint(1, D - 1)
        out.append(quad_line(r, "as", 0, ms, r.choice([0, 0, min(1, ms - 1), ms - 1]), 10 ** r.uniform(-4, -1), r.choice([0.0, 1e-2]), fs, [(a, b)]))
    out += forced_trees(ctx)
    ctx.conform(*MOD, out, label="quadrature")


def forced_trees(ctx):
    """Integrands that make the adaptive rule accept and refine exactly the intervals of each tree of the model."""
    r = ctx.rng; out = []; D = 4
    res = ctx.model("AdaptMC", constants={"D": str(D)}, invariants=["Values", "Continues", "Covers", "Emit"], properties=["Ends"])
    trees = [list(map(int, t.strip("<>").split(","))) for t in sorted(set(tlc.printed(res["out"], "TREE")))]
    ctx.notes["subdivision_trees"] = len(trees)
    for leaves in trees * ctx.bound(1, 8):
        n = 2 ** (D + 2); a = r.choice([0.0, -1.0, 2.0]); b = a + r.choice([1.0, 2.0])
        t = [1e6] * (n + 1); leaves = leaves[:]
        for i in (0, n // 2, n): t[i] = r.uniform(-1, 1)

        def fill(i, j, level):
            m = (i + j) // 2; x, y = (i + m) // 2, (m + j) // 2
            q = (t[i] + 6 * t[m] + t[j]) / 8; d = r.uniform(-1, 1); leaf = leaves[0] == level
            off = 0.0 if leaf else r.choice([-1, 1]) * r.uniform(1, 3)
            t[x], t[y] = q + d + off, q - d
            if leaf: leaves.pop(0)
            else: fill(i, m, level + 1); fill(m, j, level + 1)
        fill(0, n, 0)
        if len(out) % 30 == 0: out.append("reset")
        fs = [("tab", [a, b] + t)]
        if r.random() < .4: fs.append(("tab", [a, b] + [r.uniform(-1, 1) for _ in t]))
        out.append("quad as 0 %d 0 %s %s first %d 0 %s 1 %s %s" % (D + 1, fl(1e-3), fl(0.0), r.randrange(3), fns(fs), fl(a), fl(b)))
    return out


def mono_fn(r):
    u = r.uniform; k = r.choice(["flatl", "flatr", "jump", "lin", "cubic", "logi", "exp", "step", "kink", "quintic", "logisum"])
    if k == "flatl": return ("kink", [0.0, u(-3, 3), 10 ** u(-2, 2)])
    if k == "flatr": return ("kink", [10 ** u(-2, 2), u(-3, 3), 0.0])
    if k == "jump": return ("step", [0.0, u(-3, 3), u(0.5, 4)])
    if k == "lin": return ("poly", [u(-3, 3), 10 ** u(-3, 2)])
    if k == "cubic": return ("poly", [u(-2, 2), r.choice([0.0, 10 ** u(-2, 1)]), 0.0, u(0.05, 2)])
    if k == "quintic": return ("poly", [u(-2, 2), u(0, 1), 0.0, u(0, 1), 0.0, u(0.1, 1)])
    if k == "logi": return ("logi", [u(0.5, 4), u(0.3, 3), u(-2, 2), u(-1, 1)])
    if k == "exp": return ("exp", [u(0.2, 2), u(0.2, 1.5)])
    if k == "step": return ("step", [u(0.1, 2), u(-3, 3), u(0.5, 4)])
    if k == "kink": return ("kink", [10 ** u(-2, 1), u(-3, 3), 10 ** u(-2, 1)])
    return ("logi", [u(0.5, 4), u(3, 20), u(-2, 2), u(-1, 1)])


def val(f, x):
    import math
    t, p = f
    if t == "poly": return sum(c * x ** i for i, c in enumerate(p))
    if t == "exp": return p[0] * math.exp(p[1] * x)
    if t == "logi": return p[0] / (1 + math.exp(-p[1] * (x - p[2]))) + p[3]
    if t == "step": return p[0] * x + (p[2] if x > p[1] else 0)
    if t == "kink": return (p[0] if x < p[1] else p[2]) * (x - p[1])


def c14(ctx):
    ctx.model("RootMC", constants={"Eps": "8", "K": str(ctx.bound(2, 3))}, invariants=["Brackets", "Shrinks", "Effort"], properties=["Ends"])
    r = ctx.rng; out = []
    for _ in range(ctx.pick(1500, 15000)):
        if len(out) % 40 == 0: out.append("reset")
        f = mono_fn(r)
        x = r.uniform(-4, 4) if f[0] in ("logi", "exp") else r.choice([r.uniform(-4, 4), r.uniform(-40, 40), 10 ** r.uniform(1, 3), -10 ** r.uniform(1, 3), 0.0])
        if f[0] == "logi" and abs(f[1][1] * (x - f[1][2])) > 12: x = f[1][2]
        y = val(f, x)
        if f[0] == "step" and r.random() < 0.3: y = f[1][0] * f[1][1] + r.uniform(0, 1) * f[1][2]
        if f[0] in ("logi", "exp") and r.random() < 0.15:                  # unreachable values
            y = (f[1][3] + (f[1][0] + 0.5 if r.random() < .5 else -0.5)) if f[0] == "logi" else -0.5
        x0 = r.choice([r.uniform(-5, 5), 0.0, x, x + 1.0, x - 1.0, x + 1e-7])
        if f[0] in ("logi",) and abs(f[1][1] * (x0 - f[1][2])) > 12: x0 = f[1][2]
        if f[0] == "exp": x0 = r.uniform(-3, 3)
        # flat stretches, short enough not to be reported as flat (see FindBracket)
        if f[0] == "kink" and f[1][0] == 0: x0 = f[1][1] + r.uniform(-13, 13); y = r.choice([0.0, 1.0]) * val(f, f[1][1] + abs(x) % 30)
        if f[0] == "kink" and f[1][2] == 0: x0 = f[1][1] + r.uniform(-13, 13); y = r.choice([0.0, 1.0]) * val(f, f[1][1] - abs(x) % 30)
        if f[0] == "step" and f[1][0] == 0: x0 = f[1][1] + r.uniform(-13, 13); y = r.uniform(0, 1) * f[1][2]
        xt, ft = r.choice([(1e-6, 1e-6), (1e-5, 1e-9), (1e-9, 1e-5), (1e-3, 1e-3), (10 ** r.uniform(-9, -2), 10 ** r.uniform(-12, -2))])
        if r.random() < 0.8: out.append("root %s %s %s %s %s %s" % (f[0], vec(f[1]), fl(x0), fl(y), fl(xt), fl(ft)))
        else:
            w = r.choice([0.0, 1.0, 3.5]); out.append("bracket %s %s %s %s %s" % (f[0], vec(f[1]), fl(x0), fl(x0 + w), fl(y)))
    for _ in range(ctx.pick(400, 3000)):                                    # continuous functions that rise and fall
        if len(out) % 40 == 0: out.append("reset")
        a, b, c = r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-3, 3); k = 10 ** r.uniform(-1, 1); sh = r.uniform(-20, 20)
        f = ("poly", [sh - k * a * b * c, k * (a * b + b * c + a * c), -k * (a + b + c), k])
        x0 = r.uniform(-5, 5); y = r.choice([sh, sh + r.uniform(-k, k), val(f, r.uniform(-4, 4))])
        out.append("rootw %s %s %s %s %s %s" % (f[0], vec(f[1]), fl(x0), fl(y), fl(10 ** r.uniform(-9, -3)), fl(10 ** r.uniform(-9, -3))))
    for c in (-1.0, 2.0):                                                   # flat functions
        out.append("root poly 1 %s %s %s %s %s" % (fl(c), fl(0.3), fl(0.0), fl(1e-6), fl(1e-6)))
        out.append("bracket poly 1 %s %s %s %s" % (fl(c), fl(0.0), fl(1.0), fl(0.0)))
    ctx.conform(*MOD, out, label="root finding")


def c24(ctx):
    r = ctx.rng; out = []
    grid = [-1e6, -5000.0, -745.5, -710.0, 710.0, 745.5, 5000.0, 1e6, -700.0, -300.0, -60.0, -38.0, -20.0, -1e-8, 0.0, 1e-8, 20.0, 38.0, 60.0, 300.0, 700.0]
    for _ in range(ctx.pick(60, 600)):
        out.append("reset")
        for t in ("softplus", "exp"): out.append("bij %s %s" % (t, vec([r.uniform(-12, 12) for _ in range(6)] + [r.uniform(-200, 200)] + r.sample(grid, 3))))
        out.append("logistic %s" % vec([r.uniform(-12, 12) for _ in range(6)] + r.sample(grid, 3)))
        n = r.randint(1, 6); k = r.randint(1, 5)
        c = [r.uniform(-2, 2) for _ in range(n)]; w = [r.choice([-1, 1]) * r.uniform(0.2, 4) for _ in range(n + (1 if r.random() < 0.1 else 0))]
        out.append("sigmoid %s %s %s %s %s" % (vec(c), vec(w), vec([r.uniform(-1, 1) for _ in w]), vec([r.uniform(-3, 3) for _ in range(k)]), vec([r.uniform(-2, 2) for _ in range(k)])))
        d1, d2 = r.randint(1, 3), r.randint(1, 3)
        m1 = some_multis(r, d1, 3, d1 if r.random() < 0.7 else r.randint(1, 5)); m2 = some_multis(r, d2, 3, r.randint(1, 5))
        rows = lambda m: "%d %s" % (len(m), " ".join(str(v) for q in m for v in q))
        out.append("tensor %d %s %d %s %s %s" % (d1, rows(m1), d2, rows(m2), vec([r.uniform(-1, 1) for _ in m1 + m2]), vec([r.uniform(-1.5, 1.5) for _ in range(d1 + d2)])))
    ctx.conform(*MOD, out, label="bijectors, sigmoids, tensor products")


CHECKS = {"C12": (c12, ["drv_basis"]), "C13": (c13, ["drv_basis"]), "C14": (c14, ["drv_basis"]), "C24": (c24, ["drv_basis"])}
