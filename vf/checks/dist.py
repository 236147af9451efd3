"""Densities, samplers, training objectives and (adaptive) training (C16-C19)."""
from ..core import fl
from .maps import S, Opts, total, some_multis

MOD = ("drv_dist", "TraceDist", {})


class D(S):
    def den(self, nd, **kw):
        if not hasattr(self, "dn"): self.dn = {}
        id = 1 + max(list(self.dn) or [0]); self.dn[id] = dict(nd, **kw); return id

    def reset(self):
        self.dn = {}; return super().reset()

    def gauss(self, dim, mean=None, cov=None, lay=None):
        r = self.r
        mean = r.random() < 0.5 if mean is None else mean
        cov = r.random() < 0.6 if cov is None else cov
        id = self.den(dict(k="gauss", dim=dim, rows=dim))
        m = [r.uniform(-1.5, 1.5) for _ in range(dim)] if mean else []
        L = [[(r.uniform(0.4, 1.8) if i == j else r.uniform(-0.9, 0.9) if j < i else 0.0) for j in range(dim)] for i in range(dim)] if cov else []
        self.out.append("gauss %d %d %d %s %d %s %s" % (id, dim, bool(mean), " ".join(map(fl, m)), bool(cov), " ".join(fl(v) for row in L for v in row), lay or r.choice("LRS")))
        return id

    def pull(self, m, ref):
        id = self.den(dict(k="pull", dim=self.dn[ref]["dim"], rows=self.ob[m]["nin"], map=m, ref=ref))
        self.out.append("pull %d %d %d" % (id, m, ref)); return id

    def push(self, m, ref):
        id = self.den(dict(k="push", dim=self.dn[ref]["dim"], rows=self.ob[m]["nin"], map=m, ref=ref))
        self.out.append("push %d %d %d" % (id, m, ref)); return id

    def _dp(self, id, n):
        q = self.dn[id]
        if q["k"] == "pull": return self.pts(q["map"], n, True)
        return [[self.r.uniform(-2, 2) for _ in range(q["rows"])] for _ in range(n)]

    def dens(self, id, kinds=None, lays=None, n=2, f=False, rows=None):
        q = self.dn[id]
        x = self._dp(id, n)
        if rows is not None: x = [[0.5] * rows for _ in range(n)]
        d = q["rows"] if rows is None else rows
        ks = kinds or ("vgc" if q["k"] == "pull" else "vg")
        self.out.append("%s %d %s %s %d %d %s" % ("densf" if f else "dens", id, ks, lays or "".join(self.r.sample("EBRLSDijk", 3)), d, n, self._p(x)))
        return self

    def samp(self, id, n, lays=None):
        self.out.append("samp %d %d %d %s" % (id, n, self.r.randrange(1, 10**6), lays or "".join(self.r.sample("VGLRS", 3)))); return self

    def obj(self, id, den, d, ntr, nte, dimarg=0):
        tr = [[self.r.uniform(-1.8, 1.8) for _ in range(d)] for _ in range(ntr)]
        te = [[self.r.uniform(-1.8, 1.8) for _ in range(d)] for _ in range(nte)]
        self.out.append("obj %d %d %d %s %d %d %s %d %s" % (id, den, dimarg, self.r.choice("LRS"), d, ntr, self._p(tr), nte, self._p(te))); return self


TAME = {"norm": 1, "pos": "softplus", "nug": 0.25}      # maps fed with images of other maps: arguments outside the sampled box


def square(s, m, cont=1, cc=True, **kw):
    r = s.r
    def o(): return Opts(r, cont=cont, **({"quad": "cc"} if cc else {}), **kw)
    k = r.random()
    if k < 0.6: return s.rand_tri(0, m, o)
    if k < 0.75: return s.aff(m, m)
    kw.update(TAME)
    t1, t2 = s.rand_tri(0, m, o), s.aff(m, m)
    s.coeffs(t1)
    return s.comp([t1, t2] if r.random() < 0.5 else [t2, t1])


def amap(s, extra, m, cont=None, **kw):
    r = s.r; cont = r.randrange(4) > 0 if cont is None else cont
    def o(): return Opts(r, quad="cc", cont=int(cont), **kw)
    if extra == 0: return square(s, m, int(cont), **kw)
    k = r.random()
    if k < 0.2 and m == 1: return s.mono(extra + 1, o())
    if k < 0.35: return s.aff(m, m + extra)
    return s.rand_tri(extra, m, o)


def c16(ctx):
    r = ctx.rng; s = D(r)
    for rep in range(ctx.pick(150, 1200)):
        s.reset()
        dim = r.randint(1, 3)
        g = s.gauss(dim)
        s.dens(g, lays="EBRLSDijk" if rep < 6 else None, n=r.choice([1, 2, 3, 5]))
        if r.random() < 0.2: s.dens(g, n=0)
        if r.random() < 0.3: s.dens(g, rows=dim + r.choice([-1, 1, 2]) if dim > 1 else 3)
        kw = TAME if rep % 2 else {}
        m = amap(s, r.choice([0, 0, 0, 1, 2]), dim, **kw)
        if r.random() < 0.9: s.coeffs(m)
        p = s.pull(m, g)
        s.dens(p, lays="EBRLSDijk" if rep < 4 else None, n=r.choice([1, 2, 4]))
        if r.random() < 0.4: s.coeffs(m).dens(p, n=2)                      # the map is shared, not copied
        if s.ob[m]["nin"] == dim:
            q = s.push(m, g)
            s.coeffs(m); s.dens(q, kinds="v", lays="RLSiD", n=2, f=True)
            if kw: s.dens(q, n=1)
            if kw:                                                         # densities of densities
                m2 = square(s, dim, **kw); s.coeffs(m2)
                p2 = s.pull(m2, r.choice([p, g])); s.dens(p2, n=2)
        if r.random() < 0.25: s.pull(m, s.gauss(dim + 1)); s.push(m, s.gauss(dim + 1))
        if r.random() < 0.25 and s.ob[m]["nin"] != dim: s.push(m, g)
    for rep in range(ctx.pick(24, 120)):                                   # maps that contract or expand over many orders of magnitude
        s.reset(); dim = 1 + rep % 3; sc = 10.0 ** ((-1) ** (rep // 3) * r.uniform(0, 11))
        g = s.gauss(dim); m = s.aff(dim, dim, bias=False, scale=sc)
        q = s.push(m, g); s.dens(q, kinds="v", lays="RiS", n=2, f=True)
        p = s.pull(m, g)
        s.out.append("dens %d vg Lk %d 2 %s" % (p, dim, " ".join(fl(r.uniform(-1, 1) / sc) for _ in range(2 * dim))))
    for rep in range(ctx.pick(2, 8)):                                      # determinants far outside the range of doubles
        s.reset(); dim = r.choice([30, 45]); sc = r.choice([1e-6, 1e6])
        g = s.den(dict(k="gauss", dim=dim, rows=dim))
        L = [[(r.uniform(0.5, 1.5) if i == j else r.uniform(-0.1, 0.1) if j < i else 0.0) * sc for j in range(dim)] for i in range(dim)]
        s.out.append("gauss %d %d 0  1 %s L" % (g, dim, " ".join(fl(v) for row in L for v in row)))
        s.out.append("dens %d v Ri %d 2 %s" % (g, dim, " ".join(fl(r.uniform(-2, 2) * sc) for _ in range(2 * dim))))
    ctx.conform(*MOD, script=s.out, label="densities")


def c17(ctx):
    r = ctx.rng
    for threads in (1, 4):
        s = D(r)
        for rep in range(ctx.pick(12, 60)):
            s.reset()
            dim = r.randint(1, 3)
            g = s.gauss(dim, lay="L")
            s.samp(g, r.choice([1, 2, 7, 40])).samp(g, r.choice([500, 1000, 2000]))
            if r.random() < 0.3: s.samp(g, 0)
            m = square(s, dim, **TAME); s.coeffs(m)
            q = s.push(m, g); p = s.pull(m, g)
            for t in r.sample([q, p], 2): s.samp(t, r.choice([1, 3, 12]))
            if r.random() < 0.3: s.samp(g, 5); s.coeffs(m); s.samp(q, 5)
            if r.random() < 0.3:
                m2 = square(s, dim, **TAME); s.coeffs(m2); s.samp(s.push(m2, r.choice([p, q])), 4)
        ctx.conform(*MOD, script=s.out, env={"OMP_NUM_THREADS": str(threads)}, jobs=8 // threads, label="%d threads" % threads)


ALGS = ["LD_SLSQP", "LD_LBFGS", "LD_MMA", "LN_COBYLA", "LN_NELDERMEAD", "LD_CCSAQ", "LN_BOBYQA", "LD_VAR2", "LD_TNEWTON"]


def topts(alg, f=1e-10, x=1e-9, n=2000, frel=0.0, xrel=0.0, stop=float("-inf"), time=float("inf")):
    return "%s %s %s %s %s %d %s %s" % (alg, fl(frel), fl(f), fl(xrel), fl(x), n, fl(stop), fl(time))


def one_opt(r, alg):
    """Options of which one decides when training stops."""
    k = r.randrange(6); t = r.choice([1e-1, 1e-2, 1e-3, 1e-5])
    if k == 0: return topts(alg, t, 0, 4000, time=30)
    if k == 1: return topts(alg, 0, t, 4000, time=30)
    if k == 2: return topts(alg, 0, 0, 4000, frel=t, time=30)
    if k == 3: return topts(alg, 0, 0, 4000, xrel=t, time=30)
    if k == 4: return topts(alg, 0, 0, r.choice([2, 7, 20, 45]), time=30)
    return topts(alg, 1e-10, 1e-9, 400, stop=3 + r.choice([0.05, 0.2, 1.0, 4.0]), time=30)


def c18(ctx):
    r = ctx.rng; s = D(r)
    for rep in range(ctx.pick(40, 300)):
        s.reset()
        dim = r.randint(1, 2); extra = r.choice([0, 0, 1])
        tr = rep % 4 == 0
        m = amap(s, extra, dim, cont=True, **({"pos": "softplus"} if tr else {}))        # exp overflows at an optimizer's wild guesses
        if r.random() < 0.85: s.coeffs(m)
        nin = s.ob[m]["nin"]
        den = 0 if r.random() < 0.5 else s.gauss(dim, lay="L")
        n = 12 if tr else r.choice([1, 2, 5])
        s.obj(1, den, nin, n, r.choice([0, 1, 3]), 0 if nin == dim and r.random() < 0.5 else dim)
        s.out.append("objrun 1 %d" % m)
        nc = s.ob[m]["nc"]
        if nc:
            for wg in (1, 0):
                s.out.append("objcall 1 %d %d %s %d" % (m, nc, " ".join(fl(r.uniform(-1, 1) * a) for a in s.amp(m, 0.8)), wg))
        s.out.append("objrun 1 %d" % m)
        if tr and nc:
            s.out.append("train 1 %d %s" % (m, topts(r.choice(ALGS[:4]), 1e-6, 1e-6, r.choice([5, 60]))))
            s.out.append("objrun 1 %d" % m)
        if rep % 5 == 0: s.obj(2, s.gauss(dim + 1, lay="L"), nin, 2, 2); s.out.append("objrun 2 %d" % m)
    for rep in range(ctx.pick(27, 150)):
        s.reset(); m = amap(s, r.choice([0, 1]), r.randint(1, 2), cont=True)
        if not s.ob[m]["nc"]: continue
        if r.random() < 0.7: s.coeffs(m)
        s.out.append("qtrain %d %d 0 %s" % (m, r.randrange(1000), topts(ALGS[rep % len(ALGS)], n=r.choice([2000, 2000, 3]))))
    for rep in range(ctx.pick(90, 500)):                                   # each stopping option on its own
        s.reset(); m = amap(s, r.choice([0, 1]), r.randint(1, 2), cont=True)
        if not s.ob[m]["nc"]: continue
        if r.random() < 0.7: s.coeffs(m)
        alg = "NO_SUCH" if rep % 30 == 7 else ALGS[rep % len(ALGS)]
        s.out.append("qtrain %d %d 0 %s" % (m, r.randrange(1000), one_opt(r, alg)))
    for rep in range(ctx.pick(2, 6)):                                      # the time limit
        s.reset(); m = s.aff(2, 2)
        m = s.rand_tri(0, 2, lambda: Opts(r, cont=1)); s.coeffs(m)
        s.out.append("qtrain %d %d 3000 %s" % (m, r.randrange(1000), topts("LN_NELDERMEAD", 0, 0, 400, time=0.1)))
    ctx.conform(*MOD, script=s.out, label="objectives")


def down(r, d, n):
    """A random downward closed set of n multi-indices."""
    ms = [tuple([0] * d)]
    while len(ms) < n:
        b = list(r.choice(ms)); j = r.randrange(d); b[j] += 1; b = tuple(b)
        if b not in ms and all(b[i] == 0 or b[:i] + (b[i] - 1,) + b[i + 1:] in ms for i in range(d)): ms.append(b)
    return ms


def c19(ctx):
    r = ctx.rng; s = D(r)
    for rep in range(ctx.pick(60, 500)):
        s.reset()
        out = r.randint(1, 3); ind = out + r.choice([0, 0, 1, 2])
        o = Opts(r, quad="cc", npts=3)
        sets = [down(r, ind - out + j + 1, r.choice([1, 1, 2, 3, 4])) for j in range(out)]
        n0 = sum(map(len, sets))
        pat, mx = r.choice([1, 2, 3, 10]), n0 + r.choice([0, 1, 3, 5, 8])
        if r.random() < 0.1: mx = max(0, n0 - 1)
        md = [] if r.random() < 0.5 else [r.choice([1, 2, 2, 3]) for _ in range(ind)]
        k = r.random(); steps = max(1, mx - n0 + 2)
        if k < 0.5: errs = [10.0 - 0.5 * i for i in range(steps + 2)]
        elif k < 0.8: errs = [round(r.uniform(0, 10), 3) for _ in range(steps + 2)]
        else: errs = [5.0] + [r.choice([5.0, 4.0, 6.0]) for _ in range(steps + 2)]
        bad = r.random(); inn, oo = ind, out
        if bad < 0.05: inn += 1
        elif bad < 0.1: oo += 1
        elif bad < 0.15 and md: md = md[:-1]
        elif bad < 0.2 and out > 1: sets = sets[:-1]
        alg = r.choice(["LD_SLSQP", "LD_LBFGS"])
        s.out.append("adapt %s %s %d %d %d %s %d %d %s %d %d %s %d %d" % (o, topts(alg), pat, mx, len(md), " ".join(map(str, md)), inn, len(sets),
                     " ".join("%d %s" % (len(q[0]), s._rows(q)) for q in sets), oo, len(errs), " ".join(map(fl, errs)), r.randrange(1000), r.random() < 0.1))
    ctx.conform(*MOD, script=s.out, label="adaptive training")


CHECKS = {"C16": (c16, ["drv_dist"]), "C17": (c17, ["drv_dist"]), "C18": (c18, ["drv_dist"]), "C19": (c19, ["drv_dist"])}
