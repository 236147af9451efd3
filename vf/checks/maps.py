"""Maps: coefficients, structure, values, derivatives, inverses, serialization (C05-C12, C15, C20-C22, C25)."""
import itertools
from .. import tlc
from .selfcheck import selfcheck
from ..core import fl

MOD = ("drv_map", "TraceMap", {})
BASES, POSES, QUADS = ("prob", "phys", "hf"), ("softplus", "exp"), ("as", "cc", "acc")
INF = float("inf")


class Opts:
    def __init__(self, r, **kw):
        self.basis = r.choice(BASES)
        self.norm = r.randrange(2)
        self.lb, self.ub = r.choice([(-INF, INF), (-INF, INF), (-1.5, 2.0), (-2.25, 1.25), (-INF, 1.5), (-1.75, INF)])
        self.pos = r.choice(POSES)
        self.quad = r.choice(QUADS + ("cc", "cc"))
        self.tol = 1e-10
        self.rtol = None                       # the same as tol
        self.maxsub, self.minsub = 30, r.choice([0, 0, 2])
        self.npts = r.choice([3, 4, 5, 7, 8, 9])
        self.cont = r.randrange(2)
        self.nug = r.choice([0.0, 0.0, 0.25, 1e-3])
        for k, v in kw.items():
            if not hasattr(self, k): raise KeyError(k)
            setattr(self, k, v)
        if self.quad == "acc": self.npts, self.minsub = r.choice([4, 5, 6]), 0

    @property
    def linear(self):
        return self.lb > -INF or self.ub < INF

    def __str__(self):
        return " ".join(map(str, [self.basis, self.norm, fl(self.lb), fl(self.ub), self.pos, self.quad, fl(self.tol), fl(self.tol if self.rtol is None else self.rtol), self.maxsub, self.minsub,
                                  self.npts, self.cont, fl(self.nug)]))


def total(d, p):
    return [m for m in itertools.product(range(p + 1), repeat=d) if sum(m) <= p]


def some_multis(r, d, p, n):
    """n distinct multi-indices of total order <= p, including one that moves the last variable."""
    t = total(d, p)
    ms = set(r.sample(t, min(n, len(t))))
    if not any(m[-1] for m in ms):
        ms.add(r.choice([m for m in t if m[-1] == 1] or t))
    ms = list(ms); r.shuffle(ms)
    return ms


class S:
    """A script under construction, with what is known about the objects in it."""
    def __init__(self, r):
        self.r, self.out, self.ob = r, [], {}

    def reset(self):
        self.out.append("reset"); self.ob = {}; return self

    def fresh(self):
        return 1 + max([i for i in self.ob if i < 100] or [0])

    def _rows(self, ms):
        return "%d %s" % (len(ms), " ".join(str(v) for m in ms for v in m))

    def mono(self, d, o=None, p=3, n=None, ms=None, id=None, op="mono"):
        r = self.r
        id = id or self.fresh()
        o = o or Opts(r)
        ms = ms or some_multis(r, d, p, n or r.randint(2, 7))
        self.out.append("%s %d %s %d %s" % (op, id, o, d, self._rows(ms)))
        self.ob[id] = dict(nin=d, nout=1, nc=len(ms), cont=bool(o.cont), o=[o], k="mono", ch=[], ms=ms)
        return id

    def direct(self, d, **kw):
        """A component from its constructor, without coefficients."""
        r = self.r
        if r.randrange(3) == 0: o = Opts(r, basis="phys", lb=-1.5, ub=2.0, pos="softplus", quad="as", **kw)
        else: o = Opts(r, basis=r.choice(["prob", "hf"]), lb=-INF, ub=INF, pos=r.choice(POSES), quad=r.choice(["cc", "as"]), **kw)
        return self.mono(d, o, op="dmono")

    def exp(self, d, od, o=None, p=3, n=None, id=None):
        r = self.r; id = id or self.fresh(); o = o or Opts(r)
        ms = some_multis(r, d, p, n or r.randint(1, 6))
        self.out.append("exp %d %d %s %d %s" % (id, od, o, d, self._rows(ms)))
        self.ob[id] = dict(nin=d, nout=od, nc=od * len(ms), cont=True, o=[o], k="exp", ch=[], ms=ms)
        return id

    def aff(self, r_, c, bias=True, fun=False, id=None, scale=1.0):
        """A well-conditioned right block; r_ = 0: translation of dimension c."""
        r = self.r; id = id or self.fresh()
        A = [[r.uniform(-1, 1) for _ in range(c)] for _ in range(r_)]
        if not fun:
            for i in range(r_): A[i][c - r_ + i] += r.choice([-1, 1]) * (1.5 + r_)
        A = [[v * scale for v in row] for row in A]
        nb = (r_ or c) if bias or not r_ else 0
        b = [r.uniform(-1, 1) for _ in range(nb)]
        self.out.append("%s %d %d %d %s %d %s" % ("afun" if fun else "aff", id, r_, c if r_ else 0, " ".join(fl(v) for row in A for v in row), nb, " ".join(map(fl, b))))
        self.ob[id] = dict(nin=c, nout=r_ or c, nc=0, cont=True, o=[], k="fun" if fun else "aff", ch=[])
        return id

    def lin(self, A, b, fun=False, id=None):
        """An affine map with the given matrix and bias (either may be empty)."""
        id = id or self.fresh(); n = len(A)
        self.out.append("%s %d %d %d %s %d %s" % ("afun" if fun else "aff", id, n, len(A[0]) if A else 0, " ".join(fl(v) for row in A for v in row), len(b), " ".join(map(fl, b))))
        self.ob[id] = dict(nin=len(A[0]) if A else len(b), nout=n or len(b), nc=0, cont=True, o=[], k="fun" if fun else "aff", ch=[])
        return id

    def ident(self, i, o, id=None):
        id = id or self.fresh()
        self.out.append("ident %d %d %d" % (id, i, o))
        self.ob[id] = dict(nin=i, nout=o, nc=0, cont=True, o=[], k="id", ch=[])
        return id

    def cont_(self, kind, ch, move, maxc=0, id=None):
        id = id or self.fresh()
        self.out.append("%s %d %d %s %d%s" % (kind, id, len(ch), " ".join(map(str, ch)), move, " %d" % maxc if kind == "comp" else ""))
        c = [self.ob[i] for i in ch]
        self.ob[id] = dict(nin=c[-1]["nin"] if kind == "tri" else c[0]["nin"], nout=sum(x["nout"] for x in c) if kind == "tri" else c[0]["nin"],
                           nc=sum(x["nc"] for x in c), cont=all(x["cont"] for x in c), o=[o for x in c for o in x["o"]], k=kind, ch=list(ch))
        return id

    def tri(self, ch, move=0, id=None): return self.cont_("tri", ch, move, id=id)
    def comp(self, ch, move=0, maxc=0, id=None): return self.cont_("comp", ch, move, maxc, id)

    def sum(self, f, g, id=None):
        id = id or self.fresh()
        self.out.append("sum %d %d %d" % (id, f, g))
        a, b = self.ob[f], self.ob[g]
        self.ob[id] = dict(nin=a["nin"] + 1, nout=1, nc=b["nc"], cont=b["cont"], o=a["o"] + b["o"], k="sum", ch=[g])
        return id

    def single(self, dim, act, c, id=None):
        id = id or self.fresh()
        self.out.append("single %d %d %d %d" % (id, dim, act, c))
        b = self.ob[c]
        self.ob[id] = dict(nin=dim, nout=dim, nc=b["nc"], cont=b["cont"], o=b["o"], k="tri", ch=[c])
        return id

    def ctri(self, din, dout, order, o=None, id=None):
        id = id or self.fresh(); o = o or Opts(self.r)
        self.out.append("ctri %d %d %d %d %s" % (id, din, dout, order, o))
        for i in range(dout):
            d = din - dout + i + 1
            self.ob[id * 10 + 1 + i] = dict(nin=d, nout=1, nc=len(total(d, order)), cont=bool(o.cont), o=[o], k="mono", ch=[], ms=total(d, order))
        self.ob[id] = dict(nin=din, nout=dout, nc=sum(self.ob[id * 10 + 1 + i]["nc"] for i in range(dout)), cont=bool(o.cont), o=[o], k="tri",
                           ch=[id * 10 + 1 + i for i in range(dout)])
        return id

    # ---- coefficients
    def amp(self, id, scale=1.0):
        """Coefficient magnitudes that keep derivatives moderate: high orders of unnormalized families are scaled down."""
        b = self.ob[id]
        if b["k"] in ("mono", "exp"):
            o = b["o"][0]; a = []
            for m in b["ms"] * (b["nout"] if b["k"] == "exp" else 1):
                f = 1.0
                for k in m:
                    for j in range(2, k + 1): f /= (1.7 if o.norm or o.basis == "hf" else j * 1.3)
                    if o.basis == "phys" and not o.norm: f /= 2.0 ** k
                a.append(scale * f)
            return a
        return [x for c in b["ch"] for x in self.amp(c, scale)]

    def coeffs(self, id, how=None, scale=0.8):
        b = self.ob[id]
        if b["nc"] == 0: return self
        v = [self.r.uniform(-1, 1) * a for a in self.amp(id, scale)]
        self.out.append("%s %d %d %s" % (how or self.r.choice(["setc", "setce"]), id, len(v), " ".join(map(fl, v))))
        return self

    # ---- computations
    def box(self, id):
        """Where points are drawn; adaptive rules with kinks are kept off the kinks."""
        o = self.ob[id]["o"]
        lo, hi = -2.0, 2.2
        for q in o:
            if q.quad != "cc" and q.linear:
                lo, hi = max(lo, q.lb), min(hi, q.ub)
        return lo, hi

    def pts(self, id, n, inside=False):
        lo, hi = self.box(id) if inside else (-2.0, 2.2)
        return [[self.r.uniform(lo, hi) for _ in range(self.ob[id]["nin"])] for _ in range(n)]

    def _p(self, pts):
        return " ".join(fl(v) for p in pts for v in p)

    def kinds(self, id, ks):
        b = self.ob[id]
        ok = "egc" if b["k"] in ("exp", "fun") else ("egclLI" if b["cont"] else "egclLI")
        return "".join(k for k in ks if k in ok)

    def run(self, id, kinds, lays=None, n=2, pts=None, inside=None, op="run"):
        b = self.ob[id]
        kinds = self.kinds(id, kinds)
        if not kinds: return self
        x = pts or self.pts(id, n, inside if inside is not None else any(k in kinds for k in "gcLI" + ("" if b["cont"] else "l")))
        s = [[self.r.uniform(-2, 2) for _ in range(b["nout"])] for _ in x]
        self.out.append("%s %d %s %s %d %d %s %d %d %s" % (op, id, kinds, lays or self.r.choice("RLESBijk"), b["nin"], len(x), self._p(x), b["nout"], len(x), self._p(s)))
        return self

    def mirror(self, id, lays=None, n=2, pts=None):
        b = self.ob[id]
        x = pts or self.pts(id, n)
        self.out.append("mirror %d %s %d %d %s" % (id, lays or self.r.choice("RLESBijk"), b["nin"], len(x), self._p(x)))
        return self

    def inv(self, id, r_, lays=None, n=2):
        b = self.ob[id]; d = b["nin"] - b["nout"]
        x = [[self.r.uniform(-1.5, 1.5) for _ in range(d)] for _ in r_]
        self.out.append("inv %d %s %d %d %s %d %d %s" % (id, lays or self.r.choice("RLESBijk"), d, len(x), self._p(x), b["nout"], len(r_), self._p(r_)))
        return self

    def batch(self, id, kinds, n):
        b = self.ob[id]
        kinds = "".join(k for k in kinds if k in "iz" or k in self.kinds(id, kinds))
        x = self.pts(id, n); s = [[self.r.uniform(-1, 1) for _ in range(b["nout"])] for _ in x]
        self.out.append("batch %d %s %d %d %s %d %d %s" % (id, kinds, b["nin"], n, self._p(x), b["nout"], n, self._p(s)))
        return self

    # ---- random structures
    def rand_tri(self, extra, m, o=None, blocks=False):
        """A triangular stack with `extra` leading inputs and m outputs."""
        r = self.r; ch, d = [], extra
        while d < extra + m:
            left = extra + m - d
            k = r.random()
            if blocks and k < 0.25 and (ch or True):
                w = r.randint(1, left); ch.append(self.aff(w, d + w)); d += w
            elif blocks and k < 0.35:
                w = r.randint(1, left); ch.append(self.ident(d + w, w)); d += w
            elif blocks and k < 0.5 and d >= 1:
                s = self.exp(d, 1, self.smallopts(), n=2, p=2); g = self.mono(2, o() if o else None, n=3)
                c = self.sum(s, g); self.coeffs(s); ch.append(c); d += 1
            elif blocks and k < 0.6 and left >= 2:
                t = self.rand_tri(d, 2, o); ch.append(t); d += 2
            else:
                ch.append(self.mono(d + 1, o() if o else None, n=r.randint(2, 5))); d += 1
        return self.tri(ch, 0)

    def smallopts(self):
        return Opts(self.r, quad="cc", npts=5)


def all_combos():
    for b in BASES:
        for lin in (0, 1):
            for p in POSES:
                for q in QUADS:
                    yield b, lin, p, q


BNDS = [(-1.5, 2.0), (-2.25, 1.25), (-INF, 1.5), (-1.75, INF)]


def combo_opts(r, b, lin, p, q, **kw):
    lb, ub = r.choice(BNDS) if lin else (-INF, INF)
    return Opts(r, basis=b, lb=lb, ub=ub, pos=p, quad=q, **kw)


def c11(ctx):
    """The value of a monotone component, for every option combination."""
    r = ctx.rng; s = S(r)
    for _ in range(ctx.pick(3, 40)):
        for b, lin, p, q in all_combos():
            s.reset()
            d = r.choice([1, 1, 2, 3, 4])
            i = s.mono(d, combo_opts(r, b, lin, p, q), p=r.choice([1, 2, 3, 4]))
            s.run(i, "e")                                      # zero coefficients
            s.coeffs(i).run(i, "e", n=4, inside=False)
            s.coeffs(i, scale=1.6).run(i, "e", n=3, inside=False)
            s.run(i, "e", pts=[[r.choice([0.0, 1.0, -1.0, 3.5, -3.5]) for _ in range(d)] for _ in range(2)])
    for _ in range(ctx.pick(30, 400)):                         # loose adaptive tolerances, quadrature sizes, high orders
        s.reset()
        o = Opts(r, quad=r.choice(QUADS), tol=r.choice([1e-3, 1e-5, 1e-6]), npts=r.choice([2, 3, 10, 17, 24]) if r.random() < 0.5 else 5)
        if o.quad != "cc" and o.npts < 4: o.npts = 5
        i = s.mono(r.choice([1, 2]), o, p=r.choice([2, 5, 7]), n=5)
        s.coeffs(i, scale=0.5).run(i, "e", n=4, inside=False)
    ctx.conform(*MOD, s.out, label="monotone component values")



# ---- C05: coefficients -------------------------------------------------------------------------
COEFF_CFG = {   # how the model's objects are made on the real code: leaf id -> (d, number of terms)
    "Flat": dict(leaf={1: (1, 2), 2: (2, 3)}, buf={1: 2, 2: 5}),
    "Nest": dict(leaf={1: (1, 2), 2: (2, 1)}, buf={1: 2, 2: 3}),
    "Comp": dict(leaf={1: (1, 2), 2: (1, 2)}, buf={1: 2, 2: 4}),
    "Sum": dict(leaf={1: (1, 2), 2: (2, 3)}, buf={1: 3}),
    "Shared": dict(leaf={1: (1, 2)}, buf={1: 2, 2: 2}),
    "Triple": dict(leaf={1: (1, 1), 2: (2, 2), 3: (3, 2)}, buf={1: 2, 2: 5, 3: 2}),
}


def coeff_model(ctx):
    r = ctx.rng; out = []
    for name, cfg in COEFF_CFG.items():
        res = ctx.model("CoeffMC", name, constants={"Cfg": "<- " + name}, invariants=["InvBounds", "InvShare"], action_constraint="Emit", view="View")
        tests = sorted(set(tlc.printed(res["out"], "TEST")))
        ctx.notes["coefficient_transitions_" + name] = len(tests)
        cap = ctx.pick(260, 10 ** 9)
        if len(tests) > cap: tests = r.sample(tests, cap)
        for t in tests:
            cmds = [c.strip().strip('"') for c in t.strip("<>").strip().split('", "')]
            s = S(r).reset(); nc = {}
            for i, (d, n) in cfg["leaf"].items():
                if name == "Sum" and i == 1: s.exp(1, 1, Opts(r, quad="cc", npts=3), n=2, p=2, id=1); nc[1] = s.ob[1]["nc"]
                else: s.mono(d, Opts(r, quad="cc", npts=3), id=i, ms=r.sample(total(d, 3), n)); nc[i] = n
            for b, n in cfg["buf"].items():
                s.out.append("buf %d %d %s" % (b, n, " ".join(fl(r.uniform(-1, 1)) for _ in range(n))))
            for c in cmds:
                w = c.split()
                if w[0] == "SET":
                    s.out.append("%s %s %s %s" % (r.choice(["setc", "setce"]), w[1], w[2], " ".join(fl(r.uniform(-1, 1)) for _ in range(int(w[2])))))
                elif w[0] == "WRAP": s.out.append("%s %s %s" % (r.choice(["wrap", "wrape"]), w[1], w[2]))
                else:
                    s.out.append(c)
                    if w[0] in ("tri", "comp"): nc[int(w[1])] = sum(nc[int(x)] for x in w[3:3 + int(w[2])])
                    if w[0] == "sum": nc[int(w[1])] = nc[int(w[3])]
            # write through every array and every object: the others must see exactly their part
            for b, n in cfg["buf"].items():
                s.out.append("bpoke %d %d %s" % (b, r.randrange(n), fl(r.uniform(-1, 1))))
            for i, n in nc.items():
                s.out.append("%s %d %d %s" % (r.choice(["poke", "cmap"]), i, r.randrange(n), fl(r.uniform(-1, 1))))
            out += s.out
    return out


def coeff_histories(ctx, n):
    """Random histories over deeper structures, with evaluations that must use the coefficients in force."""
    r = ctx.rng; out = []
    for _ in range(n):
        s = S(r).reset()
        o = lambda: Opts(r, quad="cc", npts=r.choice([3, 4, 5]))
        kind = r.randrange(5)
        if kind in (1, 4): o = lambda: Opts(r, quad="cc", npts=r.choice([3, 4, 5]), pos="softplus")      # nested exponentials overflow
        if kind == 0: top = s.rand_tri(r.randrange(2), r.randint(1, 3), o, blocks=True)
        elif kind == 1:
            d = r.randint(1, 2); n_ = r.randint(1, 3)
            top = s.comp([s.rand_tri(0, d, o, blocks=r.random() < .5) for _ in range(n_)], 0, r.randrange(0, 4))
        elif kind == 2: top = s.ctri(r.randint(2, 3), r.randint(1, 2), r.randint(1, 2), o())
        elif kind == 3:
            f = s.exp(2, r.randint(1, 2), o(), n=2); g = s.mono(s.ob[f]["nout"] + 1, o(), n=3); top = s.sum(f, g)
        else:
            a = s.mono(1, o(), n=3); b = s.mono(2, o(), n=3); t = s.tri([a, b], r.randrange(2)); u = s.ctri(2, 2, 1, o()); top = s.comp([t, u], r.randrange(2), r.randrange(3))
        ids = [i for i in s.ob]
        nb = 0
        for _ in range(r.randint(4, 12)):
            i = r.choice(ids + [top, top]); n_ = s.ob[i]["nc"]
            k = r.random()
            if k < 0.25: s.coeffs(i)
            elif k < 0.3 and n_: s.out.append("setc %d %d %s" % (i, n_ + r.choice([-1, 1, 2]) , "0x1p-1 " * (n_ + 3)))
            elif k < 0.5 and n_:
                nb += 1; w = n_ if r.random() < 0.85 else n_ + 1
                s.out.append("buf %d %d %s" % (nb, w, " ".join(fl(r.uniform(-.5, .5)) for _ in range(w))))
                s.out.append("%s %d %d" % (r.choice(["wrap", "wrape", "setcb"]), i, nb))
            elif k < 0.62 and nb: s.out.append("bpoke %d 0 %s" % (r.randint(1, nb), fl(r.uniform(-.5, .5))))
            elif k < 0.75 and n_: s.out.append("%s %d %d %s" % (r.choice(["poke", "cmap"]), i, r.randrange(n_), fl(r.uniform(-.5, .5))))
            elif k < 0.8 and len(s.ob) < 12 and s.ob[i]["k"] in ("mono", "tri") and s.ob[i]["nin"] >= s.ob[i]["nout"]:
                ids.append(s.tri([i], r.randrange(2) if s.ob[i]['k'] == 'mono' else 0))
            else: s.run(i, r.choice(["e", "e", "ec"]), n=1, inside=True)
        s.run(top, "e", n=1, inside=True)
        out += [fix_counts(l) for l in s.out]
    return out


def fix_counts(l):
    """setc ID N values: exactly N values."""
    w = l.split()
    return " ".join(w[:3] + w[3:3 + int(w[2])]) if w[0] in ("setc", "setce") else l


def c05(ctx):
    ctx.conform(*MOD, coeff_model(ctx), label="model transitions")
    ctx.conform(*MOD, coeff_histories(ctx, ctx.pick(120, 1500)), label="random histories")


# ---- C06: triangular maps -----------------------------------------------------------------------
def c06(ctx):
    r = ctx.rng; s = S(r)
    for _ in range(ctx.pick(45, 500)):
        s.reset()
        o = lambda: Opts(r, quad=r.choice(["cc", "cc", "cc", "as"]), nug=r.choice([0.0, 0.05]))
        t = s.rand_tri(r.choice([0, 0, 1, 2]), r.randint(1, 5), o, blocks=r.random() < 0.6)
        if r.random() < 0.4 and s.ob[t]["nout"] <= 3:               # nested stacks
            d = s.ob[t]["nin"]
            t = s.tri([t, s.mono(d + 1, o(), n=3)] if r.random() < .5 else [t, s.rand_tri(d, r.randint(1, 2), o)], 0)
        s.coeffs(t)
        s.run(t, "eglcLI", n=2)
        s.mirror(t, lays=r.choice("RLESBijkF") + r.choice("RijF"), n=2)
    for _ in range(ctx.pick(12, 80)):                                 # stacks that do not fit
        s.reset()
        ch = [s.mono(r.randint(1, 3), Opts(r, quad="cc"), n=2) for _ in range(r.randint(1, 3))] + [s.aff(1, r.randint(1, 3))]
        r.shuffle(ch)
        s.out.append("tri 50 %d %s %d" % (len(ch), " ".join(map(str, ch)), r.randrange(2)))
    ctx.conform(*MOD, s.out, label="triangular maps")


# ---- C07: compositions ---------------------------------------------------------------------------
def layer(s, d, o):
    r = s.r; k = r.random()
    if k < 0.2: return s.aff(d, d, bias=r.random() < .7, scale=1 / (1.2 + d))
    if k < 0.28: return s.aff(0, d)
    if k < 0.34: return s.ident(d, d)
    return s.rand_tri(0, d, o, blocks=r.random() < 0.2)


def c07(ctx):
    r = ctx.rng; s = S(r)
    o = lambda: Opts(r, quad="cc", npts=r.choice([3, 4, 5]), nug=r.choice([0.0, 0.1]))
    deep = lambda: Opts(r, quad="cc", npts=r.choice([3, 4, 5]), nug=r.choice([0.0, 0.1]), pos="softplus")      # nested exponentials overflow
    for n in range(1, ctx.bound(7, 10)):
        for maxc in range(0, n + 2):
            for _ in range(ctx.pick(1, 6)):
                s.reset()
                d = r.choice([1, 1, 2, 2, 3]) if n < 5 else r.choice([1, 2])
                ch = [layer(s, d, o if n < 4 else deep) for _ in range(n)]
                if not any(s.ob[c]["nc"] for c in ch): ch[-1] = s.rand_tri(0, d, o)
                c = s.comp(ch, 0, maxc)
                s.coeffs(c, scale=0.35 if n > 3 else 0.6)
                s.run(c, "eglcLI", n=2, pts=[[r.uniform(-1, 1) for _ in range(d)] for _ in range(2)])
                if n <= 4: s.mirror(c, n=2, pts=[[r.uniform(-1, 1) for _ in range(d)] for _ in range(2)])
    for _ in range(ctx.pick(8, 60)):                                  # compositions of compositions and stacks of compositions
        s.reset()
        d = r.choice([1, 2])
        a = s.comp([layer(s, d, o) for _ in range(r.randint(1, 3))], 0, r.randrange(4))
        if r.random() < 0.5: t = s.comp([a, layer(s, d, o), s.rand_tri(0, d, o)], 0, r.randrange(4))
        else: t = s.tri([a, s.mono(d + 1, o(), n=3)], 0)
        s.coeffs(t, scale=0.5)
        s.run(t, "eglcLI", n=2, pts=[[r.uniform(-1, 1) for _ in range(s.ob[t]["nin"])] for _ in range(2)])
    for _ in range(ctx.pick(8, 40)):                                  # layers that do not fit
        s.reset()
        ch = [s.aff(d, d) if r.random() < .5 else s.rand_tri(r.choice([0, 0, 1]), d, o) for d in [r.randint(1, 2) for _ in range(r.randint(1, 3))]]
        s.out.append("comp 90 %d %s 0 %d" % (len(ch), " ".join(map(str, ch)), r.randrange(3)))
    ctx.conform(*MOD, s.out, label="compositions and checkpoint limits")


# ---- C08, C09: derivatives -------------------------------------------------------------------------
def every_structure(s, o, what, npts=2):
    """One object of every kind, with coefficients, run for the given quantities."""
    r = s.r
    s.reset(); t = s.rand_tri(r.choice([0, 1, 2]), r.randint(1, 3), o, blocks=True); s.coeffs(t).run(t, what, n=npts)
    s.reset(); d = r.choice([1, 2]); c = s.comp([layer(s, d, o) for _ in range(r.randint(1, 3))] + [s.rand_tri(0, d, o)], 0, r.randrange(4))
    s.coeffs(c, scale=0.5).run(c, what, pts=[[r.uniform(-1, 1) for _ in range(d)] for _ in range(npts)])
    s.reset(); d = r.randint(1, 3); e = s.exp(d, r.randint(1, 3), o()); s.coeffs(e).run(e, what, n=npts)
    f = s.exp(d, r.randint(1, 2), Opts(r, quad="cc"), n=3, p=2); s.coeffs(f, scale=0.5)
    g = s.mono(s.ob[f]["nout"] + 1, Opts(r, quad="cc"), n=4); u = s.sum(f, g); s.coeffs(u).run(u, what, n=npts)
    s.reset(); rr = r.randint(1, 3); a = s.aff(rr, rr + r.randrange(3), bias=r.random() < .7); s.run(a, what, n=npts)
    b = s.aff(0, 2); s.run(b, what, n=npts); i = s.ident(3, r.randint(1, 3)); s.run(i, what, n=npts)
    z = s.aff(2, 3, fun=True); s.run(z, what, n=npts)
    s.reset(); dim = r.randint(2, 4); act = r.randint(1, dim); m = s.mono(act, o(), n=3); q = s.single(dim, act, m); s.coeffs(q).run(q, what, n=npts)
    s.reset(); c = s.ctri(r.randint(2, 3), r.randint(1, 2), r.randint(1, 2), Opts(r, quad=r.choice(["cc", "cc", "as"]))); s.coeffs(c).run(c, what, n=npts)


def derivs(what):
    def f(ctx):
        r = ctx.rng; s = S(r)
        for _ in range(ctx.pick(2, 25)):
            for b, lin, p, q in all_combos():
                for cont in (0, 1):
                    if not ctx.thorough and r.random() < 0.25: continue
                    s.reset()
                    i = s.mono(r.choice([1, 2, 3]), combo_opts(r, b, lin, p, q, cont=cont), p=r.choice([2, 3, 4]), n=r.randint(2, 6))
                    s.coeffs(i).run(i, what, lays=r.choice("RLESB") + r.choice("ijk"), n=2)
        selfcheck(ctx, ctx.bound(150, 1500))
        o = lambda: Opts(r, quad=r.choice(["cc", "cc", "cc", "as"]))
        for _ in range(ctx.pick(5, 60)):
            every_structure(s, o, what)
        ctx.conform(*MOD, s.out, label="derivatives " + what)
    return f


# ---- C10: monotonicity and inverses ------------------------------------------------------------------
def c10(ctx):
    r = ctx.rng; s = S(r)
    for _ in range(ctx.pick(2, 25)):
        for b, lin, p, q in all_combos():
            s.reset()
            d = r.choice([1, 1, 2, 3])
            # rules that resolve the integrand: a coarse rule is not monotone by itself
            i = s.mono(d, combo_opts(r, b, lin, p, q, npts=r.choice([9, 10]), nug=r.choice([0.0, 0.02, 0.3])), p=r.choice([1, 2]), n=r.randint(2, 4))
            s.coeffs(i, scale=0.6)
            s.mirror(i, lays="".join(r.sample("RLESBijkF", 2)), n=3)
            if q != "cc" or not lin:
                head = [r.uniform(-1.5, 1.5) for _ in range(d - 1)]
                xs = sorted(r.uniform(-1.8, 1.8) for _ in range(7))
                s.out.append("line %d R %d %d %s" % (i, d, len(xs), s._p([head + [x] for x in xs])))
    for _ in range(ctx.pick(12, 150)):                                 # far targets, and values shared by one conditioning point
        s.reset()
        d = r.choice([1, 2, 3])
        i = s.mono(d, Opts(r, quad="cc", npts=9, lb=-INF, ub=INF, nug=r.choice([0.1, 0.5])), p=1, n=2)
        s.coeffs(i, scale=0.5)
        n = r.randint(1, 4)
        s.inv(i, [[r.choice([r.uniform(-1, 1), r.uniform(-30, 30), 0.0])] for _ in range(n)], n=n)
        s.mirror(i, lays="RF", pts=[[r.uniform(-1, 1) for _ in range(d - 1)] + [r.choice([-12.0, 9.0, 1e-9, 0.0])] for _ in range(2)])
    for _ in range(ctx.pick(15, 150)):                                 # inverses of every structure
        s.reset()
        o = lambda: Opts(r, quad=r.choice(["cc", "cc", "as"]), npts=9, nug=r.choice([0.0, 0.1]))
        t = s.rand_tri(r.choice([0, 1, 2]), r.randint(1, 3), o, blocks=True); s.coeffs(t, scale=0.5)
        s.mirror(t, lays="".join(r.sample("RLESBijkF", 2)), n=2)
        a = s.aff(r.randint(1, 3), 3, bias=r.random() < .7); s.mirror(a, lays="".join(r.sample("RLESBijkF", 2)), n=3)
    ctx.conform(*MOD, s.out, label="inverses")


# ---- C15: serialization --------------------------------------------------------------------------------
def c15(ctx):
    r = ctx.rng; s = S(r)
    for k in range(ctx.pick(70, 700)):
        s.reset()
        o = lambda: Opts(r)
        kind = r.randrange(7)
        if kind == 0: ids = [s.mono(r.randint(1, 3), o())]
        elif kind == 5: ids = [s.direct(r.randint(1, 3))]
        elif kind == 6: ids = [s.tri([s.direct(1), r.choice([s.direct, s.mono])(2)], 0), s.direct(1)]
        elif kind == 1: ids = [s.rand_tri(r.randrange(2), r.randint(1, 3), o)]
        elif kind == 2: t = s.rand_tri(0, 2, o); ids = [s.tri([t, s.mono(3, o(), n=3)], 0)]
        elif kind == 3: ids = [s.ctri(r.randint(2, 3), r.randint(1, 2), r.randint(1, 2), o())]
        else: ids = [s.mono(2, o()), s.rand_tri(0, 2, o), s.mono(1, o())]
        given = [i for i in ids if r.random() < (0.4 if kind > 4 else 0.85)]
        for i in given: s.coeffs(i)
        via = r.choice(["member", "archive"])
        for i in ids: s.out.append("save %d f %s" % (i, via))
        if r.random() < 0.5: s.coeffs(ids[0])                          # later changes do not reach the saved copy
        new = [200 + j for j in range(len(ids))]
        s.out.append("load f %s %d %s" % (via, len(ids), " ".join("%d %d" % (n, j + 1) for j, n in enumerate(new))))
        for n, i in zip(new, ids):
            clone(s, n, i)
            s.run(n, "egl", n=2)
            if r.random() < 0.4: s.mirror(n, n=1)
            # (adaptive rules refine by the value alone: with zero coefficients their gradients are those of the coarsest rule)
            if r.random() < 0.4 and (i in given or all(q.quad == "cc" for q in s.ob[i]["o"])): s.run(n, "cLI", n=1)
        for n in new: s.coeffs(n).run(n, "egl", n=1)
        s.run(ids[0], "e", n=1)
        if r.random() < 0.3 and len(ids) == 1:                          # a copy of the copy
            s.out.append("save %d g %s" % (new[0], via)); s.out.append("load g %s 1 300 1" % via); clone(s, 300, new[0]); s.run(300, "e", n=1)
        if r.random() < 0.15:
            a = s.aff(2, 2, id=77); s.out.append("save 77 h member")    # kinds without serialization refuse
    ctx.conform(*MOD, s.out, label="save and load")
    # the parts of a map, archived on their own
    from . import num, mset
    out = []
    for b in BASES:
        for nrm in (0, 1):
            for lb, ub in num.BNDS:
                out.append("reset")
                for _ in range(ctx.pick(4, 30)): out.append("basis *%s %d %s %s %d %s" % (b, nrm, fl(lb), fl(ub), r.randrange(9), fl(r.uniform(-3, 3))))
    for rep in range(ctx.pick(120, 900)):
        out.append("reset")
        rule = QUADS[rep % 3]; ms = 0 if rule == "cc" else r.choice([1, 3, 6, 12]); mn = r.choice([0, 1, 2])
        ivs = [(r.uniform(-2, 0), r.uniform(0.1, 2)) for _ in range(2)]
        out.append(num.quad_line(r, rule, r.randint(1, 20) if rule == "cc" else r.choice([1, 2, 3]), ms, min(mn, max(0, ms - 1)), 10 ** r.uniform(-6, -2), r.choice([0.0, 10 ** r.uniform(-6, -2)]),
                                 [num.rand_fn(r) for _ in range(r.randint(1, 3))], ivs, how=3 + r.randrange(3), extra=r.choice([0, 0, 2])))
    ctx.conform(*num.MOD, out, label="archived bases and quadrature rules")
    out = []
    for rep in range(ctx.pick(60, 500)):
        n = r.randint(1, 3)
        out += ["reset", "box %d 3" % n]
        if rep % 3 == 0: out.append("ftotal 0 %d %d" % (n, r.randint(0, 3)))
        else:
            rows = r.randint(1, 6); k = r.randint(1, 3)
            out += ["matrix 0 %d %d %s" % (rows, n, " ".join(str(r.choice([0, r.randint(0, k)])) for _ in range(rows * n))), "fix 0 0 %d" % r.randrange(2)]
        out += ["fsave 1 0", "fobs 0", "fcopy 2 1", "fsave 2 2", "fobs 1"]
    ctx.conform("drv_mset", "TraceMISet", {"ASPECT": '"fact"'}, out, label="archived fixed sets")


def clone(s, new, old):
    b = dict(s.ob[old]); s.ob[new] = b
    b["ch"] = [new * 10 + 1 + i for i in range(len(b["ch"]))] if b["k"] == "tri" else b["ch"]
    if b["k"] == "tri":
        for n, o in zip(b["ch"], s.ob[old]["ch"]): clone(s, n, o)


# ---- C20: factories --------------------------------------------------------------------------------------
def c20(ctx):
    r = ctx.rng; s = S(r)
    combos = [(b, n, lb, ub, p, q) for b in BASES for n in (0, 1) for lb, ub in [(-INF, INF)] + BNDS for p in POSES for q in QUADS]
    r.shuffle(combos)
    for k, (b, n, lb, ub, p, q) in enumerate(combos[:ctx.pick(90, 10 ** 9)]):
        s.reset()
        o = Opts(r, basis=b, norm=n, lb=lb, ub=ub, pos=p, quad=q)
        d = r.randint(1, 3); i = s.mono(d, o, p=3, n=4); s.coeffs(i).run(i, "egl", n=2)
        if k % 3 == 0:
            e = s.exp(d, r.randint(1, 3), o); s.run(e, "e", n=1); s.coeffs(e).run(e, "eg", n=2)
        if k % 5 == 0:
            m = r.randint(1, 3); c = s.ctri(m + r.randrange(3), m, r.randint(0, 3 if m < 3 else 2), o); s.run(c, "e", n=1); s.coeffs(c).run(c, "el", n=1)
    for b, lin, p, q in all_combos():                                    # every quadrature option reaches the rule
        if q == "cc": continue
        for rep in range(ctx.pick(2, 20)):
            s.reset()
            t = [10.0 ** r.uniform(-8, -2), 10.0 ** r.uniform(-8, -2)]
            o = combo_opts(r, b, lin, p, q, tol=t[0], maxsub=r.choice([3, 4, 5, 30]), minsub=r.choice([0, 0, 1, 2]))
            o.rtol = t[1]
            if q == "acc": o.npts = r.choice([4, 5, 6, 8, 9, 10])
            i = s.mono(r.choice([1, 1, 2]), o, p=r.choice([3, 5]), n=5)
            s.coeffs(i, scale=r.choice([0.8, 2.5])).run(i, "e", n=4, op="runx", pts=[[r.uniform(-3.5, 3.5) for _ in range(s.ob[i]["nin"])] for _ in range(4)])
    for dim in range(1, ctx.bound(5, 7)):
        for act in range(1, dim + 1):
            s.reset(); m = s.mono(act, Opts(r, quad="cc"), n=3); t = s.single(dim, act, m); s.coeffs(t).run(t, "eglcLI", n=2); s.mirror(t, n=1)
    for _ in range(ctx.pick(10, 40)):
        s.reset(); act = r.randint(1, 4); m = s.mono(act, Opts(r, quad="cc"), n=2)
        s.out.append("single 60 %d %d %d" % (r.randint(1, 4), r.choice([act, act, r.randint(1, 5)]), m))
    ctx.conform(*MOD, s.out, label="factory-built objects")


# ---- C21: batches, threads, layouts ------------------------------------------------------------------------
def c21(ctx):
    r = ctx.rng
    for threads in ("1", "8"):
        s = S(r)
        for _ in range(ctx.pick(22, 200)):
            s.reset()
            o = lambda: Opts(r, quad=r.choice(["cc", "as", "acc"]), tol=1e-8)
            k = r.randrange(6)
            if k == 0: i = s.mono(r.randint(1, 3), o())
            elif k == 1: i = s.rand_tri(r.randrange(3), r.randint(1, 3), o, blocks=True)
            elif k == 2: d = r.choice([1, 2, 3]); i = s.comp([layer(s, d, o) for _ in range(r.randint(1, 4))] + [s.rand_tri(0, d, o)], 0, r.randrange(4))
            elif k == 3: i = s.exp(r.randint(1, 3), r.randint(1, 3), o())
            elif k == 4:
                f = s.exp(2, 2, o(), n=3); s.coeffs(f, scale=.5); i = s.sum(f, s.mono(3, o(), n=3))
            else: i = s.aff(r.randint(1, 3), 3)
            s.coeffs(i, scale=0.4)
            ks = "egc" if s.ob[i]["k"] == "exp" else "egclL" + ("I" if s.ob[i]["cont"] else "")
            s.batch(i, ks, r.choice([1, 2, 3, 17, 40]))
            if s.ob[i]["k"] in ("aff", "mono", "tri", "sum") and r.random() < 0.5: s.batch(i, "i", r.choice([2, 9]))
            if s.ob[i]["k"] == "mono": s.batch(i, "z", r.choice([3, 60]) if threads == "1" else 120)
        ctx.conform(*MOD, s.out, env={"OMP_NUM_THREADS": threads}, jobs=8 if threads == "1" else 2, label="batches, %s threads" % threads)


# ---- C25: affine, identity, summarized and single-entry maps ------------------------------------------------
def square_matrix(r, n):
    """Regular matrices of every shape elimination has to cope with."""
    k = r.randrange(6)
    if k == 0:                                                        # permutations: no usable pivot on the diagonal
        p = list(range(n)); r.shuffle(p)
        return [[r.choice([-1, 1]) * r.uniform(0.5, 2) if p[i] == j else 0.0 for j in range(n)] for i in range(n)]
    if k == 1: return [[r.choice([-1, 1]) * r.uniform(0.5, 2) if i == j else r.uniform(-1, 1) * (j > i) for j in range(n)] for i in range(n)]
    if k == 2: return [[r.choice([-1, 1]) * r.uniform(0.5, 2) if i == j else r.uniform(-1, 1) * (j < i) for j in range(n)] for i in range(n)]
    if k == 3: return [[r.choice([-1, 1]) * 10.0 ** r.uniform(-3, 3) if i == j else 0.0 for j in range(n)] for i in range(n)]
    A = [[r.uniform(-1, 1) + (r.choice([-1, 1]) * (1.0 + n) if i == j else 0) for j in range(n)] for i in range(n)]
    r.shuffle(A)
    return A


def c25(ctx):
    r = ctx.rng; s = S(r)
    for rep in range(ctx.pick(70, 900)):
        s.reset()
        n = r.randint(1, 8); ex = r.choice([0, 0, 0, 1, 2, 3])
        sc = 10.0 ** r.choice([r.uniform(-40, 40), -60, 60]) if r.random() < 0.25 else 1.0
        A = [[r.uniform(-1, 1) * sc for _ in range(ex)] + [v * sc for v in row] for row in square_matrix(r, n)]
        b = [r.uniform(-2, 2) * sc for _ in range(n)]
        k = r.random()
        if k < 0.15: i = s.lin([], b)
        elif k < 0.35: i = s.lin(A, [])
        else: i = s.lin(A, b)
        lay = "".join(r.sample("RLESBijk", 3))
        s.run(i, "eglLI", lays=lay, n=r.choice([0, 1, 1, 2, 4]))
        if sc == 1.0: s.mirror(i, lays="".join(r.sample("RLESBijk", 3)), n=r.choice([1, 2, 3]))
        s.inv(i, [[r.uniform(-3, 3) * sc for _ in range(s.ob[i]["nout"])] for _ in range(2)], n=2)
        if r.random() < .3:                                            # rows and biases of every size
            w = [10.0 ** r.uniform(-20, 20) for _ in range(n)]
            b = [v * r.choice([1.0, w[i]]) for i, v in enumerate(b)]
            if r.random() < .5: A = [[v * w[i] for v in row] for i, row in enumerate(A)]
            if r.random() < .5: s.run(s.lin(A, b) if r.random() < .7 else s.lin([], b), "eglLI", n=2)
        f = s.lin(A, b if r.random() < .6 else [], fun=True) if r.random() < .7 else s.lin([], b, fun=True)
        s.run(f, "eg", lays="".join(r.sample("RLESBijk", 2)), n=r.choice([0, 1, 2, 3]))
        d = r.randint(1, 6); j = s.ident(d, r.randint(1, d))
        s.run(j, "eglLI", lays=lay, n=r.choice([1, 3])); s.mirror(j, n=2)
    for rep in range(ctx.pick(40, 500)):                               # summaries of the leading inputs
        s.reset(); d = r.randint(1, 5); k = r.randint(1, d)
        if r.random() < 0.4: f = s.exp(d, k, Opts(r, quad="cc"), n=3, p=2); s.coeffs(f, scale=0.5)
        elif r.random() < 0.7: f = s.aff(k, d, bias=r.random() < .6, fun=True)
        else: f = s.ident(d, k)
        g = s.mono(k + 1, Opts(r, quad=r.choice(["cc", "cc", "as"])), n=4, p=2)
        u = s.sum(f, g); s.coeffs(u)
        s.run(u, "eglcLI", lays="".join(r.sample("RLESBijk", 2)), n=r.choice([1, 2, 3]))
        s.mirror(u, lays="".join(r.sample("RLESBijk", 2)), n=2)
        if r.random() < 0.5:
            t = s.tri([s.ident(d, d) if r.random() < .5 else s.aff(d, d), u] + ([s.mono(d + 2, Opts(r, quad="cc"), n=3)] if r.random() < .5 else []), 0)
            s.coeffs(t); s.run(t, "eglcLI", n=2); s.mirror(t, n=2)
        if r.random() < 0.3:                                           # the summary keeps its own coefficients
            s.coeffs(f).run(u, "e", n=1); s.coeffs(u).run(u, "e", n=1).run(f, "e", n=1)
        if r.random() < 0.2: s.out.append("sum 70 %d %d" % (f, s.mono(k + r.choice([0, 2]) or 1, Opts(r, quad="cc"), n=2)))
    for rep in range(ctx.pick(25, 300)):                               # maps that act on one coordinate
        s.reset(); dim = r.randint(1, 7); act = r.randint(1, dim)
        m = s.mono(act, Opts(r, quad=r.choice(["cc", "cc", "as"])), n=4, p=2) if act < 5 else s.aff(1, act)
        t = s.single(dim, act, m); s.coeffs(t)
        s.run(t, "eglcLI", lays="".join(r.sample("RLESBijk", 2)), n=2); s.mirror(t, lays="".join(r.sample("RLESBijk", 2)), n=2)
        if r.random() < .3:
            c = s.comp([t, s.aff(dim, dim), t], 0, r.randrange(3)); s.coeffs(c, scale=0.5).run(c, "eglc", n=1)
    ctx.conform(*MOD, s.out, label="affine, identity, summarized, single-entry")


CHECKS = {}
CHECKS["C25"] = (c25, ["drv_map"])
CHECKS["C05"] = (c05, ["drv_map"])
CHECKS["C06"] = (c06, ["drv_map"])
CHECKS["C07"] = (c07, ["drv_map"])
CHECKS["C08"] = (derivs("egc"), ["drv_map"])
CHECKS["C09"] = (derivs("lLI"), ["drv_map"])
CHECKS["C10"] = (c10, ["drv_map"])
CHECKS["C11"] = (c11, ["drv_map"])
CHECKS["C15"] = (c15, ["drv_map", "drv_basis", "drv_mset"])
CHECKS["C20"] = (c20, ["drv_map"])
CHECKS["C21"] = (c21, ["drv_map"])
