"""The Python package (C23): maps, coefficients, pytorch, pickling, training, multi-index sets, as seen from Python."""
import os
from .. import build as B
from ..core import fl
from . import mset
from .maps import S, Opts, layer, all_combos, combo_opts, clone, fix_counts
from .dist import topts, ALGS, down

DRV = ["/opt/mpart-venv/bin/python3", os.path.join(B.VERIF, "harness", "drv_py.py")]
ENV = {"PYTHONPATH": B.PYDIR, "PYTHONDONTWRITEBYTECODE": "1"}


class P(S):
    """Scripts for the Python driver: expansions are not offered there, affine functions take their place."""
    def exp(self, d, od, o=None, p=3, n=None, id=None): return self.aff(min(od, d), d, fun=True, id=id)

    def torch(self, id, mode=None, ld=None, bw=None, n=None, unit=False):
        r = self.r; b = self.ob[id]; nc = b["nc"]
        cond = b["k"] != "fun"
        mode = mode or r.choice(["store", "given", "strided", "f32"])
        ld = cond and r.random() < 0.6 if ld is None else ld
        bw = r.random() < 0.7 if bw is None else bw
        if ld and not b["cont"]: bw = False
        x = self.pts(id, n or r.choice([1, 2, 3, 4]), True) if not unit else [[r.uniform(-1, 1) for _ in range(b["nin"])] for _ in range(n or 3)]
        c = ""
        if mode in ("given", "strided", "f32"):
            c = "%d %s" % (nc, " ".join(fl(r.uniform(-1, 1) * a * 0.8) for a in self.amp(id)) if b["k"] not in ("aff", "fun", "id") else "")
        self.out.append("torch %d %s %s %d %d %d %d %s %d %s %s %d %d" % (id, mode, c, ld, bw, b["nin"], len(x), self._p(x), b["nout"],
                        " ".join(fl(r.uniform(-2, 2)) for _ in range(b["nout"] * len(x))), " ".join(fl(r.uniform(-2, 2)) for _ in x), r.choice([0, 1]), r.random() < .4))
        return self


def structure(s, o):
    r = s.r; k = r.randrange(9)
    if k == 0: return s.mono(r.randint(1, 3), o())
    if k == 1: return s.rand_tri(r.randrange(3), r.randint(1, 3), o, blocks=True)
    if k == 2: return s.rand_tri(r.randrange(2), r.randint(1, 2), o)
    if k == 3: d = r.choice([1, 2]); return s.comp([layer(s, d, o) for _ in range(r.randint(1, 3))] + [s.rand_tri(0, d, o)], 0, r.randrange(4))
    if k == 4: return s.ctri(r.randint(2, 3), r.randint(1, 2), r.randint(1, 2), o())
    if k == 5: d = r.randint(1, 3); f = s.aff(d, 3, fun=True) if r.random() < .5 else s.ident(3, d); return s.sum(f, s.mono(d + 1, o(), n=4))
    if k == 6: dim = r.randint(1, 4); act = r.randint(1, dim); return s.single(dim, act, s.mono(act, o(), n=3))
    if k == 7: return s.aff(r.randint(1, 3), 3, bias=r.random() < .7) if r.random() < .7 else s.ident(3, r.randint(1, 3))
    return s.aff(r.randint(1, 3), 3, fun=True)


def maps(ctx):
    r = ctx.rng; s = P(r)
    for _ in range(ctx.pick(1, 8)):                                     # every option combination arrives
        for b, lin, p, q in all_combos():
            s.reset(); i = s.mono(r.choice([1, 2]), combo_opts(r, b, lin, p, q), p=3, n=4)
            s.coeffs(i).run(i, "egclL", n=2); s.mirror(i, n=1)
    for _ in range(ctx.pick(40, 400)):
        s.reset(); o = lambda: Opts(r, quad=r.choice(["cc", "cc", "as"]))
        i = structure(s, o); s.coeffs(i, scale=.5)
        unit = s.ob[i]["k"] == "comp"
        x = [[r.uniform(-1, 1) for _ in range(s.ob[i]["nin"])] for _ in range(r.randint(1, 4))] if unit else None
        s.run(i, "eglcLI", lays="".join(r.sample("RLESBijk", 2)), n=r.choice([1, 2, 4]), pts=x)
        if s.ob[i]["k"] != "fun": s.mirror(i, lays="".join(r.sample("RLESBijk", 2)), n=2, pts=x)
    for _ in range(ctx.pick(4, 20)):                                    # arguments that do not fit
        s.reset(); ch = [s.mono(r.randint(1, 3), Opts(r, quad="cc"), n=2) for _ in range(2)] + [s.aff(1, r.randint(1, 3))]; r.shuffle(ch)
        s.out.append("tri 50 %d %s %d" % (len(ch), " ".join(map(str, ch)), r.randrange(2)))
        s.out.append("comp 51 %d %s 0 %d" % (len(ch), " ".join(map(str, ch)), r.randrange(3)))
        s.out.append("single 60 %d %d %d" % (r.randint(1, 4), r.randint(1, 5), ch[0]))
    return s.out


def memory(ctx):
    """Who keeps what alive: arrays outlive maps, maps outlive containers, user arrays are shared or copied."""
    r = ctx.rng; out = []
    for _ in range(ctx.pick(60, 600)):
        s = P(r).reset(); o = lambda: Opts(r, quad="cc", npts=r.choice([3, 4, 5]))
        top = structure(s, o); nb = nk = 0; dead = set(); ids = list(s.ob)
        for _ in range(r.randint(5, 14)):
            live = [i for i in ids if i not in dead]
            if not live: break
            i = r.choice(live + [top] * (top not in dead)); n_ = s.ob[i]["nc"]; k = r.random()
            if k < .2: s.coeffs(i)
            elif k < .25 and n_: s.out.append("setc %d %d %s" % (i, n_ + 1, "0x1p-1 " * (n_ + 1)))
            elif k < .4 and n_:
                nb += 1; w = n_ if r.random() < .85 else n_ + 1
                s.out.append("buf %d %d %s" % (nb, w, " ".join(fl(r.uniform(-.5, .5)) for _ in range(w))))
                s.out.append("%s %d %d" % (r.choice(["wrap", "setcb"]), i, nb))
            elif k < .47 and nb: s.out.append("bpoke %d 0 %s" % (r.randint(1, nb), fl(r.uniform(-.5, .5))))
            elif k < .55 and n_: s.out.append("poke %d %d %s" % (i, r.randrange(n_), fl(r.uniform(-.5, .5))))
            elif k < .7: nk += 1; s.out.append("keep %d %d" % (nk, i))
            elif k < .8 and nk: s.out.append("vpoke %d %d %s" % (r.randint(1, nk), r.randrange(4), fl(r.uniform(-.5, .5))))
            elif k < .86: dead.add(i); s.out.append("del %d" % i)
            elif k < .91: s.out.append("coeffile %d" % i)
            else: s.run(i, "e", n=1, inside=True)
        if top not in dead: s.run(top, "e", n=1, inside=True)
        out += [fix_counts(l) for l in s.out]
    return out


def torches(ctx):
    r = ctx.rng; s = P(r)
    for _ in range(ctx.pick(70, 700)):
        # adaptive rules refine by the value alone: with zero coefficients their gradients are those of the coarsest rule
        s.reset(); given = r.random() < .9; o = lambda: Opts(r, quad=r.choice(["cc", "cc", "as"]) if given else "cc", cont=int(r.random() < .85), nug=r.choice([0.25, 0.05]))
        i = structure(s, o); unit = s.ob[i]["k"] == "comp"; n_ = s.ob[i]["nc"]; nb = 0
        if given: s.coeffs(i, scale=.5)
        s.torch(i, "store", unit=unit)
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .5: s.torch(i, unit=unit)
            elif k < .65 and n_:
                nb += 1; s.out.append("buf %d %d %s" % (nb, n_, " ".join(fl(r.uniform(-.5, .5) * a) for a in s.amp(i)))); s.torch(i, "b%d" % nb, unit=unit)
                s.out.append("bpoke %d %d %s" % (nb, r.randrange(n_), fl(r.uniform(-.5, .5))))
            elif k < .8: s.coeffs(i, scale=.5)
            else: s.run(i, "e", n=1, pts=[[r.uniform(-1, 1) for _ in range(s.ob[i]["nin"])]])
        if r.random() < .3 and n_: s.out.append("torch %d given %d %s 0 0 %d 1 %s %d %s 0x1p-1 0 0" % (i, n_ + 1, "0x1p-1 " * (n_ + 1), s.ob[i]["nin"], "0x1p-1 " * s.ob[i]["nin"], s.ob[i]["nout"], "0x1p-1 " * s.ob[i]["nout"]))
    return s.out


def pickles(ctx):
    r = ctx.rng; s = P(r)
    for _ in range(ctx.pick(30, 300)):
        s.reset(); o = lambda: Opts(r, quad=r.choice(["cc", "as", "acc"])); k = r.randrange(4)
        if k == 0: ids = [s.mono(r.randint(1, 3), o())]
        elif k == 1: ids = [s.rand_tri(r.randrange(2), r.randint(1, 3), o)]
        elif k == 2: ids = [s.ctri(r.randint(2, 3), r.randint(1, 2), r.randint(1, 2), o())]
        else: ids = [s.mono(2, o()), s.rand_tri(0, 2, o)]
        for i in ids:
            if r.random() < .85: s.coeffs(i)
        via = r.choice(["pickle", "bytes"])
        for i in ids: s.out.append("save %d f %s" % (i, via))
        if r.random() < .5: s.coeffs(ids[0])
        new = [200 + j for j in range(len(ids))]
        s.out.append("load f %s %d %s" % (via, len(ids), " ".join("%d %d" % (n, j + 1) for j, n in enumerate(new))))
        for n, i in zip(new, ids):
            clone(s, n, i); s.run(n, "egl" if via == "pickle" else "e", n=2); s.coeffs(n).run(n, "egc", n=1)
        s.run(ids[0], "e", n=1)
        if r.random() < .3: s.aff(2, 2, id=77); s.out.append("save 77 h pickle")
    return s.out


def training(ctx):
    r = ctx.rng; s = P(r)
    def obj(id, d, ntr, nte, dim):
        p = lambda n: " ".join(fl(r.uniform(-1.8, 1.8)) for _ in range(n * d))
        s.out.append("obj %d 0 %d %s %d %d %s %d %s" % (id, dim, "L", d, ntr, p(ntr), nte, p(nte)))
    for rep in range(ctx.pick(16, 120)):
        s.reset(); dim = r.randint(1, 2); extra = r.choice([0, 0, 1])
        m = s.rand_tri(extra, dim, lambda: Opts(r, quad="cc", cont=1, pos="softplus")); s.coeffs(m)
        nin = s.ob[m]["nin"]; obj(1, nin, r.choice([1, 3, 12]), r.choice([0, 1, 3]), 0 if nin == dim and r.random() < .5 else dim)
        s.out.append("objrun 1 %d" % m)
        if rep % 2 == 0: s.out += ["train 1 %d %s" % (m, ptopts(r.choice(ALGS[:4]), r.choice([5, 60]))), "objrun 1 %d" % m]
    for rep in range(ctx.pick(8, 60)):
        s.reset(); out = r.randint(1, 2); ind = out + r.randrange(2); obj(1, ind, r.choice([10, 25]), 10, out)
        o = Opts(r, quad="cc", pos="softplus", npts=5, cont=1, basis=r.choice(["prob", "hf"]), norm=1)
        sets = [down(r, ind - out + j + 1, r.choice([2, 3])) for j in range(out)]
        for q in sets:
            if not any(m[-1] for m in q): q.append(tuple([0] * (len(q[0]) - 1) + [1]))
        n0 = sum(map(len, sets))
        s.out.append("padapt 9 1 %s %d %d %d %s" % (o, r.choice([1, 2, 5]), n0 + r.choice([0, 1, 3]), len(sets), " ".join("%d %s" % (len(q[0]), s._rows(q)) for q in sets)))
        s.ob[9] = dict(nin=ind, nout=out, nc=0, cont=True, o=[o], k="tri", ch=[]); s.run(9, "el", n=2); s.out.append("objrun 1 9")
    return s.out


def ptopts(alg, n): return "%s %s %s %d" % (alg, fl(1e-6), fl(1e-6), n)


def sets(ctx):
    r = ctx.rng; out = []; have, fx = set(), set()
    for l in mset.random_histories(ctx, ctx.pick(70, 600), 16):
        w = l.split(); op = w[0]
        if op == "reset": have, fx = set(), set()
        elif op in ("new", "total", "tensor", "matrix"): have.add(w[1])
        elif op in ("assign", "plus", "plusm", "fexpand", "factivate", "filter", "vis", "iunion"): continue
        elif op in ("copy",):
            if w[2] not in have: continue
            have.add(w[1])
        elif op == "union":
            if w[1] not in have or w[2] not in have: continue
        elif op == "fix":
            if w[2] not in have: continue
            fx.add(w[1])
            if r.random() < .4: l = "farr %s %s %d" % (w[1], w[2], r.randrange(2))
        elif op in ("fobs", "fcopy"):
            if w[-1] not in fx: continue
            fx.add(w[1])
        elif op != "box":
            if w[1] not in have: continue
            if op == "activate": l = "activate %s %d" % (w[1], r.randrange(100))
        out.append(l)
    for n in range(1, 5):
        for p in range(0, 4): out += ["reset", "box %d 2" % n, "ftotal 0 %d %d" % (n, p), "fcopy 1 0"] + ["limcheck %d %s" % (n, mset.limiter(r, n)) for _ in range(3)]
    for _ in range(ctx.pick(60, 600)):
        out.append("reset"); n = r.choice([1, 2, 3, 5])
        for _ in range(r.randint(6, 16)):
            a, b = r.randrange(4), r.randrange(4); k = r.random(); v = [r.choice([0, 0, 1, 2, 5]) for _ in range(n)]
            if k < .3: out.append("mvec %d %d %s" % (a, n, " ".join(map(str, v))))
            elif k < .36: out.append("mconst %d %d %d" % (a, n, r.randint(0, 4)))
            elif k < .42: out.append("mcopy %d %d" % (a, b))
            elif k < .65: out.append("mset %d %d %d" % (a, r.randint(0, n), r.choice([0, 0, 1, 3])))
            elif k < .75: out.append("mget %d %d" % (a, r.randint(0, n + 1)))
            else: out.append("mcmp %d %d" % (a, b))
    return out


def c23(ctx):
    for name, script in (("maps", maps), ("memory", memory), ("pytorch", torches), ("pickling", pickles)):
        ctx.conform(DRV, "TraceMap", {}, script(ctx), env=ENV, label=name)
    ctx.conform(DRV, "TraceDist", {}, training(ctx), env=ENV, label="training")
    ctx.conform(DRV, "TraceMISet", {"ASPECT": '"all"'}, sets(ctx), env=ENV, label="multi-index sets")


CHECKS = {"C23": (c23, ["pympart"])}
