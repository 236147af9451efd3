"""Array conversions and dense linear algebra (C22)."""
from ..core import fl

MOD = ("drv_lin", "TraceLin", {})
ONE_D = {"vec", "ev", "k1", "s1"}


class Heap:
    """The living objects of a history: what shape and which handles each has, and which buffer it looks into."""

    def __init__(self, r, out):
        self.r, self.out, self.o, self.n, self.lu, self.ch = r, out, {}, 0, {}, {}
        out.append("reset")

    def new(self, **k):
        self.n += 1; k.setdefault("buf", self.n); k.setdefault("const", False); self.o[self.n] = k
        return self.n

    def val(self):
        r = self.r
        return r.choice([r.uniform(-2, 2), r.uniform(-2, 2), float(r.randint(-3, 3)), 0.0, 10 ** r.uniform(-6, 6) * r.choice([-1, 1])])

    def alloc(self, kind, rows, cols, vals=None):
        if kind in ONE_D: cols = 1
        vals = vals or [self.val() for _ in range(rows * cols)]
        h = {"kl": {"kl", "ks"}, "kr": {"kr", "ks"}, "k1": {"k1", "s1"}, "ks": {"ks"}, "kp": {"ks"}, "s1": {"s1"}}.get(kind, {kind})
        i = self.new(r=rows, c=cols, h=h, base=True)
        self.out.append("alloc %d %s %d %d %s" % (i, kind, rows, cols, " ".join(map(fl, vals))))
        return i

    def pick(self, *handles, f=lambda o: True):
        s = [i for i, o in self.o.items() if set(handles) & o["h"] and f(o)]
        return self.r.choice(s) if s else None

    def conv(self):
        r = self.r
        if r.random() < .75: a = self.pick("vec", "ec", "er", "ev")
        else: a = self.pick("kl", "kr", "ks", "k1", "s1")
        if a is None or r.random() < .2: a = self.alloc(r.choice("vec vec vec ec er ev".split()), r.choice([1, 2, 3, 4, 6, 8, 12]), r.randint(1, 5))
        o = self.o[a]; R, C, h = o["r"], o["c"], o["h"]; p = []; res = dict(buf=o["buf"], h=set())
        if "vec" in h:
            how = r.choice("tk1 tkc1 tkl tkr tkcl tkcr tkt2 tkt1 v2k cv2k vck m2k mck".split())
            if how in ("tk1", "tkc1"): p = [r.randint(1, R)]; R2, C2 = p[0], 1
            elif how in ("tkl", "tkr", "tkcl", "tkcr"): a0 = r.randint(1, R); p = [a0, r.randint(1, R // a0)]; R2, C2 = p
            elif how == "tkt1": st = r.randint(1, 3); p = [r.randint(1, (R - 1) // st + 1), st]; R2, C2 = p[0], 1
            elif how == "tkt2":
                s1, s2 = r.randint(1, 3), r.randint(1, 5); R2 = r.randint(1, (R - 1) // s1 + 1); C2 = r.randint(1, (R - 1 - (R2 - 1) * s1) // s2 + 1); p = [R2, C2, s1, s2]
            elif how in ("m2k", "mck"): c = r.choice([k for k in range(1, R + 1) if R % k == 0]); p = [c]; R2, C2 = R // c, c
            else: R2, C2 = R, 1
            res["h"] = {"tk1": {"s1"}, "tkl": {"kl", "ks"}, "tkr": {"kr", "ks"}, "tkt2": {"ks"}, "tkt1": {"s1"}, "v2k": {"s1"}, "m2k": {"ks"}}.get(how, set())
            if how == "tkt2" and len({i * s1 + j * s2 for i in range(R2) for j in range(C2)}) < R2 * C2: res["h"] = set()    # entries share memory: read only
        elif h & {"ec", "er"}:
            how = r.choice("e2k e2kb ce2k ce2kb row2k col2k".split())
            if how.endswith("b"): i, j = r.randrange(R), r.randrange(C); p = [i, j, r.randint(1, R - i), r.randint(1, C - j)]; R2, C2 = p[2:]
            elif how == "row2k": p = [r.randrange(R)]; R2, C2 = C, 1
            elif how == "col2k": p = [r.randrange(C)]; R2, C2 = R, 1
            else: R2, C2 = R, C
            res["h"] = {"e2k": {"ks"}, "e2kb": {"ks"}, "row2k": {"s1"}, "col2k": {"s1"}}.get(how, set())
        elif "ev" in h:
            how = r.choice(["ev2k", "ev2ks"])
            if how == "ev2ks": i = r.randrange(R); p = [i, r.randint(1, R - i)]; R2 = p[1]
            else: R2 = R
            C2 = 1; res["h"] = {"s1"}
        elif "ks" in h:
            how = r.choice(["k2m", "ck2m", "cpm"]); R2, C2 = R, C
            if how == "cpm": res["buf"] = None
        else:
            how = r.choice(["k2v", "cpv", "k2s"]); R2, C2 = R, 1
            if how != "k2v": res["buf"] = None
            if how == "k2s": res["h"] = {"vec"}
        if res["buf"] is None: del res["buf"]
        i = self.new(r=R2, c=C2, **res)
        self.out.append("conv %d %s %d %d %s" % (i, how, a, len(p), " ".join(map(str, p))))

    def step(self):
        r, out, o = self.r, self.out, self.o
        k = r.choice("alloc conv conv conv conv conv conv put put put put put drop gemm gemm mul mul add plus reduce lu chol solve solve solvei tohost".split())
        dim = lambda: r.choice([1, 2, 3, 4, 5])
        if k == "alloc": self.alloc(r.choice("vec vec ec er ev kl kr k1 ks kp s1".split()), r.choice([1, 2, 3, 4, 6, 8, 12]) if r.random() < .4 else dim(), dim())
        elif k == "conv": self.conv()
        elif k == "put" and o:
            i = r.choice(list(o)); out.append("put %d %d %d %s" % (i, r.randrange(o[i]["r"]), r.randrange(o[i]["c"]), fl(self.val())))
        elif k == "drop" and len(o) > 6:
            i = r.choice(list(o)); del o[i]; out.append("drop %d" % i)
        elif k in ("gemm", "mul"):
            a = self.pick("ks")
            if a is None: return
            m, n, q, ta, tb = o[a]["r"], o[a]["c"], dim(), r.choice([0, 0, 1, 1, 2, 3]), r.choice([0, 0, 1, 1, 2, 3])
            if ta % 2: m, n = n, m
            sh = (lambda x: (x["c"], x["r"])) if tb % 2 else (lambda x: (x["r"], x["c"]))
            b = self.pick("ks", f=lambda x: sh(x)[0] == n) if r.random() < .5 else None
            if b is None: b = self.alloc(r.choice(["kl", "kr", "ks", "kp"]), *((q, n) if tb % 2 else (n, q)))
            q = sh(o[b])[1]
            if k == "mul":
                i = self.new(r=m, c=q, h={"ks"}); out.append("mul %d %d %d %d %d" % (i, a, ta, b, tb))
            else:
                c = self.pick("ks", f=lambda x: (x["r"], x["c"]) == (m, q) and not x["const"] and x["buf"] not in (o[a]["buf"], o[b]["buf"])) if r.random() < .5 else None
                if c is None: c = self.alloc(r.choice(["kl", "kr", "ks", "kp"]), m, q)
                co = lambda: r.choice([0.0, 1.0, -1.0, r.uniform(-3, 3)])
                al, be = co(), co()
                if r.random() < .3: be = 0.0; out.append("put %d %d %d nan" % (c, r.randrange(m), r.randrange(q)))        # C need not be initialised then
                out.append("gemm %s %d %d %d %d %s %d" % (fl(al), a, ta, b, tb, fl(be), c))
        elif k == "add":
            a = self.pick("ks", "s1")
            if a is None: return
            two = "ks" in o[a]["h"]
            ok = lambda x: (x["r"], x["c"]) == (o[a]["r"], o[a]["c"]) and x["buf"] != o[a]["buf"]
            b = self.pick("ks" if two else "s1", f=ok) if r.random() < .6 else None
            if b is None: b = self.alloc(r.choice(["kl", "kr", "ks", "kp"] if two else ["k1", "s1"]), o[a]["r"], o[a]["c"])
            out.append("add %s %d %d" % (r.choice(["fn", "op"]), a, b))
        elif k == "plus":
            cst = r.randrange(2); R, C = dim(), dim()
            if r.random() < .3: a, b = self.alloc("k1", R, 1), self.alloc("k1", R, 1); C = 1; h = {"s1"}
            else: a, b = self.alloc(r.choice(["kl", "kr"]) if cst else "kr", R, C), self.alloc(r.choice(["kl", "kr"]), R, C); h = {"ks"}
            i = self.new(r=R, c=C, h=h); out.append("plus %d %d %d %d" % (i, cst, a, b))
        elif k == "reduce":
            a = self.pick("ks") if r.random() < .7 else self.alloc(r.choice(["kl", "kr", "ks"]), r.choice([1, 5, 40]), r.choice([1, 6, 50]))
            if a is None: return
            d = r.randrange(2)
            i = self.new(r=o[a]["r"] if d else o[a]["c"], c=1, h={"k1", "s1"})
            out.append("reduce %d %s %d %s %d" % (i, r.choice(["sum", "norm"]), d, fl(r.choice([1.0, -0.5, r.uniform(-2, 2), 0.0])), a))
        elif k in ("lu", "chol"):
            n = r.randint(1, 6); f = r.randint(1, 3)
            if k == "lu" and self.lu and r.random() < .15:
                g = r.choice(list(self.lu)); self.lu[f] = self.lu[g]; out.append("lucopy %d %d" % (f, g)); return
            M = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
            if k == "lu":
                p = list(range(n)); r.shuffle(p); s = 10 ** r.choice([0, 0, 3, -3])
                for i in range(n): M[i][p[i]] += r.choice([-2, 2, 1.5])
                if r.random() < .3: M = [[x if p[i] == j else 0.0 for j, x in enumerate(w)] for i, w in enumerate(M)]      # a permutation, scaled
                M = [[s * x for x in w] for w in M]
            else: M = [[sum(M[i][q] * M[j][q] for q in range(n)) + (0.3 if i == j else 0.0) for j in range(n)] for i in range(n)]
            a = self.alloc("kl", n, n, [x for w in M for x in w])
            out.append("%s %d %d %d" % (k, f, a, r.randrange(2))); (self.lu if k == "lu" else self.ch)[f] = n
            if r.random() < .5: out.append("put %d %d %d %s" % (a, r.randrange(n), r.randrange(n), fl(5.0)))
        else:
            fs = [("lu", f) for f in self.lu] + [("ch", f) for f in self.ch]
            if k in ("solve", "solvei") and fs:
                t, f = r.choice(fs); n = (self.lu if t == "lu" else self.ch)[f]; q = r.choice([1, 1, 2, 4])
                if k == "solve":
                    how = "solve" if t == "lu" else r.choice(["csolve", "cmull"])
                    b = self.alloc("kl" if how == "cmull" else r.choice(["kl", "kr", "ks", "kp"]), n, q, [r.uniform(-3, 3) for _ in range(n * q)])
                    i = self.new(r=n, c=q, h={"kl", "ks"}); out.append("%s %d %d %d" % (how, i, f, b))
                else:
                    b = self.alloc("kl", n, q, [r.uniform(-3, 3) for _ in range(n * q)])
                    out.append("%s %d %d" % ("solvei" if t == "lu" else r.choice(["csolvei", "csolvel"]), f, b))
            elif k == "tohost":
                a = self.pick("k1", "kr", f=lambda x: x.get("base"))
                if a: out.append("tohost %d" % a)


def c22(ctx):
    r = ctx.rng; out = []
    for _ in range(ctx.pick(300, 4000)):
        h = Heap(r, out)
        for _ in range(r.choice([6, 12, 25])): h.step()
    for _ in range(ctx.pick(40, 400)):
        ks = ["k%d" % i for i in range(4)]; kv = [(k, r.choice("abc")) for k in r.sample(ks, r.randint(0, 3))]
        out.append("getopt %d %s %s %s" % (len(kv), " ".join("%s %s" % p for p in kv), r.choice(ks), "dflt"))
    ctx.conform(*MOD, out, label="arrays and linear algebra")
    out = []
    for _ in range(ctx.pick(20, 100)):
        out.append("reset")
        a = "alloc 1 kr %d %d " % (n := r.choice([3, 60]), m := r.choice([7, 200])); out.append(a + " ".join(fl(r.uniform(-1, 1)) for _ in range(n * m)))
        for i, (w, d) in enumerate((w, d) for w in ("sum", "norm") for d in (0, 1)): out.append("reduce %d %s %d %s 1" % (i + 2, w, d, fl(r.uniform(-2, 2))))
    ctx.conform(*MOD, out, env={"OMP_NUM_THREADS": "4"}, jobs=2, label="reductions with 4 threads")


CHECKS = {"C22": (c22, ["drv_lin"])}
