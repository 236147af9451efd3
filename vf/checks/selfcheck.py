"""Random instances on which the specification's derivative formulas are compared with differences of its values (MapAlgMC)."""
import json, random, struct
from .. import tlc

INF = float("inf")


def fj(x): return list(struct.unpack(">ii", struct.pack(">d", x)))


class Inst:
    def __init__(self, r): self.r, self.nodes, self.cf, self.exact = r, [], [], True

    def add(self, nd, nc=None):
        i = len(self.nodes) + 1
        self.nodes.append({"id": i, "nd": nd})
        if nd["k"] in ("mono", "exp"): self.cf.append({"id": i, "w": [fj(self.r.uniform(-.8, .8)) for _ in range(nd["nc"])]})
        return i

    def nd(self, i): return self.nodes[i - 1]["nd"]

    def terms(self, d, p, n):
        s = set()
        while len(s) < n:
            m = [0] * d
            for _ in range(self.r.randint(0, p)): m[self.r.randrange(d)] += 1
            s.add(tuple(m))
            if len(s) >= 1 and self.r.random() < .1: break
        return [list(m) for m in sorted(s)]

    def basis(self):
        r = self.r; lb, ub = r.choice([(-INF, INF), (-INF, INF), (-1.25, 1.5), (-INF, 1.0)])
        return {"t": r.choice(["prob", "phys", "hf"]), "nrm": bool(r.randrange(2)), "lb": fj(lb), "ub": fj(ub)}

    def mono(self, d, cont=None):
        r = self.r; ms = self.terms(d, 3, r.randint(1, 4)); t = r.choice(["cc", "cc", "as"]); c = bool(r.randrange(2)) if cont is None else cont
        if t == "cc" and c: self.exact = False              # the rule's slope is not the integrand
        return self.add({"k": "mono", "b": self.basis(), "ms": ms, "dim": d, "pos": r.choice(["exp", "softplus"]) if c else "softplus", "nug": fj(r.choice([0.0, 0.1])), "cont": c,
                         "q": {"t": t, "n": r.choice([5, 8]), "tol": fj(1e-9)}, "nin": d, "nout": 1, "nc": len(ms)})

    def exp(self, d, o):
        ms = self.terms(d, 3, self.r.randint(1, 4))
        return self.add({"k": "exp", "b": self.basis(), "ms": ms, "dim": d, "nin": d, "nout": o, "nc": o * len(ms)})

    def aff(self, o, d):
        r = self.r; A = [[r.uniform(-.4, .4) + (1.0 if j - (d - o) == i else 0) for j in range(d)] for i in range(o)]
        return self.add({"k": "aff", "A": [[fj(v) for v in row] for row in A], "bb": [fj(r.uniform(-.3, .3)) for _ in range(o)], "nin": d, "nout": o, "nc": 0})

    def cont(self, kind, ch):
        n = [self.nd(c) for c in ch]
        return self.add({"k": kind, "ch": ch, "nin": n[-1]["nin"], "nout": sum(x["nout"] for x in n) if kind == "tri" else n[0]["nout"], "nc": sum(x["nc"] for x in n)})

    def square(self, nin, nout, depth, cont):
        """A map that can be inverted in its last inputs."""
        r = self.r; a = r.random()
        if nout == 1 and (depth <= 0 or a < .35): return self.mono(nin, cont)
        if depth <= 0 or a < .45: return self.aff(nout, nin) if a < .4 else self.add({"k": "id", "nin": nin, "nout": nout, "nc": 0})
        if nin == nout and a < .65: return self.cont("comp", [self.square(nin, nout, depth - 1, cont) for _ in range(r.randint(2, 3))])
        if nout == 1 and nin > 1 and a < .8:
            k = r.randint(1, 2); f = self.exp(nin - 1, k); g = self.square(k + 1, 1, depth - 1, cont)
            return self.add({"k": "sum", "f": f, "g": g, "nin": nin, "nout": 1, "nc": self.nd(g)["nc"]})
        ch, d = [], nin - nout
        while d < nin: b = r.randint(1, nin - d); d += b; ch.append(self.square(d, b, depth - 1, cont))
        return self.cont("tri", ch)


def instances(r, n):
    out = []
    for k in range(n):
        g = Inst(r); sq = r.random() < .85
        if sq: o = r.randint(1, 3); top = g.square(o + r.choice([0, 0, 1]), o, r.randint(0, 2), r.choice([True, True, False]))
        else: top = g.exp(r.randint(1, 3), r.randint(1, 3))
        nd = g.nd(top)
        x = []
        while len(x) < nd["nin"]:
            v = r.uniform(-.95, .95)
            if abs(v) > .01: x.append(v)
        # compositions leave the box and may cross a bound of a linearized basis, where the slope of the slope jumps
        if any(q["nd"]["k"] in ("comp", "tri", "sum") for q in g.nodes):
            for q in g.nodes:
                if "b" in q["nd"]: q["nd"]["b"]["lb"], q["nd"]["b"]["ub"] = fj(-INF), fj(INF)
        if any(q["nd"]["k"] == "comp" for q in g.nodes):        # nested exponentials have no useful differences
            for q in g.nodes:
                if "pos" in q["nd"]: q["nd"]["pos"] = "softplus"
        out.append({"op": "case", "nodes": g.nodes, "cf": g.cf, "id": top, "x": [fj(v) for v in x], "s": [fj(r.uniform(-1, 1)) for _ in range(nd["nout"])],
                    "square": sq, "exact": g.exact})
    return out


def selfcheck(ctx, n):
    cases = instances(random.Random("selfcheck %d" % ctx.seed), n)
    lines = [json.dumps(c, separators=(",", ":")).encode() + b"\n" for c in cases]
    rej, st, gen, nh = tlc.validate("MapAlgMC", {}, lines, boundary=b'{"op":"case"')
    # a formula that is wrong is wrong on every other instance; where slopes nearly vanish, differences say nothing
    if len(rej) > n // 100: raise tlc.TLCError("the specification disagrees with itself: %s on %s" % (rej[0]["names"], lines[rej[0]["line"] - 1][:3000]))
    ctx.models.append({"module": "MapAlgMC", "name": "derivative formulas against differences of the specified values", "instances": n, "not_differentiable_numerically": len(rej), "distinct_states": st})
    ctx.states += st; ctx.generated += gen
