"""Containers over user-defined parts (C27): spec/Parts.tla, spec/Reversal.tla, spec/CheckMC.tla."""


class Gen:
    """Random trees of containers; only what can be used together is built."""
    def __init__(self, r): self.r, self.out, self.n, self.d = r, ["reset"], 0, {}

    def new(self): self.n += 1; return self.n

    def part(self, nin, nout, nc=None):
        r = self.r; i = self.new(); nc = r.choice([0, 1, 2, 3]) if nc is None else nc
        self.out.append("part %d %d %d %d %d %d %s" % (i, r.randint(0, 40), nin, nout, nc, nc, " ".join(str(r.randint(-3, 3)) for _ in range(nc))))
        self.d[i] = (nin, nout, nc); return i

    def tri(self, extra, blocks, depth=0):
        ch = []; n = extra
        for b in blocks:
            n += b; ch.append(self.any(n, b, depth - 1))
        i = self.new(); mv = self.r.randrange(2)
        self.out.append("tri %d %d %s %d" % (i, len(ch), " ".join(map(str, ch)), mv))
        self.d[i] = (n, sum(blocks), sum(self.d[c][2] for c in ch)); self.set(i, mv); return i

    def comp(self, d, layers, mx, depth=0):
        ch = [self.any(d, d, depth - 1) for _ in range(layers)]
        i = self.new(); mv = self.r.randrange(2)
        self.out.append("comp %d %d %s %d %d" % (i, layers, " ".join(map(str, ch)), mv, mx))
        self.d[i] = (d, d, sum(self.d[c][2] for c in ch)); self.set(i, mv); return i

    def summ(self, nin, depth=0):
        k = self.r.randint(1, 3); f = self.part(nin - 1, k); g = self.any(k + 1, 1, depth - 1)
        i = self.new(); self.out.append("sum %d %d %d" % (i, f, g)); self.d[i] = (nin, 1, self.d[g][2]); self.set(i, 0); return i

    def set(self, i, mv):
        n = self.d[i][2]
        if not mv or self.r.random() < .3: self.coef(i)

    def coef(self, i):
        n = self.d[i][2]
        self.out.append("coef %d %d %s %d" % (i, n, " ".join(str(self.r.randint(-4, 4)) for _ in range(n)), self.r.randrange(2)))

    def any(self, nin, nout, depth):
        r = self.r; a = r.random()
        if depth <= 0 or a < .35: return self.part(nin, nout)
        if nin == nout and a < .65: return self.comp(nin, r.randint(1, 4), r.choice([-1, 1, 2, 3]), depth)
        if nout == 1 and nin > 1 and a < .8: return self.summ(nin, depth)
        blocks = []
        while sum(blocks) < nout: blocks.append(r.randint(1, nout - sum(blocks)))
        return self.tri(nin - nout, blocks, depth)

    def pts(self, n, d): return " ".join(str(self.r.choice([self.r.randrange(1009), self.r.randrange(12)])) for _ in range(n * d))

    def sens(self, n, d): return " ".join(str(self.r.randint(-3, 3)) for _ in range(n * d))

    def ask(self, i, k, n=None):
        r = self.r; nin, nout, nc = self.d[i]; lay = r.choice("EBLRSijk"); n = n or r.choice([1, 2, 3, 5])
        if k in "egclLI": self.out.append("q %d %s %s %d %s %s" % (i, k, lay, n, self.pts(n, nin), self.sens(n, nout)))
        elif k == "i":
            d = r.choice([nin - nout, nin]); lay = r.choice("BLRSijk") if d == 0 else lay
            self.out.append("inv %d %s %d %d %s %s" % (i, lay, n, d, self.pts(n, d), self.pts(n, nout)))
        elif k in "dxw": self.out.append("pull %d %s %s %d %s" % (i, k, r.choice("LRS"), n, self.pts(n, nin)))
        elif k == "p" and nin == nout: self.out.append("push %d %s %d %s" % (i, r.choice("LRS"), n, self.pts(n, nin)))
        elif k == "K" and nc: n = r.choice([1, 2, 4, 8]); self.out.append("kl %d %d %s" % (i, n, self.pts(n, nin)))


def c27(ctx):
    r = ctx.rng; out = []
    n = ctx.bound(12, 18)
    ctx.model("CheckMC", constants={"N": str(n)}, invariants=["RightInput", "Room", "Ordered", "Finished", "Cost"], properties=["Ends"])
    # every depth and number of checkpoints, every backward pass
    for depth in range(1, n + 1):
        for s in list(range(1, depth + 1)) + [-1, depth + 2]:
            if not ctx.thorough and depth > 9 and s not in (-1, 1, 2, 3, 4, depth - 1, depth): continue
            g = Gen(r); i = g.comp(r.choice([1, 2]) if depth > 8 else r.randint(1, 3), depth, s)
            for k in "gcLI": g.ask(i, k, 1)
            g.ask(i, r.choice("gcLI"), 3); out += g.out
    for depth, s in ((13, 3), (14, 4), (15, 3), (16, 4), (18, 3), (18, 5)) if not ctx.thorough else [(d, s) for d in range(19, 31) for s in (3, 4, 5, 6)]:
        g = Gen(r); i = g.comp(1, depth, s); g.ask(i, r.choice("gcLI"), 1); out += g.out
    for _ in range(ctx.pick(260, 4000)):
        g = Gen(r); a = r.random()
        nout = r.randint(1, 3); nin = nout + r.choice([0, 0, 1, 2])
        i = g.any(nin, nout, r.randint(1, 3)) if a < .5 else g.comp(nout, r.randint(1, 5), r.choice([-1, 1, 2]), 2) if a < .75 else g.tri(nin - nout, [1] * nout, 2) if a < .9 else g.summ(nin + 1, 2)
        for k in r.sample("egclLIidxwpK", 6 if not ctx.thorough else 12):
            g.ask(i, k)
            if r.random() < .3: g.coef(i)
        out += g.out
    ctx.conform("drv_parts", "TraceParts", {}, out, label="containers over parts")


CHECKS = {"C27": (c27, ["drv_parts"])}
