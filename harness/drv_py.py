"""Drives MParT through its Python package: the commands and trace events of drv_map, drv_dist and drv_mset
that the package offers, plus what only Python has (arrays that outlive objects, pytorch, pickling).
usage: python3 drv_py.py SCRIPT OUT"""
import gc, json, os, pickle, struct, sys
import numpy as np
import mpart as mt
import torch
torch.set_num_threads(1)

GARBAGE = -7.25e18
out = open(sys.argv[2], "w")
H, B, K, F, O = {}, {}, {}, {}, {}          # maps, user buffers, kept arrays, files, objectives
S, FX, LD, M, MO = {}, {}, {}, {}, {}       # multi-index sets, fixed sets, limiters, registers, options
box = []


def fl(x):
    hi, lo = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [hi, lo]


def fls(v): return [fl(x) for x in v]
def cols(A): return [fls(A[:, j]) for j in range(A.shape[1])]
def put(e): out.write(json.dumps(e, separators=(",", ":")) + "\n"); out.flush()


class Line:
    def __init__(self, l): self.t, self.i = l.split(), 0
    def s(self): self.i += 1; return self.t[self.i - 1]
    def n(self): return int(self.s())
    def d(self):
        x = self.s(); return float.fromhex(x) if "0x" in x else float(x)
    def uv(self): return [self.n() for _ in range(self.n())]
    def dv(self): return np.array([self.d() for _ in range(self.n())])
    def pts(self, n, d):
        """n points of dimension d, as the columns of a matrix"""
        A = np.empty((d, n))
        for j in range(n):
            for i in range(d): A[i, j] = self.d()
        return A


def outcome(f):
    try: f(); return "ok"
    except IndexError: return "out_of_range"
    except ValueError: return "invalid_argument"
    except RuntimeError: return "runtime_error"
    except Exception as e: return "exception " + type(e).__name__


def junk(n):
    """Fills memory that was just released."""
    gc.collect()
    k = [np.full(max(n, 1), GARBAGE) for _ in range(64)] + [torch.full((max(n, 1),), GARBAGE, dtype=torch.double) for _ in range(64)]
    c = [mt.AffineMap(np.full(max(n, 1), GARBAGE)) for _ in range(16)]
    del k, c


def vals(f): return [] if f.numCoeffs == 0 else list(f.CoeffMap())
def is_set(f): return outcome(f.CoeffMap) == "ok"


def state():
    cv = [{"id": i, "set": s, "v": fls(vals(f)) if s else []} for i, f in sorted(H.items()) for s in [is_set(f)]]
    return {"cv": cv, "bufs": [{"b": b, "v": fls(v)} for b, v in sorted(B.items())],
            "views": [{"k": k, "v": fls(v)} for k, v in sorted(K.items())]}


def finish(e): e.update(state()); put(e)
def dims(f): return [f.inputDim, f.outputDim, f.numCoeffs]


BASIS = {"prob": mt.BasisTypes.ProbabilistHermite, "phys": mt.BasisTypes.PhysicistHermite, "hf": mt.BasisTypes.HermiteFunctions}
POS = {"exp": mt.PosFuncTypes.Exp, "softplus": mt.PosFuncTypes.SoftPlus}
QUAD = {"as": mt.QuadTypes.AdaptiveSimpson, "cc": mt.QuadTypes.ClenshawCurtis, "acc": mt.QuadTypes.AdaptiveClenshawCurtis}
FIELDS = ["basisType", "basisNorm", "basisLB", "basisUB", "posFuncType", "quadType", "quadAbsTol", "quadRelTol", "quadMaxSub", "quadMinSub", "quadPts", "contDeriv", "nugget"]


def name_of(d, v): return [k for k in d if d[k] == v][0]


def read_opts(L, o=None):
    o = o if o is not None else mt.MapOptions()
    o.basisType = BASIS[L.s()]; o.basisNorm = bool(L.n()); o.basisLB = L.d(); o.basisUB = L.d()
    o.posFuncType = POS[L.s()]; o.quadType = QUAD[L.s()]
    o.quadAbsTol = L.d(); o.quadRelTol = L.d(); o.quadMaxSub = L.n(); o.quadMinSub = L.n(); o.quadPts = L.n()
    o.contDeriv = bool(L.n()); o.nugget = L.d()
    return o


def opts_json(o):
    return {"op": "opts", "basis": name_of(BASIS, o.basisType), "nrm": o.basisNorm, "lb": fl(o.basisLB), "ub": fl(o.basisUB), "pos": name_of(POS, o.posFuncType),
            "quad": name_of(QUAD, o.quadType), "atol": fl(o.quadAbsTol), "rtol": fl(o.quadRelTol), "maxsub": o.quadMaxSub, "minsub": o.quadMinSub,
            "npts": o.quadPts, "cont": o.contDeriv, "nug": fl(o.nugget)}


# ---- arrays in every form a Python user may pass
def lay(A, kind):
    if kind == "L": return np.asfortranarray(A)
    if kind == "S":
        W = np.full((2 * A.shape[0] + 1, 3 * A.shape[1] + 2), GARBAGE); V = W[1::2, 1::3][:A.shape[0], :A.shape[1]]; V[...] = A; return V
    if kind == "B":
        W = np.full((A.shape[0] + 2, A.shape[1] + 3), GARBAGE); V = W[1:1 + A.shape[0], 2:2 + A.shape[1]]; V[...] = A; return V
    if kind == "E" and A.size: return A.tolist()
    return np.ascontiguousarray(A)


def raw(A):
    """What the functions taking addresses expect."""
    p = A.__array_interface__["data"][0]
    if A.ndim == 1: return p, A.shape[0], A.strides[0] // 8
    return p, A.shape, tuple(s // 8 for s in A.strides)


def out_arr(kind, r, c):
    """(array of not-a-numbers, its surroundings)"""
    if kind == "S": W = np.full((2 * r + 2, 3 * c + 3), GARBAGE); V = W[1:1 + 2 * r:2, 1:1 + 3 * c:3]
    elif kind == "L": W = np.full((c, r), GARBAGE); V = W.T
    else: W = np.full((r, c), GARBAGE); V = W
    V[...] = np.nan
    return V, W


def padding_ok(V, W):
    V[...] = GARBAGE
    return bool(np.all(W == GARBAGE))


def quantity(f, k, kind, x, s):
    if kind in "ijk":
        kk = {"i": "R", "j": "L", "k": "S"}[kind]
        X, SS = lay(x, kk), lay(s, kk)
        if not is_set(f): raise RuntimeError("no coefficients")
        n = x.shape[1]
        if k == "l":
            W = np.full(2 * n + 2, GARBAGE); V = W[1:1 + 2 * n:2] if kk == "S" else W[1:1 + n]
            V[...] = np.nan
            f.LogDeterminantImpl(raw(X), raw(V))
            v = V.copy()[None, :]
            return v, padding_ok(V, W)
        rows = {"e": f.outputDim, "g": f.inputDim, "I": f.inputDim, "c": f.numCoeffs, "L": f.numCoeffs}[k]
        V, W = out_arr(kk, rows, n)
        if k == "e": f.EvaluateImpl(raw(X), raw(V))
        if k == "g": f.GradientImpl(raw(X), raw(SS), raw(V))
        if k == "c": f.CoeffGradImpl(raw(X), raw(SS), raw(V))
        if k == "L": f.LogDeterminantCoeffGradImpl(raw(X), raw(V))
        if k == "I": f.LogDeterminantInputGradImpl(raw(X), raw(V))
        v = V.copy()
        return v, padding_ok(V, W)
    X, SS = lay(x, kind), lay(s, kind)
    if k == "e": v = f.Evaluate(X)
    if k == "g": v = f.Gradient(X, SS)
    if k == "c": v = f.CoeffGrad(X, SS)
    if k == "l": v = f.LogDeterminant(X)[None, :]
    if k == "L": v = f.LogDeterminantCoeffGrad(X)
    if k == "I": v = f.LogDeterminantInputGrad(X)
    return v, True


def inverse(f, kind, x1, r):
    if kind in "ijk":
        kk = {"i": "R", "j": "L", "k": "S"}[kind]
        if not is_set(f): raise RuntimeError("no coefficients")
        V, W = out_arr(kk, f.outputDim, r.shape[1])
        X, R = lay(x1, kk), lay(r, kk)
        f.InverseImpl(raw(X), raw(R), raw(V))
        v = V.copy()
        return v, padding_ok(V, W)
    return f.Inverse(lay(x1, kind), lay(r, kind)), True


def run_inv(e, f, lays, x1, r):
    before = state(); e["res"] = []
    for k in lays:
        q = {"op": "inv", "lay": k, "pad": True, "v": []}
        def go():
            v, q["pad"] = inverse(f, k, x1, r); q["v"] = cols(v)
        q["ret"] = outcome(go)
        e["res"].append(q)
    e["pure"] = state() == before
    put(e)


def make(e, id, fn):
    def go(): H[id] = fn()
    e["ret"] = outcome(go)
    if e["ret"] == "ok": e["dims"] = dims(H[id])


def reg(id, f):
    H[id] = f
    if hasattr(f, "GetComponent"):
        rows = k = 0
        while rows < f.outputDim:
            c = f.GetComponent(k); reg(id * 10 + 1 + k, c); rows += c.outputDim; k += 1


def fixed_of(rows, dim):
    s = mt.MultiIndexSet(np.array(rows, dtype=np.int32).reshape(len(rows), dim))
    return s.fix(True), [s.IndexToMulti(i).tolist() for i in range(s.Size())]


def map_op(op, L, e):
    if op == "mono":
        id = L.n(); o = read_opts(L); dim = L.n(); rows = [[L.n() for _ in range(dim)] for _ in range(L.n())]
        fx, order = fixed_of(rows, dim)
        e.update(id=id, od=1, opts=opts_json(o), dim=dim, ms=order); make(e, id, lambda: mt.CreateComponent(fx, o)); finish(e)
    elif op in ("aff", "afun"):
        id = L.n(); r, c = L.n(), L.n(); A = np.array([[L.d() for _ in range(c)] for _ in range(r)]).reshape(r, c); b = L.dv()
        e.update(id=id, A=[fls(x) for x in A], r=r, c=c, b=fls(b))
        kind = "RLSB"[id % 4]; A = lay(A, kind)
        if kind == "S": W = np.full(2 * len(b) + 1, GARBAGE); W[1::2][:len(b)] = b; b = W[1::2][:len(b)]
        cls = mt.AffineMap if op == "aff" else mt.AffineFunction
        make(e, id, lambda: cls(b) if r == 0 else cls(A) if len(b) == 0 else cls(A, b))
        A[...] = GARBAGE; b[...] = GARBAGE
        finish(e)
    elif op == "ident":
        id, i, o = L.n(), L.n(), L.n(); e.update(id=id, out=o); e["in"] = i
        make(e, id, lambda: mt.IdentityMap(i, o)); finish(e)
    elif op in ("tri", "comp"):
        id = L.n(); ids = L.uv(); mv = bool(L.n()); mc = L.n() if op == "comp" else 0
        e.update(id=id, ch=ids, move=mv, maxc=mc); kids = [H[i] for i in ids]
        make(e, id, lambda: mt.TriangularMap(kids, mv) if op == "tri" else mt.ComposedMap(kids, mv, mc)); finish(e)
    elif op == "sum":
        id, f, g = L.n(), L.n(), L.n(); e.update(id=id, f=f, g=g); make(e, id, lambda: mt.SummarizedMap(H[f], H[g])); finish(e)
    elif op == "single":
        id, dim, act, c = L.n(), L.n(), L.n(), L.n(); e.update(id=id, dim=dim, act=act, c=c)
        make(e, id, lambda: mt.CreateSingleEntryMap(dim, act, H[c])); finish(e)
    elif op == "ctri":
        id, i, o, p = L.n(), L.n(), L.n(), L.n(); op_ = read_opts(L)
        e.update(id=id, out=o, order=p, opts=opts_json(op_), ch=[], chd=[]); e["in"] = i
        def go():
            t = mt.CreateTriangular(i, o, p, op_)
            for k in range(o):
                c = t.GetComponent(k); H[id * 10 + 1 + k] = c
                fs = mt.FixedMultiIndexSet(i - o + k + 1, p)
                e["ch"].append(id * 10 + 1 + k); e["chd"].append({"dims": dims(c), "ms": [list(map(int, fs.IndexToMulti(q))) for q in range(fs.Size())]})
            return t
        make(e, id, go); finish(e)
    elif op == "buf":
        b = L.n(); v = L.dv(); B[b] = v.copy(); e.update(b=b, v=fls(v)); finish(e)
    elif op in ("setc", "setce"):
        id = L.n(); v = L.dv(); e.update(id=id, v=fls(v)); w = v.copy()
        e["ret"] = outcome(lambda: H[id].SetCoeffs(w)); w[...] = GARBAGE; finish(e)
    elif op == "setcb":
        id, b = L.n(), L.n(); e.update(id=id, b=b); e["ret"] = outcome(lambda: H[id].SetCoeffs(B[b])); finish(e)
    elif op in ("wrap", "wrape"):
        id, b = L.n(), L.n(); e.update(id=id, b=b); e["ret"] = outcome(lambda: H[id].WrapCoeffs(raw(B[b]))); finish(e)
    elif op == "bpoke":
        b, k = L.n(), L.n(); v = L.d(); B[b][k] = v; e.update(b=b, k=k, x=fl(v)); finish(e)
    elif op in ("poke", "cmap"):
        id, k = L.n(), L.n(); v = L.d()
        def go():
            c = H[id].CoeffMap()
            if k < len(c): c[k] = v
        e.update(id=id, k=k, x=fl(v)); e["ret"] = outcome(go); finish(e)
    elif op == "keep":                    # keep K ID: the array stays, whatever happens to the map
        k, id = L.n(), L.n(); e.update(k=k, id=id)
        def go(): K[k] = H[id].CoeffMap()
        e["ret"] = outcome(go); finish(e)
    elif op == "vpoke":
        k, i = L.n(), L.n(); v = L.d(); e.update(k=k, x=fl(v)); ok = k in K and i < len(K[k]); e["i"] = i if ok else -1
        if ok: K[k][i] = v
        finish(e)
    elif op == "del":
        id = L.n(); n = H[id].numCoeffs; del H[id]; junk(n); e.update(id=id); finish(e)
    elif op in ("run", "line"):
        id = L.n(); kinds = L.s() if op == "run" else "e"; lays = L.s(); d, n = L.n(), L.n(); x = L.pts(n, d)
        ds, ns = (L.n(), L.n()) if op == "run" else (0, n); s = L.pts(ns, ds)
        f = H[id]; before = state(); e.update(id=id, x=cols(x), s=cols(s), res=[])
        for ly in lays:
            for k in kinds:
                q = {"op": k, "lay": ly, "pad": True, "v": []}
                def go():
                    v, q["pad"] = quantity(f, k, ly, x, s); q["v"] = cols(v)
                q["ret"] = outcome(go); e["res"].append(q)
        e["pure"] = state() == before; put(e)
    elif op == "inv":
        id = L.n(); lays = L.s(); d1, n1 = L.n(), L.n(); x = L.pts(n1, d1); dr, nr = L.n(), L.n(); r = L.pts(nr, dr)
        e.update(id=id, x=cols(x), r=cols(r)); run_inv(e, H[id], lays, x, r)
    elif op == "mirror":
        id = L.n(); lays = L.s(); d, n = L.n(), L.n(); x = L.pts(n, d); f = H[id]; got = {"r": np.empty((f.outputDim, 0))}
        def go(): got["r"] = f.Evaluate(x)
        e.update(id=id, xt=cols(x)); e["eret"] = outcome(go); r = got["r"]; x1 = x[:d - f.outputDim, :]
        e.update(r=cols(r), x=cols(x1)); run_inv(e, f, lays, x1, r)
    elif op == "torch":                   # torch ID mode ld bw d n pts ds sens weights mid frz  [mode store | bK | given n values | strided n values | f32 n values]
        torch_op(L, e)
    elif op == "save":
        id = L.n(); fn, via = L.s(), L.s(); e.update(id=id, file=fn, via=via, n=0)
        def go(): F.setdefault(fn, []).append(pickle.dumps(H[id]) if via == "pickle" else H[id].ToBytes())
        e["ret"] = outcome(go); finish(e)
    elif op == "load":
        fn, via = L.s(), L.s(); n = L.n(); e.update(file=fn, via=via, objs=[], rest=0)
        for _ in range(n):
            id, of = L.n(), L.n(); q = {"op": "obj", "id": id, "of": of}
            def go():
                b = F[fn][of - 1]
                reg(id, pickle.loads(b) if via == "pickle" else mt.ParameterizedFunctionBase.FromBytes(b)); q["dims"] = dims(H[id])
            q["ret"] = outcome(go); e["objs"].append(q)
            if q["ret"] != "ok": break
        finish(e)
    elif op == "coeffile":                # coefficients and dimensions through a file
        id = L.n(); e.update(id=id); got = {}
        def go():
            H[id].Serialize("coeffs.bin"); got["d"] = mt.DeserializeMap("coeffs.bin"); os.remove("coeffs.bin")
        e["ret"] = outcome(go) if is_set(H[id]) else "unset"
        e["got"] = [got["d"][0], got["d"][1]] if got else []; e["v"] = fls(got["d"][2]) if got else []
        finish(e)
    else:
        return False
    return True


def torch_op(L, e):
    id = L.n(); mode = L.s(); f = H[id]; c = L.dv() if mode in ("given", "strided", "f32") else None
    ld, bw = bool(L.n()), bool(L.n()); d, n = L.n(), L.n(); x = L.pts(n, d); ds = L.n(); s = L.pts(n, ds); w = np.array([L.d() for _ in range(n)])
    mid, frz = L.n(), bool(L.n())          # other coefficients are used before differentiating; no gradient of the coefficients is wanted
    dt = torch.float32 if mode == "f32" else torch.double
    cond = isinstance(f, mt.ConditionalMapBase)
    e.update(id=id, mode=mode[0] if mode[0] == "b" else mode, b=int(mode[1:]) if mode[0] == "b" else 0, ld=ld, bw=bw, inv=False, y=[], l=[], gx=[], gc=[], iv=[], gw=[])
    if mode == "f32": x, c = x.astype(np.float32).astype(float), c.astype(np.float32).astype(float)
    e.update(c=fls(c) if c is not None else [], x=cols(x), s=cols(s), w=fls(w), mid=mid, frz=frz)
    nc = f.numCoeffs
    def go():
        if mode == "store":
            t = f.torch(return_logdet=ld) if cond else f.torch(); C = None; P = t.coeffs; P.requires_grad_(not frz)
        else:
            t = f.torch(store_coeffs=False, return_logdet=ld) if cond else f.torch(store_coeffs=False)
            if mode[0] == "b": C = torch.from_numpy(B[e["b"]])
            elif mode == "strided":
                W = torch.full((2 * len(c) + 1,), GARBAGE, dtype=dt); W[1::2] = torch.tensor(c, dtype=dt); C = W[1::2]
            else: C = torch.tensor(c, dtype=dt)
            if bw and mode[0] != "b" and not frz: C = C.detach(); C.requires_grad_(True)
            P = C
        if len(e["x"]) % 2: X = torch.tensor(x.T, dtype=dt)                       # rows are points
        else: X = torch.tensor(x, dtype=dt).T
        X = X.detach(); X.requires_grad_(bw)
        r = t(X) if C is None else t(X, C)
        y, l = r if ld else (r, None)
        assert y.dtype == dt and tuple(y.shape) == (n, f.outputDim) and (l is None or (l.dtype == dt and tuple(l.shape) == (n,)))
        e["y"] = cols(y.detach().double().numpy().T)
        if ld: e["l"] = [[v] for v in fls(l.detach().double().numpy())]
        if bw:
            loss = (y * torch.tensor(s.T, dtype=dt)).sum()
            if ld: loss = loss + (l * torch.tensor(w, dtype=dt)).sum()
            D = np.linspace(-.3, .4, nc) + .05
            if mid == 1: f.torch(store_coeffs=False)(X.detach(), torch.tensor(D, dtype=dt))
            loss.backward()
            e["gx"] = cols(X.grad.double().numpy().T)
            if P.requires_grad: e["gc"] = [fls(P.grad.double().numpy())]
        if cond and dt == torch.double and n % 2:
            X1 = torch.tensor(x[:d - f.outputDim, :].T, dtype=dt) if n % 3 else X.detach()
            Y = y.detach()
            v = t.inverse(X1, Y) if C is None else t.inverse(X1, Y, C)
            e["inv"] = True; e["iv"] = cols(v.detach().numpy().T)
    e["ret"] = outcome(go)
    del go
    if mode[0] != "b": junk(nc)           # everything of pytorch's is gone
    finish(e)


# ---- objectives and training
ALGS = {}
def train_opts(L, to, e):
    to.opt_alg = L.s(); to.opt_ftol_rel = L.d(); to.opt_xtol_rel = L.d(); to.opt_maxeval = L.n()
    e.update(alg=to.opt_alg, ftol=fl(to.opt_ftol_rel), xtol=fl(to.opt_xtol_rel), maxeval=to.opt_maxeval)


def train_op(op, L, e):
    if op == "obj":
        id, di, da = L.n(), L.n(), L.n(); L.s(); d, n = L.n(), L.n(); tr = L.pts(n, d); nt = L.n(); te = L.pts(nt, d)
        assert di == 0
        e.update(id=id, den=0, tr=cols(tr), te=cols(te), mdim=da or d); T, E = np.asfortranarray(tr.copy()), np.asfortranarray(te.copy())
        O[id] = mt.CreateGaussianKLObjective(T, E, da) if nt else mt.CreateGaussianKLObjective(T, da)
        T[...] = GARBAGE; E[...] = GARBAGE
        put(e)
    elif op == "objrun":
        id, m = L.n(), L.n(); f = H[m]; e.update(id=id, map=m, g=[], pad=True, train=[], test=fl(0)); before = state()
        def a(): e["train"] = [fl(O[id].TrainError(f))]
        def b(): e["test"] = fl(O[id].TestError(f))
        e["ret"] = outcome(a); e["tret"] = outcome(b); e["pure"] = before == state(); put(e)
    elif op == "train":
        id, m = L.n(), L.n(); to = mt.TrainOptions(); train_opts(L, to, e); f = H[m]; had = is_set(f)
        e.update(id=m, obj=id, had=had, c0=fls(vals(f)) if had else [], f=fl(0))
        def go(): e["f"] = fl(mt.TrainMap(f, O[id], to))
        e["ret"] = outcome(go); e["v"] = fls(vals(f)) if is_set(f) else []; finish(e)
    elif op == "padapt":                  # padapt ID OBJ opts patience maxsize nsets (dim rows values)*
        id, ob = L.n(), L.n(); ao = mt.ATMOptions(); read_opts(L, ao); ao.maxPatience = L.n(); ao.maxSize = L.n(); ns = L.n(); sets, init = [], []
        for _ in range(ns):
            dim, rows = L.n(), L.n(); A = np.array([[L.n() for _ in range(dim)] for _ in range(rows)], dtype=np.int32)
            sets.append(mt.MultiIndexSet(A)); init.append(A.tolist())
        ao.opt_maxeval = 60; ao.verbose = 0
        e.update(id=id, obj=ob, init=init, maxsize=ao.maxSize, opts=opts_json(ao), final=[], dims=[], f=fl(0))
        def go():
            f = mt.TrainMapAdaptive(sets, O[ob], ao); e["dims"] = dims(f)
            e["final"] = [[s.IndexToMulti(i).tolist() for i in range(s.Size())] for s in sets]
            e["f"] = fl(O[ob].TrainError(f)); reg(id, f)
        e["ret"] = outcome(go); finish(e)
    else:
        return False
    return True


# ---- multi-indices
def lim(L):
    k = L.s()
    if k == "None": return mt.NoneLim(), ["None"]
    if k == "TotalOrder": p = L.n(); return mt.TotalOrder(p), ["TotalOrder", p]
    if k == "MaxDegree1": p, n = L.n(), L.n(); return mt.MaxDegree(p, n), ["MaxDegree", [p] * n]
    if k == "MaxDegree": v = L.uv(); return (lambda m: all(m[i] <= v[i] for i in range(len(v)))), ["MaxDegree", v]       # a Python function
    if k == "Dimension": a, b = L.n(), L.n(); return mt.Dimension(a, b), ["Dimension", a, b]
    if k == "Aniso": v = L.uv(); eps = L.n(); return mt.Anisotropic([x / 4.0 for x in v], eps / 100.0), ["Aniso", v, eps]
    f, a = lim(L); g, b = lim(L)
    return getattr(mt, k)(f, g), [k, a, b]


def tl(m): return list(map(int, m.tolist()))
def active(s): return [tl(s.IndexToMulti(i)) for i in range(s.Size())]
def probes(n): return [b for b in box if len(b) == n]
def allacts(): return [{"s": k, "act": active(s)} for k, s in sorted(S.items())]


def observe(s):
    n = s.Size(); pr = probes(len(s)); lf = s.GetLimiter()
    return {"op": "obs", "len": len(s), "act": active(s), "at": [tl(s.at(i)) for i in range(n)], "br": [tl(s[i]) for i in range(n)],
            "maxo": list(map(int, s.MaxOrders())), "margin": [tl(m) for m in s.Margin()], "rmargin": [tl(m) for m in s.ReducedMargin()],
            "front": list(s.Frontier()), "strict": list(s.StrictFrontier()), "naf": [s.NumActiveForward(i) for i in range(n)], "nf": [s.NumForward(i) for i in range(n)],
            "expd": [i for i in range(n) if s.IsExpandable(i)], "probes": pr, "idx": [s.MultiToIndex(mt.MultiIndex(p)) for p in pr],
            "accepts": [p for p in pr if lf(mt.MultiIndex(p))]}


def sput(e, k=None):
    if k is not None: e["obs"] = observe(S[k])
    e["all"] = allacts(); put(e)


def fixedobs(f):
    n = f.Size(); pr = probes(f.Length()); ms = [list(map(int, f.IndexToMulti(i))) for i in range(n)]
    return {"op": "fobs", "len": len(f), "multis": ms, "maxd": list(map(int, f.MaxDegrees())), "probes": pr, "idx": [f.MultiToIndex(p) for p in pr], "self": [f.MultiToIndex(p) for p in ms]}


def fput(e, k, f): FX[k] = f; e.update(f=k, fobs=fixedobs(f), all=allacts()); put(e)


def mobs(m):
    return {"op": "m", "get": [m[i] for i in range(len(m))], "vec": tl(m), "sum": m.sum(), "max": m.max(), "nnz": m.count_nonzero(), "len": len(m), "str": str(m), "stream": str(m)}


def mput(e): e["regs"] = [mobs(M[i]) for i in range(4)]; put(e)


def set_op(op, L, e):
    global box
    if op == "box":
        n, mx = L.n(), L.n(); import itertools
        box = [list(reversed(v)) for v in itertools.product(range(mx + 1), repeat=n)]
    elif op == "new":
        k, n = L.n(), L.n(); l, d = lim(L); s = mt.MultiIndexSet(n); s.SetLimiter(l); S[k] = s; e.update(s=k, len=n, lim=d); sput(e, k)
    elif op in ("total", "tensor"):
        k, n, p = L.n(), L.n(), L.n(); l, d = lim(L); mk = mt.MultiIndexSet.CreateTotalOrder if op == "total" else mt.MultiIndexSet.CreateTensorProduct
        S[k] = mk(n, p) if d == ["None"] else mk(n, p, l); e.update(s=k, len=n, p=p, lim=d); sput(e, k)
    elif op == "matrix":
        k, r, n = L.n(), L.n(), L.n(); A = np.array([[L.n() for _ in range(n)] for _ in range(r)], dtype=np.int32).reshape(r, n)
        A2 = lay(A.astype(float), "RLSB"[k % 4]).astype(np.int32) if k % 2 else np.asfortranarray(A)
        S[k] = mt.MultiIndexSet(A2); e.update(s=k, len=n, rows=A.tolist()); sput(e, k)
    elif op == "copy":
        k, b = L.n(), L.n(); S[k] = S[b].DeepCopy(); e.update(s=k, b=b); sput(e, k)
    elif op in ("add", "iadd"):
        k = L.n(); m = L.uv(); x = mt.MultiIndex(m); e.update(s=k, m=m)
        if op == "add": e["ret"] = S[k].AddActive(x)
        elif len(m) % 2: S[k].append(x)
        else: S[k] += x
        sput(e, k)
    elif op == "union":
        k, b = L.n(), L.n(); e.update(s=k, b=b, ret=S[k].union(S[b])); sput(e, k)
    elif op == "activate":                # one of the reduced margin
        k, i = L.n(), L.n(); rm = S[k].ReducedMargin()
        if rm:
            m = tl(rm[i % len(rm)]); S[k].Activate(mt.MultiIndex(m)); e.update(s=k, m=m, adm=True); sput(e, k)
    elif op == "expand":
        k, i = L.n(), L.n(); i %= S[k].Size() + 1; got = []
        e["out"] = outcome(lambda: got.extend(S[k].Expand(i))); e.update(s=k, i=i, ret=got); sput(e, k)
    elif op == "expandall":
        k = L.n(); e.update(s=k, ret=list(S[k].Expand())); sput(e, k)
    elif op == "setlim":
        k = L.n(); l, d = lim(L); e.update(s=k, lim=d); e["ret"] = outcome(lambda: S[k].SetLimiter(l)); sput(e, k)
    elif op == "limcheck":
        n = L.n(); l, d = lim(L); pr = probes(n); e.update(lim=d, probes=pr, yes=[p for p in pr if l(mt.MultiIndex(p))], all=allacts()); put(e)
    elif op == "fix":
        f, s, c = L.n(), L.n(), L.n(); e.update(s=s, c=c); fput(e, f, S[s].fix(bool(c)))
    elif op == "ftotal":
        f, d, p = L.n(), L.n(), L.n(); e.update(d=d, p=p); fput(e, f, mt.FixedMultiIndexSet(d, p))
    elif op == "farr":                    # from arrays, dense or compressed, of the multi-indices of set s
        f, s, how = L.n(), L.n(), L.n(); ms = active(S[s]); n = len(S[s]); u = np.uint32; e["op"] = "fix"; e.update(s=s, c=how)
        if how: 
            st, dm, od = [0], [], []
            for m in ms:
                for j, v in enumerate(m):
                    if v: dm.append(j); od.append(v)
                st.append(len(dm))
            a = [np.array(v, dtype=u) for v in (st, dm, od)]; r = mt.FixedMultiIndexSet(n, *a)
        else: a = [np.array([v for m in ms for v in m], dtype=u)]; r = mt.FixedMultiIndexSet(n, a[0])
        for v in a: v[...] = 77
        x = [np.full(len(ms) * n, 99, dtype=u) for _ in range(64)] + [mt.FixedMultiIndexSet(2, np.full(2 * len(ms), 55, dtype=u)) for _ in range(8)]; del x
        fput(e, f, r)
    elif op == "fcopy":                   # by pickling or through a file
        f, g = L.n(), L.n(); e.update(g=g)
        if (f + g) % 2: r = pickle.loads(pickle.dumps(FX[g]))
        else:
            FX[g].Serialize("fixed.bin"); r = mt.FixedMultiIndexSet(1, 1); r2 = r.Deserialize("fixed.bin"); os.remove("fixed.bin")
            r = r if f % 2 else r2
        fput(e, f, r)
    elif op == "fobs":
        f = L.n(); fput(e, f, FX[f])
    elif op in ("mvec", "mptr", "meig", "minit"):
        r = L.n(); v = L.uv(); M[r] = mt.MultiIndex(v) if v else mt.MultiIndex(); e["op"] = "mvec"; e.update(r=r, v=v); mput(e)
    elif op == "mconst":
        r, n, v = L.n(), L.n(), L.n(); M[r] = mt.MultiIndex(n, v) if v else mt.MultiIndex(n); e["op"] = "mvec"; e.update(r=r, v=[v] * n); mput(e)
    elif op == "mcopy":
        r, b = L.n(), L.n(); M[r] = mt.MultiIndex(tl(M[b])) if len(M[b]) else mt.MultiIndex(); e.update(r=r, b=b); mput(e)
    elif op == "mset":
        r, i, v = L.n(), L.n(), L.n(); got = {"ret": False}
        def go(): got["ret"] = M[r].__setitem__(i, v)
        e["out"] = outcome(go); e.update(r=r, i=i, v=v, ret=got["ret"]); mput(e)
    elif op == "mget":
        r, i = L.n(), L.n(); got = {"v": 0}
        def go(): got["v"] = M[r][i]
        e["out"] = outcome(go); e.update(r=r, i=i, ret=got["v"]); mput(e)
    elif op == "mcmp":
        a, b = L.n(), L.n(); x, y = M[a], M[b]
        e.update(a=a, b=b, lt=x < y, gt=x > y, le=x <= y, ge=x >= y, eq=x == y, ne=x != y); mput(e)
    elif op == "mnb": pass
    else: return False
    return True


# ---- options
MAPF = ["basisType", "posFuncType", "quadType", "basisLB", "basisUB", "basisNorm", "quadAbsTol", "quadRelTol", "quadMaxSub", "quadMinSub", "quadPts", "contDeriv", "nugget"]
TRAINF = ["opt_alg", "opt_stopval", "opt_ftol_rel", "opt_ftol_abs", "opt_xtol_rel", "opt_xtol_abs", "opt_maxeval", "opt_maxtime", "verbose"]
KIND = {"map": (mt.MapOptions, MAPF), "train": (mt.TrainOptions, TRAINF), "atm": (mt.ATMOptions, MAPF + TRAINF + ["maxPatience", "maxSize", "maxDegrees"])}
ENUM = {"basisType": mt.BasisTypes, "posFuncType": mt.PosFuncTypes, "quadType": mt.QuadTypes}
INTS = {"quadMaxSub", "quadMinSub", "quadPts", "opt_maxeval", "verbose", "maxPatience", "maxSize"}


def from_text(f, t):
    if f in ENUM: return getattr(ENUM[f], t)
    if f in INTS: return int(t)
    if f in ("basisNorm", "contDeriv"): return t == "true"
    if f == "opt_alg": return t
    if f == "maxDegrees": return mt.MultiIndex([] if t == "-" else [int(i) for i in t.split(",")])
    return float.fromhex(t) if "0x" in t else float(t)


def field_json(f, v):
    if f in ENUM: return v.name
    if f in INTS: return int(v)
    if f in ("basisNorm", "contDeriv"): return bool(v)
    if f == "opt_alg": return v
    if f == "maxDegrees": return tl(v) if len(v) else []
    return fl(v)


def text_lines(s):
    r = []
    for l in s.splitlines():
        if l:
            n, _, v = l.partition(" = ")
            try: x = float(v)
            except ValueError: x = 0.0
            r.append({"name": n, "text": v, "num": fl(x)})
    return r


def opt_op(op, L, e):
    if op == "onew": k, kind = L.n(), L.s(); MO[k] = (kind, KIND[kind][0]()); e.update(k=k, kind=kind)
    elif op == "oset":
        k, f, t = L.n(), L.s(), L.s(); v = from_text(f, t); setattr(MO[k][1], f, v); e.update(k=k, name=f, v=field_json(f, v))
    elif op == "ofile":                   # k becomes what b is, through a file
        k, b = L.n(), L.n(); MO[b][1].Serialize("opts.bin"); n = mt.MapOptions(); r = n.Deserialize("opts.bin"); os.remove("opts.bin")
        MO[k] = ("map", n if k % 2 else r); e.update(k=k, b=b)
    elif op == "oeq":
        a, b = L.n(), L.n(); e.update(a=a, b=b, eq=bool(MO[a][1] == MO[b][1]))
    elif op == "ostr":
        k = L.n(); kind, x = MO[k]; e.update(k=k, lines=text_lines(str(x)), rep=repr(x) == "<%s with fields\n%s>" % (KIND[kind][0].__name__, x))
    else: return False
    e["all"] = [{"k": k, "kind": kind, "f": {f: field_json(f, getattr(x, f)) for f in KIND[kind][1]}} for k, (kind, x) in sorted(MO.items())]
    put(e)
    return True


ONID = {"poke", "cmap", "setc", "setce", "setcb", "wrap", "wrape", "run", "line", "inv", "mirror", "save", "torch", "del", "coeffile"}
for l in open(sys.argv[1]):
    if not l.strip() or l[0] == "#": continue
    L = Line(l); op = L.s()
    if op == "reset":
        for d in (H, B, K, F, O, S, FX, LD, MO): d.clear()
        M.update({i: mt.MultiIndex() for i in range(4)})
        put({"op": "reset"}); continue
    if op in ONID and int(L.t[1]) not in H: continue
    if op == "keep" and int(L.t[2]) not in H: continue
    if op in ("train", "objrun") and int(L.t[2]) not in H: continue
    e = {"op": op}
    if not (map_op(op, L, e) or train_op(op, L, e) or set_op(op, L, e) or opt_op(op, L, e)):
        sys.stderr.write("unknown op %s\n" % op); sys.exit(3)
H.clear(); K.clear()
out.close()
