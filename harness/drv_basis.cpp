// Drives the one-dimensional numerics: bases, expansion workers, quadrature, root finding, bijectors,
// sigmoids and tensor products.
#include "maptools.h"
#include <sstream>
#include <cereal/archives/binary.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include "MParT/Utilities/Serialization.h"
#include <map>
#include <cmath>
#include "MParT/DerivativeFlags.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include "MParT/Sigmoid.h"
#include "MParT/TensorProductFunction.h"
#include "MParT/Utilities/RootFinding.h"

using namespace mpart;
typedef std::vector<double> VD;
static J raw(std::string s) { return J(s, 0); }
static const double INFD = std::numeric_limits<double>::infinity();

// ---- scalar functions shared with the specification (Numerics.tla: Fn)
struct Fn { std::string t; VD p; };
static double fn(Fn const& f, double x) {
    const VD& p = f.p;
    if (f.t == "poly") { double v = 0; for (size_t i = p.size(); i-- > 0;) v = v * x + p[i]; return v; }
    if (f.t == "exp") return p[0] * std::exp(p[1] * x);
    if (f.t == "cos") return p[0] * std::cos(p[1] * x);
    if (f.t == "gauss") return p[0] * std::exp(-p[1] * (x - p[2]) * (x - p[2]));
    if (f.t == "abs") return p[0] * std::abs(x - p[1]);
    if (f.t == "logi") return p[0] / (1.0 + std::exp(-p[1] * (x - p[2]))) + p[3];
    if (f.t == "step") return p[0] * x + (x > p[1] ? p[2] : 0.0);
    if (f.t == "kink") return x < p[1] ? p[0] * (x - p[1]) : p[2] * (x - p[1]);
    if (f.t == "tab") {                       // values at lb + k (ub-lb)/n
        double h = (p[1] - p[0]) / (p.size() - 3); long k = std::lround((x - p[0]) / h);
        return p.at(2 + k);
    }
    std::fprintf(stderr, "fn %s\n", f.t.c_str()); std::exit(3);
}
static Fn read_fn(Line& L) { Fn f; f.t = L.str(); f.p = L.dvec(); return f; }
static J fn_json(Fn const& f) { Ev e("fn"); e.f("t", J(f.t)).f("p", J(f.p)); return raw(e.s + "}"); }
static std::vector<Fn> read_fns(Line& L) { unsigned n = L.u(); std::vector<Fn> v; for (unsigned i = 0; i < n; ++i) v.push_back(read_fn(L)); return v; }
static J fns_json(std::vector<Fn> const& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += fn_json(v[i]).s; } return raw(s + "]"); }

template<class B> static void basis_event(Ev& e, B const& b, unsigned n, double x) {
    VD v(n + 2, GARBAGE), a(n + 2, GARBAGE), d(n + 2, GARBAGE), a2(n + 2, GARBAGE), d2(n + 2, GARBAGE), dd(n + 2, GARBAGE);
    b.EvaluateAll(v.data(), n, x); b.EvaluateDerivatives(a.data(), d.data(), n, x); b.EvaluateSecondDerivatives(a2.data(), d2.data(), dd.data(), n, x);
    bool pad = true;
    for (VD* w : {&v, &a, &d, &a2, &d2, &dd}) { if (w->back() != GARBAGE) pad = false; w->pop_back(); }
    VD s0, s1, s2;
    for (unsigned k = 0; k <= n; ++k) { s0.push_back(b.Evaluate(k, x)); s1.push_back(b.Derivative(k, x)); s2.push_back(b.SecondDerivative(k, x)); }
    e.f("val", raw("[" + J(v).s + "," + J(a).s + "," + J(a2).s + "," + J(s0).s + "]")).f("der", raw("[" + J(d).s + "," + J(d2).s + "," + J(s1).s));
    e.s += "";
    e.s += "]";
    e.f("der2", raw("[" + J(dd).s + "," + J(s2).s + "]")).f("pad", J(pad));
}
template<class B> static void poly_only(Ev& e, B const& b, unsigned n, double x) {
    VD d(n + 2, GARBAGE); b.EvaluateDerivatives(d.data(), n, x); d.pop_back();
    e.f("donly", raw("[" + J(d).s + "]"));
}
template<class F> static void with_basis(std::string t, bool nrm, double lb, double ub, F&& f) {
    bool lin = std::isfinite(lb) || std::isfinite(ub);
    if (t == "prob") { if (lin) f(LinearizedBasis<ProbabilistHermite>(ProbabilistHermite(nrm), lb, ub)); else f(ProbabilistHermite(nrm)); }
    else if (t == "phys") { if (lin) f(LinearizedBasis<PhysicistHermite>(PhysicistHermite(nrm), lb, ub)); else f(PhysicistHermite(nrm)); }
    else { if (lin) f(LinearizedBasis<HermiteFunction>(HermiteFunction(), lb, ub)); else f(HermiteFunction()); }
}
static Kokkos::View<double*, Mem> view(VD const& v) { Kokkos::View<double*, Mem> w("v", v.size()); for (size_t i = 0; i < v.size(); ++i) w(i) = v[i]; return w; }
static VD vd(Kokkos::View<double*, Mem> v) { VD w(v.extent(0)); for (size_t i = 0; i < w.size(); ++i) w[i] = v(i); return w; }

template<class Q> static J integrate(Q& q, std::vector<Fn> const& fs, double lb, double ub, int how, unsigned ws, bool& pad, bool& inside, int& count) {
    unsigned n = fs.size(); count = 0;
    auto f = [&](double x, double* out) { ++count; if (x < std::fmin(lb, ub) - 1e-12 || x > std::fmax(lb, ub) + 1e-12) inside = false; for (unsigned i = 0; i < n; ++i) out[i] = fn(fs[i], x); };
    VD res(n + 1, GARBAGE);
    if (how == 0) q.Integrate(f, lb, ub, res.data());
    else {
        VD w(ws + 8, GARBAGE);
        if (how == 1) q.Integrate(w.data(), f, lb, ub, res.data());
        else { q.SetWorkspace(w.data()); q.Integrate(f, lb, ub, res.data()); }
        for (unsigned i = ws; i < w.size(); ++i) if (w[i] != GARBAGE) pad = false;
    }
    if (res[n] != GARBAGE) pad = false;
    res.pop_back();
    return J(res);
}

// An object as it comes back from an archive.
template<class T> static std::shared_ptr<T> archived(std::shared_ptr<T> o) {
    std::stringstream ss; { cereal::BinaryOutputArchive a(ss); a(o); } o.reset(); std::shared_ptr<T> n; { cereal::BinaryInputArchive a(ss); a(n); } return n;
}

int main(int argc, char** argv) {
    Kokkos::initialize();
    {
    std::ifstream in(argv[1]); Out out; out.open(argv[2]);
    run_script(in, [&](Line& L) {
        std::string op = L.str();
        Ev e(op);
        if (op == "reset") { out.put(e); return; }
        if (op == "basis") {           // basis T nrm lb ub n x
            std::string t = L.str(); bool arc = t[0] == '*'; if (arc) t = t.substr(1);
            bool nrm = L.num(); double lb = L.d(), ub = L.d(); unsigned n = L.u(); double x = L.d();
            e.f("b", raw((Ev("b").f("t", J(t)).f("nrm", J(nrm)).f("lb", J(lb)).f("ub", J(ub))).s + "}")).f("n", J(n)).f("x", J(x));
            with_basis(t, nrm, lb, ub, [&](auto b) { if (arc) basis_event(e, *archived(std::make_shared<decltype(b)>(b)), n, x); else basis_event(e, b, n, x); });
            if (!std::isfinite(lb) && !std::isfinite(ub) && t == "prob") poly_only(e, ProbabilistHermite(nrm), n, x);
            else if (!std::isfinite(lb) && !std::isfinite(ub) && t == "phys") poly_only(e, PhysicistHermite(nrm), n, x);
            else e.f("donly", raw("[]"));
        } else if (op == "worker") {   // worker T nrm lb ub compressed dim multis coeffs pt
            std::string t = L.str(); bool nrm = L.num(); double lb = L.d(), ub = L.d(); bool comp = L.num(); unsigned dim = L.u();
            IMat m = read_multis(L, dim); MultiIndexSet ms(m);
            std::vector<std::vector<unsigned>> order; for (unsigned i = 0; i < ms.Size(); ++i) order.push_back(ms.IndexToMulti(i).Vector());
            VD c = L.dvec(), x = L.dvec();
            e.f("b", raw((Ev("b").f("t", J(t)).f("nrm", J(nrm)).f("lb", J(lb)).f("ub", J(ub)).f("dense", J(!comp))).s + "}")).f("dim", J(dim)).f("ms", J(order)).f("c", J(c)).f("x", J(x));
            FixedMultiIndexSet<Mem> fx = ms.Fix(comp);
            auto C = view(c), X = view(x);
            with_basis(t, nrm, lb, ub, [&](auto b) {
                MultivariateExpansionWorker<decltype(b), Mem> w(fx, b);
                unsigned nc = w.NumCoeffs(), cs = w.CacheSize();
                e.f("sizes", J(std::vector<unsigned>{nc, w.InputSize()}));
                VD cache(cs + 4, GARBAGE);
                auto fill = [&](DerivativeFlags::DerivativeType a, DerivativeFlags::DerivativeType z) { w.FillCache1(cache.data(), X, a); w.FillCache2(cache.data(), X, x[dim - 1], z); };
                auto G = [&](unsigned n) { VD g(n + 1, GARBAGE); return view(g); };
                auto chop = [&](Kokkos::View<double*, Mem> g) { VD v = vd(g); v.pop_back(); return v; };
                VD fv; bool pad = true;
                fill(DerivativeFlags::None, DerivativeFlags::None); fv.push_back(w.Evaluate(cache.data(), C));
                auto gc = G(nc); fill(DerivativeFlags::Parameters, DerivativeFlags::Parameters); fv.push_back(w.CoeffDerivative(cache.data(), C, gc));
                fill(DerivativeFlags::Diagonal, DerivativeFlags::Diagonal); VD dd{w.DiagonalDerivative(cache.data(), C, 1)}; fv.push_back(w.Evaluate(cache.data(), C));
                fill(DerivativeFlags::Diagonal2, DerivativeFlags::Diagonal2); dd.push_back(w.DiagonalDerivative(cache.data(), C, 1)); VD d2{w.DiagonalDerivative(cache.data(), C, 2)};
                auto m1 = G(nc), m2 = G(nc); dd.push_back(w.MixedCoeffDerivative(cache.data(), C, 1, m1)); d2.push_back(w.MixedCoeffDerivative(cache.data(), C, 2, m2));
                auto gi = G(dim); fill(DerivativeFlags::Input, DerivativeFlags::Input); fv.push_back(w.InputDerivative(cache.data(), C, gi)); dd.push_back(w.DiagonalDerivative(cache.data(), C, 1));
                auto gm = G(dim); fill(DerivativeFlags::MixedInput, DerivativeFlags::MixedInput); dd.push_back(w.MixedInputDerivative(cache.data(), C, gm));
                for (unsigned i = cs; i < cache.size(); ++i) if (cache[i] != GARBAGE) pad = false;
                for (auto* g : {&gc, &m1, &m2, &gi, &gm}) if ((*g)(g->extent(0) - 1) != GARBAGE) pad = false;
                e.f("f", J(fv)).f("df", J(dd)).f("d2f", J(d2)).f("gc", J(chop(gc))).f("mc", J(chop(m1))).f("mc2", J(chop(m2))).f("gx", J(chop(gi))).f("mx", J(chop(gm))).f("pad", J(pad));
            });
        } else if (op == "rule") {     // rule n
            unsigned n = L.u(); auto r = ClenshawCurtisQuadrature<Mem>::GetRule(n);
            e.f("n", J(n)).f("w", J(VD(r.first.data(), r.first.data() + n))).f("x", J(VD(r.second.data(), r.second.data() + n)));
        } else if (op == "quad") {     // quad rule(cc|as|acc) npts/level maxsub minsub atol rtol metric how extra fns k lb ub...
            std::string rule = L.str(); unsigned np = L.u(), ms = L.u(), mn = L.u(); double at = L.d(), rt = L.d(); std::string me = L.str(); int how = L.num(); bool arc = how >= 3; how %= 3; unsigned extra = L.u();
            auto fs = read_fns(L); unsigned n = fs.size(), k = L.u();
            QuadError::Type qe = me == "first" ? QuadError::First : me == "inf" ? QuadError::NormInf : me == "two" ? QuadError::Norm2 : QuadError::Norm1;
            e.f("rule", J(rule)).f("np", J(np)).f("maxsub", J(ms)).f("minsub", J(mn)).f("atol", J(at)).f("rtol", J(rt)).f("metric", J(me)).f("fs", fns_json(fs));
            std::string rs = "[";
            auto go = [&](auto q0, unsigned ws) {
                auto keep = std::make_shared<decltype(q0)>(q0); if (arc) keep = archived(keep); auto& q = *keep;
                if (extra) q.SetDim(n);
                for (unsigned i = 0; i < k; ++i) {
                    double lb = L.d(), ub = L.d(); bool pad = true, inside = true; int count = 0;
                    J v = integrate(q, fs, lb, ub, how, ws, pad, inside, count);
                    Ev z("r"); z.f("lb", J(lb)).f("ub", J(ub)).f("v", v).f("pad", J(pad)).f("inside", J(inside)).f("count", J(count));
                    if (i) rs += ","; rs += z.s + "}";
                }
            };
            unsigned md = n + extra;
            if (rule == "cc") { unsigned ws = ClenshawCurtisQuadrature<Mem>::GetWorkspaceSize(n);
                if (how == 2) go(ClenshawCurtisQuadrature<Mem>(np, md, nullptr), ws); else go(ClenshawCurtisQuadrature<Mem>(np, md), ws); }
            else if (rule == "as") { unsigned ws = AdaptiveSimpson<Mem>::GetWorkspaceSize(ms, n);
                if (how == 2) go(AdaptiveSimpson<Mem>(ms, md, nullptr, at, rt, qe, mn), ws); else go(AdaptiveSimpson<Mem>(ms, md, at, rt, qe, mn), ws); }
            else { unsigned ws = AdaptiveClenshawCurtis<Mem>::GetWorkspaceSize(ms, n);
                if (how == 2) go(AdaptiveClenshawCurtis<Mem>(np, ms, md, nullptr, at, rt, qe, mn), ws); else go(AdaptiveClenshawCurtis<Mem>(np, ms, md, at, rt, qe, mn), ws); }
            e.f("res", raw(rs + "]"));
        } else if (op == "root" || op == "rootw") {     // root fn x0 yd xtol ftol
            Fn f = read_fn(L); double x0 = L.d(), yd = L.d(), xt = L.d(), ft = L.d(); int info = 77, count = 0; VD at, ay;
            auto g = [&](double x) { double y = fn(f, x); if (++count <= 400) { at.push_back(x); ay.push_back(y); } return y; };
            double x = RootFinding::InverseSingleBracket<Mem>(yd, g, x0, xt, ft, info);
            e.f("at", J(at)).f("ay", J(ay));
            e.f("fn", fn_json(f)).f("x0", J(x0)).f("yd", J(yd)).f("xtol", J(xt)).f("ftol", J(ft)).f("x", J(x)).f("info", J(info)).f("count", J(count));
        } else if (op == "bracket") {  // bracket fn xlb xub yd
            Fn f = read_fn(L); double a = L.d(), b = L.d(), yd = L.d(), ya = fn(f, a), yb = fn(f, b); int info = 77, count = 0;
            e.f("fn", fn_json(f)).f("a", J(a)).f("b", J(b)).f("yd", J(yd));
            auto g = [&](double x) { ++count; return fn(f, x); };
            RootFinding::FindBracket<Mem>(g, a, ya, b, yb, yd, info);
            e.f("xlb", J(a)).f("ylb", J(ya)).f("xub", J(b)).f("yub", J(yb)).f("info", J(info)).f("count", J(count));
        } else if (op == "bij") {      // bij T xs : values, derivatives; inverses at the values
            std::string t = L.str(); VD xs = L.dvec(), v, d, d2, i, ys, iy; 
            auto go = [&](auto b) { using B = decltype(b); for (double x : xs) { v.push_back(B::Evaluate(x)); d.push_back(B::Derivative(x)); d2.push_back(B::SecondDerivative(x)); i.push_back(B::Inverse(B::Evaluate(x))); }
                for (double x : xs) { double y = std::exp(x / 8); ys.push_back(y); iy.push_back(B::Inverse(y)); } };
            if (t == "exp") go(Exp()); else go(SoftPlus());
            e.f("t", J(t)).f("x", J(xs)).f("v", J(v)).f("d", J(d)).f("d2", J(d2)).f("inv", J(i)).f("y", J(ys)).f("iy", J(iy));
        } else if (op == "logistic") {
            VD xs = L.dvec(), v, d, i;
            for (double x : xs) { v.push_back(Logistic::Evaluate(x)); d.push_back(Logistic::Derivative(x)); i.push_back(Logistic::Inverse(Logistic::Evaluate(x))); }
            e.f("x", J(xs)).f("v", J(v)).f("d", J(d)).f("inv", J(i));
        } else if (op == "sigmoid") {  // sigmoid c w coeffs x s
            VD c = L.dvec(), w = L.dvec(), co = L.dvec(), x = L.dvec(), s = L.dvec();
            e.f("c", J(c)).f("w", J(w)).f("co", J(co)).f("x", J(x)).f("s", J(s));
            std::string r = outcome([&] {
                auto C = view(c), W = view(w);
                Sigmoid1d<Mem, Logistic> sg(C, W);
                sg.SetCoeffs(Kokkos::View<const double*, Mem>(view(co)));
                Pts X, S; for (double a : x) X.push_back({a}); for (double a : s) S.push_back({a});
                auto XV = to_view<Kokkos::LayoutLeft>(X, 1), SV_ = to_view<Kokkos::LayoutLeft>(S, 1);
                auto row = [&](Pts p) { VD v; for (auto& q : p) v.push_back(q[0]); return v; };
                e.f("nc", J(sg.numCoeffs)).f("v", J(row(cols_of(sg.Evaluate(XV)))));
                e.f("g", J(row(cols_of(sg.Gradient(SV_, XV))))).f("cg", J(cols_of(sg.CoeffGrad(SV_, XV))));         // this class: (sens, pts)
                e.f("gi", J(row(cols_of(sg.Gradient(XV, SV_))))).f("cgi", J(cols_of(sg.CoeffGrad(XV, SV_))));       // the interface: (pts, sens)
            });
            e.f("ret", J(r));
        } else if (op == "tensor") {   // tensor d1 multis1 d2 multis2 coeffs pt
            unsigned d1 = L.u(); IMat m1 = read_multis(L, d1); unsigned d2 = L.u(); IMat m2 = read_multis(L, d2); VD c = L.dvec(), x = L.dvec();
            MultiIndexSet s1(m1), s2(m2); std::vector<std::vector<unsigned>> o1, o2;
            for (unsigned i = 0; i < s1.Size(); ++i) o1.push_back(s1.IndexToMulti(i).Vector());
            for (unsigned i = 0; i < s2.Size(); ++i) o2.push_back(s2.IndexToMulti(i).Vector());
            typedef MultivariateExpansionWorker<ProbabilistHermite, Mem> W;
            W w1(s1.Fix(true), ProbabilistHermite()), w2(s2.Fix(true), ProbabilistHermite());
            TensorProductFunction<W, W> f(w1, w2);
            unsigned nc = f.NumCoeffs(), dim = d1 + d2;
            auto C = view(c), X = view(x); VD cache(f.CacheSize() + 2, GARBAGE);
            f.FillCache1(cache.data(), X, DerivativeFlags::None); f.FillCache2(cache.data(), X, x[dim - 1], DerivativeFlags::Diagonal2);
            double v = f.Evaluate(cache.data(), C); VD dd{f.DiagonalDerivative(cache.data(), C, 1), f.DiagonalDerivative(cache.data(), C, 2)};
            e.f("d1", J(d1)).f("d2", J(d2)).f("ms1", J(o1)).f("ms2", J(o2)).f("c", J(c)).f("x", J(x)).f("sizes", J(std::vector<unsigned>{nc, f.InputSize(), f.CacheSize() - w1.CacheSize() - w2.CacheSize()}));
            e.f("square", J(o1.size() == d1)).f("v", J(v)).f("dd", J(dd));
        } else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
        out.put(e);
    });
    }
    Kokkos::finalize();
    return 0;
}
