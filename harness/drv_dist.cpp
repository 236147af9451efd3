// Drives densities, samplers, training objectives, training and adaptive training on top of the map driver.
#define DRV_DIST
#include <thread>
#include <chrono>
#include <nlopt.hpp>
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/TransportDistributionFactory.h"
#include "MParT/MapObjective.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include "drv_map.cpp"

typedef Distribution<Mem> Dist;
struct DObj { std::shared_ptr<Dist> d; std::shared_ptr<PullbackDensity<Mem>> pull; int map = 0, ref = 0; char k = 'g'; };
static std::map<int, DObj> D;
static std::map<int, std::shared_ptr<MapObjective<Mem>>> O;
static std::vector<Arr*> arrs;
static StridedMatrix<const double, Mem> kept(char lay, Pts const& p, size_t d) { arrs.push_back(new Arr(to_arr(lay, p, d))); return arrs.back()->v; }
static Pts row_pts(std::vector<double> const& v) { Pts p; for (double x : v) p.push_back({x}); return p; }
template<class V> static std::vector<double> vec_of(V const& v) { std::vector<double> w(v.extent(0)); for (size_t i = 0; i < w.size(); ++i) w[i] = v(i); return w; }

static Pts dens(DObj& q, char k, char lay, Pts const& x, size_t d, bool& pad) {
    auto den = q.d->GetDensity();
    if (k == 'c' && !q.pull) throw std::logic_error("not a pullback");
    auto eigen = [&](auto const& X) -> Pts {
        if (k == 'v') { Eigen::VectorXd v = den->LogDensity(X); return row_pts(std::vector<double>(v.data(), v.data() + v.size())); }
        if (k == 'g') return cols_of_e(den->LogDensityInputGrad(X));
        return cols_of_e(q.pull->LogDensityCoeffGrad(X));
    };
    if (lay == 'E') return eigen(to_eigen(x, d));
    if (lay == 'B') { Eigen::RowMatrixXd XP = to_padded(x, d); return eigen(XP.block(1, 2, d, x.size())); }
    if (lay == 'L' || lay == 'R' || lay == 'S' || lay == 'D') {
        Arr X = to_arr(lay == 'D' ? 'R' : lay, x, d); StridedMatrix<const double, Mem> cx(X.v);
        if (k == 'v') return row_pts(vec_of(lay == 'D' ? q.d->LogDensity(cx) : den->LogDensity<Mem>(cx)));
        if (k == 'g') return cols_of(lay == 'D' ? q.d->LogDensityInputGrad(cx) : den->LogDensityInputGrad<Mem>(cx));
        return cols_of(q.pull->LogDensityCoeffGrad(cx));
    }
    char ak = lay == 'i' ? 'R' : lay == 'j' ? 'L' : 'S';
    Arr X = to_arr(ak, x, d); StridedMatrix<const double, Mem> cx(X.v);
    if (k == 'v') {
        std::vector<double> st(2 * x.size() + 2, GARBAGE); size_t step = ak == 'S' ? 2 : 1;
        Kokkos::View<double*, Kokkos::LayoutStride, Mem> o(st.data(), Kokkos::LayoutStride(x.size(), step));
        if (lay == 'j') q.d->LogDensityImpl(cx, o); else den->LogDensityImpl(cx, o);
        Pts p; for (size_t i = 0; i < x.size(); ++i) p.push_back({o(i)});
        for (size_t i = 0; i < st.size(); ++i) if ((i % step || i / step >= x.size()) && st[i] != GARBAGE) pad = false;
        return p;
    }
    Arr o = out_arr(ak, k == 'g' ? d : H.at(q.map).f->numCoeffs, x.size());
    if (k == 'g') { if (lay == 'j') q.d->LogDensityInputGradImpl(cx, o.v); else den->LogDensityInputGradImpl(cx, o.v); }
    else q.pull->LogDensityCoeffGradImpl(cx, o.v);
    if (!padding_ok(o)) pad = false;
    return cols_of(o.v);
}
static Pts sample(std::shared_ptr<Dist> d, char lay, unsigned n, bool& pad) {
    if (lay == 'V') return cols_of(d->Sample(n));
    if (lay == 'G') return cols_of(d->GetSampler()->Sample(n));
    Arr o = out_arr(lay, d->Dim(), n);
    if (lay == 'L') d->GetSampler()->SampleImpl(o.v); else d->SampleImpl(o.v);
    if (!padding_ok(o)) pad = false;
    return cols_of(o.v);
}
static std::vector<unsigned> block_sizes(std::shared_ptr<CM> m) {
    std::vector<unsigned> v; auto t = std::dynamic_pointer_cast<TriangularMap<Mem>>(m);
    if (!t) return {m->numCoeffs};
    unsigned rows = 0;
    for (unsigned k = 0; rows < m->outputDim; ++k) { auto c = t->GetComponent(k); v.push_back(c->numCoeffs); rows += c->outputDim; }
    return v;
}
static double frac(unsigned a, unsigned b) { unsigned long long z = 0x9E3779B97F4A7C15ull * (a * 1000003ull + b + 1); z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; return (z % 1000003) / 1000003.0; }

// An objective whose values are a script: training sees a convex quadratic in the coefficients, the test errors and
// the gradients at expanded maps are given numbers.  Every call is recorded.
struct ScriptObj : MapObjective<Mem> {
    unsigned od; std::vector<double> errs; unsigned seed; std::vector<double> wq; bool zero_grad = false;
    const double* testp; mutable std::string log; mutable unsigned nt = 0, ng = 0, nf = 0; mutable double last = 0; unsigned slow = 0;
    mutable std::vector<std::vector<unsigned>> sizes_at_grad, sizes_at_test;
    ScriptObj(StridedMatrix<const double, Mem> tr, StridedMatrix<const double, Mem> te, unsigned od_, std::vector<double> e, unsigned s) : MapObjective<Mem>(tr, te), od(od_), errs(e), seed(s), testp(te.data()) {}
    unsigned MapOutputDim() const override { return od; }
    double target(unsigned n, unsigned i) const { return 2 * frac(seed + n, i) - 1; }
    double weight(unsigned n, unsigned i) const { return 0.5 + frac(seed + 77 + n, i); }
    double quad(std::vector<double> const& c, double* g) const {
        double f = 3.0; unsigned n = c.size();
        for (unsigned i = 0; i < n; ++i) { double r = c[i] - target(n, i); f += 0.5 * weight(n, i) * r * r; if (g) g[i] = weight(n, i) * r; }
        return f;
    }
    void add(Ev const& e) const { if (log.size()) log += ","; log += e.s + "}"; }
    double ObjectiveImpl(StridedMatrix<const double, Mem> data, std::shared_ptr<CM> map) const override {
        if (data.data() != testp) { ++nf; if (slow) std::this_thread::sleep_for(std::chrono::microseconds(slow)); return quad(vals(*map), nullptr); }
        double v = errs.empty() ? quad(vals(*map), nullptr) : errs[std::min<size_t>(nt, errs.size() - 1)]; ++nt;
        auto sz = block_sizes(map); sizes_at_test.push_back(sz);
        unsigned n = map->numCoeffs; std::vector<double> tg; for (unsigned i = 0; i < n; ++i) tg.push_back(target(n, i));
        Ev e("test"); e.f("err", J(v)).f("sizes", J(sz)).f("c", J(vals(*map))).f("t", J(tg)).f("evals", J(nf)); add(e); nf = 0;
        return v;
    }
    void CoeffGradImpl(StridedMatrix<const double, Mem>, StridedVector<double, Mem> g, std::shared_ptr<CM> map) const override {
        std::vector<double> v(map->numCoeffs);
        for (unsigned i = 0; i < v.size(); ++i) { v[i] = zero_grad ? 0.0 : (frac(seed * 31 + ng, i) - 0.5) * 4; g(i) = v[i]; }
        ++ng; auto sz = block_sizes(map); sizes_at_grad.push_back(sz);
        Ev e("grad"); e.f("sizes", J(sz)).f("c", J(vals(*map))).f("g", J(v)).f("exp", raw("@" + std::to_string(ng - 1) + "@")); add(e);
    }
    double ObjectivePlusCoeffGradImpl(StridedMatrix<const double, Mem>, StridedVector<double, Mem> g, std::shared_ptr<CM> map) const override {
        ++nf; if (slow) std::this_thread::sleep_for(std::chrono::microseconds(slow)); auto c = vals(*map); std::vector<double> gg(c.size()); double f = quad(c, gg.data());
        for (unsigned i = 0; i < gg.size(); ++i) g(i) = gg[i];
        return f;
    }
};
static std::vector<std::vector<unsigned>> multis(MultiIndexSet const& s) { std::vector<std::vector<unsigned>> v; for (unsigned i = 0; i < s.Size(); ++i) v.push_back(s.IndexToMulti(i).Vector()); return v; }
static J sets_json(std::vector<MultiIndexSet> const& s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += J(multis(s[i])).s; } return raw(r + "]"); }
template<class T> static void train_opts(Line& L, T& o, Ev& e) {       // alg ftol_rel ftol_abs xtol_rel xtol_abs maxeval
    o.opt_alg = L.str(); o.opt_ftol_rel = L.d(); o.opt_ftol_abs = L.d(); o.opt_xtol_rel = L.d(); o.opt_xtol_abs = L.d(); o.opt_maxeval = L.num();
    o.opt_stopval = L.d(); o.opt_maxtime = L.d();
    e.f("stopval", J(o.opt_stopval)).f("maxtime", J(o.opt_maxtime)).f("alg", J(o.opt_alg)).f("ftol", J(std::max(o.opt_ftol_abs, 10 * o.opt_ftol_rel))).f("xtol", J(std::max(o.opt_xtol_abs, 2 * o.opt_xtol_rel))).f("maxeval", J(o.opt_maxeval));
}

// The optimizer called directly with the options of the training, on the same objective from the same start: where it ends.
struct Ref { std::string ret; double f = 0; std::vector<double> v; int evals = 0; std::string why; };
using OptFun = std::function<double(unsigned, const double*, double*)>;
static double ref_fun(unsigned n, const double* x, double* g, void* d) { return (*static_cast<OptFun*>(d))(n, x, g); }
static Ref optimizer(MapObjective<Mem>& o, std::shared_ptr<CM> m, std::vector<double> c0, TrainOptions const& to) {
    Ref q; std::vector<double> keep = vals(*m); OptFun fn = [&](unsigned n, const double* x, double* g) { return o(n, x, g, m); };
    q.ret = outcome([&] {
        nlopt::opt z(to.opt_alg.c_str(), m->numCoeffs); z.set_stopval(to.opt_stopval); z.set_ftol_rel(to.opt_ftol_rel); z.set_ftol_abs(to.opt_ftol_abs); z.set_xtol_rel(to.opt_xtol_rel);
        z.set_xtol_abs(to.opt_xtol_abs); z.set_maxeval(to.opt_maxeval); z.set_min_objective(ref_fun, &fn); q.v = c0; auto res = z.optimize(q.v, q.f); q.evals = z.get_numevals(); q.why = std::to_string((int)res);
    });
    V1 k("keep", keep.size()); for (size_t i = 0; i < keep.size(); ++i) k(i) = keep[i]; m->SetCoeffs(k);
    return q;
}
static void ref_fields(Ev& e, Ref const& q) { e.f("rret", J(q.ret)).f("rf", J(q.f)).f("rv", J(q.v)).f("revals", J(q.evals)).f("why", J(q.why)); }

static void dist_reset() { D.clear(); O.clear(); for (auto a : arrs) delete a; arrs.clear(); }
static bool dist_op(std::string const& op, Line& L, Out& out) {
    Ev e(op);
    if (op == "gauss") {            // gauss ID dim hasmean [mean] hascov [lower triangle row by row, dim*dim] layout
        int id = L.num(); unsigned dim = L.u(); bool hm = L.num(); std::vector<double> m; if (hm) for (unsigned i = 0; i < dim; ++i) m.push_back(L.d());
        bool hc = L.num(); Pts lo, cov; if (hc) { lo = read_pts(L, dim, dim); cov = Pts(dim, std::vector<double>(dim, 0.0));
            for (unsigned i = 0; i < dim; ++i) for (unsigned j = 0; j < dim; ++j) for (unsigned k = 0; k < dim; ++k) cov[i][j] += lo[i][k] * lo[j][k]; }
        char lay = L.str()[0];
        e.f("id", J(id)).f("dim", J(dim)).f("hasmean", J(hm)).f("mean", J(m)).f("hascov", J(hc)).f("lo", pts_json(lo));
        std::string r = outcome([&] {
            StridedVector<double, Mem> mv; if (hm) { V1 w("mean", dim); for (unsigned i = 0; i < dim; ++i) w(i) = m[i]; mv = w; }
            StridedMatrix<double, Mem> C; if (hc) { arrs.push_back(new Arr(to_arr(lay, cov, dim))); C = arrs.back()->v; }
            DObj q;
            if (hm && hc) q.d = CreateGaussianDistribution<Mem>(mv, C);
            else if (hm) q.d = CreateGaussianDistribution<Mem>(mv);
            else if (hc) q.d = CreateGaussianDistribution<Mem>(C);
            else q.d = CreateGaussianDistribution<Mem>(dim);
            if (hc) for (auto& x : arrs.back()->store) x = GARBAGE;        // the covariance may be reused by its owner
            D[id] = q;
        });
        e.f("ret", J(r)).f("gotdim", J(r == "ok" ? D[id].d->Dim() : 0u)); out.put(e);
    } else if (op == "pull" || op == "push") {      // pull ID map ref
        int id = L.num(), m = L.num(), ref = L.num();
        e.f("id", J(id)).f("map", J(m)).f("ref", J(ref));
        std::string r = outcome([&] {
            DObj q; q.map = m; q.ref = ref; q.k = op == "pull" ? 'l' : 's';
            auto mp = H.at(m).m; auto rd = D.at(ref).d;
            if (op == "pull") {
                if (mp->inputDim == mp->outputDim || mp->outputDim != rd->Dim()) { std::shared_ptr<Dist> x = CreatePullback<Mem>(mp, rd); q.d = x; q.pull = std::dynamic_pointer_cast<PullbackDensity<Mem>>(x->GetDensity()); }
                else { q.pull = std::make_shared<PullbackDensity<Mem>>(mp, rd->GetDensity()); q.d = std::make_shared<Dist>(rd->GetSampler(), q.pull); }
                if (!q.pull) q.pull = std::make_shared<PullbackDensity<Mem>>(mp, rd->GetDensity());
            } else { std::shared_ptr<Dist> x = CreatePushforward<Mem>(mp, rd); q.d = x; }
            D[id] = q;
        });
        e.f("ret", J(r)).f("gotdim", J(r == "ok" ? D[id].d->Dim() : 0u)); out.put(e);
    } else if (op == "dens" || op == "densf") {     // dens ID kinds layouts d n pts;  densf: at the image of the points
        int id = L.num(); std::string kinds = L.str(), lays = L.str(); unsigned d = L.u(), n = L.u(); Pts x = read_pts(L, n, d);
        if (!D.count(id)) return true;
        DObj& q = D.at(id); std::string before = snapshot();
        e.f("id", J(id)).f("x", pts_json(x)).f("n", J(n));
        Pts at = x;
        if (op == "densf") { bool p; std::string r = outcome([&] { at = quantity(*H.at(q.map).f, H.at(q.map).m.get(), 'e', 'R', x, d, {}, 0, p); }); e.f("y", pts_json(at)).f("eret", J(r)); if (r != "ok") return true; }
        if (q.k == 's') { Pts z; outcome([&] { auto mp = H.at(q.map).m; Arr Y = to_arr('R', at, d); Kokkos::View<double**, Mem> none("x1", 0, at.size()); StridedMatrix<const double, Mem> cn(none), cy(Y.v); z = cols_of(mp->Inverse(cn, cy)); }); e.f("z", pts_json(z)); }
        std::string res = "["; bool first = true;
        for (char lay : lays) for (char k : kinds) {
            bool pad = true; Pts v;
            std::string r = outcome([&] { v = dens(q, k, lay, at, d, pad); });
            Ev z(std::string(1, k)); z.f("lay", J(std::string(1, lay))).f("ret", J(r)).f("pad", J(pad)).f("v", pts_json(v));
            if (!first) res += ","; first = false; res += z.s + "}";
        }
        e.f("res", raw(res + "]")).f("pure", J(before == snapshot())); out.put(e);
    } else if (op == "samp") {      // samp ID n seed layouts: the first layout's samples are recorded, the others compared
        int id = L.num(); unsigned n = L.u(), seed = L.u(); std::string lays = L.str();
        if (!D.count(id)) return true;
        DObj& q = D.at(id); e.f("id", J(id)).f("n", J(n)).f("seed", J(seed)); std::string before = snapshot();
        bool pad = true; std::vector<Pts> s; Pts z, other, next; std::string r = outcome([&] {
            for (char lay : lays) { q.d->SetSeed(seed); s.push_back(sample(q.d, lay, n, pad)); }
            next = sample(q.d, lays[0], n, pad);
            q.d->SetSeed(seed + 1); other = sample(q.d, lays[0], n, pad);
            if (q.k != 'g') { D.at(q.ref).d->SetSeed(seed); z = sample(D.at(q.ref).d, 'V', n, pad); }
        });
        if (r != "ok") s.assign(1, {});
        // the same up to rounding (alignment may change the order of additions), or, for a preimage, up to the inversion's tolerance
        auto near = [](Pts const& a, Pts const& b, double tol) {
            if (a.size() != b.size()) return false;
            for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false;
                for (size_t j = 0; j < a[i].size(); ++j) if (!(a[i][j] == b[i][j] || (std::isnan(a[i][j]) && std::isnan(b[i][j])) || std::abs(a[i][j] - b[i][j]) <= tol * (1 + std::abs(a[i][j])))) return false; }
            return true; };
        auto image = [&](Pts const& p) { bool b = true; return quantity(*H.at(q.map).f, H.at(q.map).m.get(), 'e', 'R', p, q.d->Dim(), {}, 0, b); };
        bool same = true; for (auto& t : s) if (!near(t, s[0], 1e-9) && !(q.k == 'l' && (near(t, s[0], 1e-4) || near(image(t), image(s[0]), 1e-4))) && !(q.k == 's' && near(t, s[0], 1e-5))) same = false;
        e.f("ret", J(r)).f("s", pts_json(s[0])).f("z", pts_json(z)).f("repeatable", J(same)).f("fresh", J(!near(next, s[0], 1e-9))).f("seeded", J(!near(other, s[0], 1e-9))).f("pad", J(pad)).f("pure", J(before == snapshot())); out.put(e);
    } else if (op == "obj") {       // obj ID D(0: default Gaussian) dimarg layout d ntrain pts ntest pts
        int id = L.num(), di = L.num(); unsigned da = L.u(); char lay = L.str()[0]; unsigned d = L.u(), n = L.u(); Pts tr = read_pts(L, n, d); unsigned nt = L.u(); Pts te = read_pts(L, nt, d);
        e.f("id", J(id)).f("den", J(di)).f("tr", pts_json(tr)).f("te", pts_json(te));
        auto T = kept(lay, tr, d); StridedMatrix<const double, Mem> E; if (nt) E = kept(lay, te, d);
        if (di == 0) O[id] = nt ? ObjectiveFactory::CreateGaussianKLObjective<Mem>(T, E, da) : ObjectiveFactory::CreateGaussianKLObjective<Mem>(T, da);
        else if (nt) O[id] = std::make_shared<KLObjective<Mem>>(T, E, D.at(di).d->GetDensity());
        else O[id] = std::make_shared<KLObjective<Mem>>(T, D.at(di).d->GetDensity());
        e.f("dims", J(std::vector<unsigned>{O[id]->InputDim(), O[id]->MapOutputDim(), O[id]->NumSamples()})).f("mdim", J(da ? da : d)); out.put(e);
    } else if (op == "objrun") {    // objrun ID map
        int id = L.num(), m = L.num(); if (!H.count(m)) return true; auto o = O.at(id); auto mp = H.at(m).m; unsigned nc = mp->numCoeffs;
        e.f("id", J(id)).f("map", J(m)); std::string before = snapshot();
        double tv = 0, ev = 0, pv = 0, xv = 0; std::vector<double> g1, g2(nc), g3(nc), g4(nc); bool pad = true;
        std::string r = outcome([&] {
            tv = o->TrainError(mp); g1 = vec_of(o->TrainCoeffGrad(mp));
            std::vector<double> st(3 * nc + 4, GARBAGE); Kokkos::View<double*, Kokkos::LayoutStride, Mem> sv(st.data() + 1, Kokkos::LayoutStride(nc, 3));
            o->TrainCoeffGradImpl(mp, sv); for (unsigned i = 0; i < nc; ++i) g2[i] = sv(i);
            for (size_t i = 0; i < st.size(); ++i) if (((i + 2) % 3 || (i - 1) / 3 >= nc) && st[i] != GARBAGE) pad = false;
            V1 w("g", nc); for (unsigned i = 0; i < nc; ++i) w(i) = GARBAGE; pv = o->ObjectivePlusCoeffGradImpl(o->GetTrain(), w, mp); g3 = vec_of(w);
            std::vector<double> st2(2 * nc + 2, GARBAGE); Kokkos::View<double*, Kokkos::LayoutStride, Mem> s2(st2.data(), Kokkos::LayoutStride(nc, 2));
            xv = o->ObjectivePlusCoeffGradImpl(o->GetTrain(), s2, mp); for (unsigned i = 0; i < nc; ++i) g4[i] = s2(i);
            for (unsigned i = 0; i < nc; ++i) if (st2[2 * i + 1] != GARBAGE) pad = false;
        });
        std::string tr = outcome([&] { ev = o->TestError(mp); });
        e.f("ret", J(r)).f("tret", J(tr)).f("train", J(std::vector<double>{tv, pv, xv})).f("test", J(ev)).f("g", raw("[" + J(g1).s + "," + J(g2).s + "," + J(g3).s + "," + J(g4).s + "]")).f("pad", J(pad)).f("pure", J(before == snapshot())); out.put(e);
    } else if (op == "objcall") {   // objcall ID map coeffs withgrad: the optimizer's view
        int id = L.num(), m = L.num(); auto v = L.dvec(); bool wg = L.num(); if (!H.count(m)) return true; auto mp = H.at(m).m;
        std::vector<double> g(v.size() + 1, GARBAGE); double f = 0;
        std::string r = outcome([&] { f = (*O.at(id))(v.size(), v.data(), wg ? g.data() : nullptr, mp); });
        bool pad = g.back() == GARBAGE; g.pop_back();
        e.f("id", J(m)).f("obj", J(id)).f("v", J(v)).f("wg", J(wg)).f("ret", J(r)).f("f", J(f)).f("g", J(g)).f("pad", J(pad)); finish(e, out);
    } else if (op == "train") {     // train OBJ map opts
        int id = L.num(), m = L.num(); TrainOptions to; train_opts(L, to, e); if (!H.count(m)) return true; auto mp = H.at(m).m; auto o = O.at(id);
        double f = 0; bool had = mp->CheckCoefficients(); std::vector<double> c0 = had ? vals(*mp) : std::vector<double>();
        std::string r = outcome([&] { f = TrainMap<Mem>(mp, o, to); });
        e.f("id", J(m)).f("obj", J(id)).f("had", J(had)).f("c0", J(c0)).f("ret", J(r)).f("f", J(f)).f("v", J(mp->CheckCoefficients() ? vals(*mp) : std::vector<double>()));
        finish(e, out);
    } else if (op == "qtrain") {    // qtrain map seed slow(us) opts: training on a scripted convex quadratic
        int m = L.num(); unsigned seed = L.u(), slow = L.u(); TrainOptions to; train_opts(L, to, e); if (!H.count(m)) return true; auto mp = H.at(m).m;
        Pts tr(3, std::vector<double>(mp->inputDim, 0.5)); auto T = kept('R', tr, mp->inputDim), E = kept('R', tr, mp->inputDim);
        auto o = std::make_shared<ScriptObj>(T, E, mp->outputDim, std::vector<double>(), seed);
        double f = 0; unsigned n = mp->numCoeffs; std::vector<double> tg, wt; for (unsigned i = 0; i < n; ++i) { tg.push_back(o->target(n, i)); wt.push_back(o->weight(n, i)); }
        std::vector<double> c0 = mp->CheckCoefficients() ? vals(*mp) : std::vector<double>(); o->slow = slow;
        std::string r = outcome([&] { f = TrainMap<Mem>(mp, o, to); }); unsigned nf = o->nf; o->slow = 0;
        e.f("id", J(m)).f("c0", J(c0)).f("t", J(tg)).f("w", J(wt)).f("ret", J(r)).f("f", J(f)).f("evals", J(nf)).f("slow", J(slow)).f("v", J(mp->CheckCoefficients() ? vals(*mp) : std::vector<double>()));
        if (mp->CheckCoefficients()) ref_fields(e, optimizer(*o, mp, c0.empty() ? std::vector<double>(n, 1.0) : c0, to)); else ref_fields(e, Ref()); finish(e, out);
    } else if (op == "adapt") {     // adapt map-opts  opts patience maxsize hasmax maxdeg indim nsets sets errs seed zerograd
        ATMOptions ao; static_cast<MapOptions&>(ao) = read_opts(L); train_opts(L, ao, e); ao.maxPatience = L.u(); ao.maxSize = L.u();
        auto md = L.uvec(); if (md.size()) ao.maxDegrees = MultiIndex(md);
        unsigned ind = L.u(), nd = L.u(); std::vector<MultiIndexSet> s, init;
        for (unsigned i = 0; i < nd; ++i) { unsigned dim = L.u(); IMat mm = read_multis(L, dim); s.push_back(MultiIndexSet(mm)); }
        unsigned od = L.u(); auto errs = L.dvec(); unsigned seed = L.u(); bool zg = L.num(); init = s;
        Pts tr(3, std::vector<double>(ind, 0.5)); auto T = kept('R', tr, ind), E = kept('R', tr, ind);
        auto o = std::make_shared<ScriptObj>(T, E, od, errs, seed); o->zero_grad = zg;
        e.f("patience", J(ao.maxPatience)).f("maxsize", J(ao.maxSize)).f("maxdeg", J(md)).f("in", J(ind)).f("out", J(od)).f("init", sets_json(init));
        std::shared_ptr<CM> mp;
        std::string r = outcome([&] { mp = TrainMapAdaptive<Mem>(s, o, ao); });
        e.f("ret", J(r)).f("final", sets_json(s)).f("dims", r == "ok" ? dims(*mp) : raw("[]")).f("fsizes", J(r == "ok" ? block_sizes(mp) : std::vector<unsigned>())).f("c", J(r == "ok" ? vals(*mp) : std::vector<double>()));
        // The order of terms in the expanded sets, for as many steps as the returned sets tell which terms were added.
        std::string log = o->log; std::vector<MultiIndexSet> cur = init; bool known = r == "ok";
        for (size_t k = 0; k < o->sizes_at_grad.size(); ++k) {
            std::string ex = "[]";
            if (known) {
                std::vector<MultiIndexSet> x = cur; for (auto& t : x) t.Expand(); ex = sets_json(x).s;
                known = false;
                if (k + 1 < o->sizes_at_test.size()) { auto& sz = o->sizes_at_test[k + 1]; for (size_t b = 0; b < cur.size() && b < sz.size(); ++b) if (sz[b] == cur[b].Size() + 1 && s[b].Size() >= sz[b]) { cur[b] += s[b].IndexToMulti(sz[b] - 1); known = true; } }
            }
            std::string tag = "@" + std::to_string(k) + "@"; log.replace(log.find(tag), tag.size(), ex);
        }
        e.f("log", raw("[" + log + "]"));
        if (r == "ok") { std::vector<double> tg; unsigned n = mp->numCoeffs; for (unsigned i = 0; i < n; ++i) tg.push_back(o->target(n, i)); e.f("t", J(tg)); }
        out.put(e);
    } else return false;
    return true;
}
