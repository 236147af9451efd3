#include <set>
// Drives map construction, coefficient handling, evaluation, derivatives, inverses and serialization.
#include "maptools.h"
#include <map>
#include <sstream>
#include <omp.h>
#include "MParT/AffineFunction.h"
#include "MParT/AffineMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/IdentityMap.h"
#include "MParT/Initialization.h"
#include "MParT/SummarizedMap.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include "MParT/TriangularMap.h"

using namespace mpart;
struct Obj { std::shared_ptr<PF> f; std::shared_ptr<CM> m; };
static std::map<int, Obj> H;
typedef Kokkos::View<double*, Mem> V1;
static std::map<int, V1> B;
static std::map<std::string, std::string> files;

static std::vector<double> vals(PF const& f) {
    auto c = f.Coeffs();
    std::vector<double> v(c.extent(0));
    for (size_t i = 0; i < v.size(); ++i) v[i] = c(i);
    return v;
}
static bool is_set(PF const& f) { return f.CheckCoefficients(); }
static J raw(std::string s) { return J(s, 0); }
static J coeffs_json() {
    std::string s = "[";
    for (auto& p : H) {
        if (s.size() > 1) s += ",";
        const PF& f = *p.second.f;
        bool ok = is_set(f);
        s += "{\"id\":" + std::to_string(p.first) + ",\"set\":" + (ok ? "true" : "false") + ",\"v\":" + (ok && f.numCoeffs ? J(vals(f)).s : std::string("[]")) + "}";
    }
    return raw(s + "]");
}
static J bufs_json() {
    std::string s = "[";
    for (auto& p : B) {
        if (s.size() > 1) s += ",";
        std::vector<double> v(p.second.extent(0));
        for (size_t i = 0; i < v.size(); ++i) v[i] = p.second(i);
        s += "{\"b\":" + std::to_string(p.first) + ",\"v\":" + J(v).s + "}";
    }
    return raw(s + "]");
}
static std::string snapshot() { return coeffs_json().s + bufs_json().s; }
static void finish(Ev& e, Out& out) { e.f("cv", coeffs_json()).f("bufs", bufs_json()); out.put(e); }
static J dims(PF const& f) { return J(std::vector<unsigned>{f.inputDim, f.outputDim, f.numCoeffs}); }
static J pts_json(Pts const& p) {
    std::string s = "[";
    for (size_t i = 0; i < p.size(); ++i) { if (i) s += ","; s += J(p[i]).s; }
    return raw(s + "]");
}
// Dense in either order or a part of a larger array, taking turns
static unsigned turn = 0;
static StridedMatrix<double, Mem> mat(Line& L, unsigned r, unsigned c) {
    StridedMatrix<double, Mem> m;
    switch (turn++ % 3) {
        case 0: m = Kokkos::View<double**, Kokkos::LayoutRight, Mem>("A", r, c); break;
        case 1: m = Kokkos::View<double**, Kokkos::LayoutLeft, Mem>("A", r, c); break;
        case 2: { Kokkos::View<double**, Kokkos::LayoutRight, Mem> w("A", r + 2, c + 3); m = Kokkos::subview(w, std::make_pair(1u, r + 1), std::make_pair(2u, c + 2)); }
    }
    for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = L.d();
    return m;
}
static StridedVector<double, Mem> vec(Line& L, unsigned n) {
    StridedVector<double, Mem> v;
    if (turn % 2) { Kokkos::View<double**, Kokkos::LayoutRight, Mem> w("b", n, 3); v = Kokkos::subview(w, Kokkos::ALL(), 1); }
    else v = Kokkos::View<double*, Mem>("b", n);
    for (unsigned i = 0; i < n; ++i) v(i) = L.d();
    return v;
}
static J mat_json(StridedMatrix<double, Mem> A) {
    std::string s = "[";
    for (size_t i = 0; i < A.extent(0); ++i) {
        std::vector<double> r; for (size_t j = 0; j < A.extent(1); ++j) r.push_back(A(i, j));
        if (i) s += ","; s += J(r).s;
    }
    return raw(s + "]");
}
static std::vector<std::shared_ptr<CM>> kids(std::vector<unsigned> const& ids) {
    std::vector<std::shared_ptr<CM>> k;
    for (auto i : ids) k.push_back(H.at(i).m);
    return k;
}
static void reg(int id, std::shared_ptr<PF> f) {       // the components of id become id*10+1, ...
    Obj o; o.f = f; o.m = std::dynamic_pointer_cast<CM>(f); H[id] = o;
    if (auto t = std::dynamic_pointer_cast<TriangularMap<Mem>>(f)) {
        unsigned rows = 0;
        for (unsigned k = 0; rows < f->outputDim; ++k) { auto c = t->GetComponent(k); reg(id * 10 + 1 + k, c); rows += c->outputDim; }
    }
}

// Components from the constructor instead of the factory: no coefficients yet.
template<class B, class P, class Q> static std::shared_ptr<CM> comp_of(FixedMultiIndexSet<Mem> const& s, B b, Q q, MapOptions const& o) {
    MultivariateExpansionWorker<B, Mem> e(s, b);
    return std::make_shared<MonotoneComponent<MultivariateExpansionWorker<B, Mem>, P, Q, Mem>>(e, q, o.contDeriv, o.nugget);
}
template<class B> static std::shared_ptr<CM> direct_of(FixedMultiIndexSet<Mem> const& s, B b, MapOptions const& o) {
    bool sp = o.posFuncType == PosFuncTypes::SoftPlus;
    if (o.quadType == QuadTypes::ClenshawCurtis) {
        ClenshawCurtisQuadrature<Mem> q(o.quadPts, 1, nullptr);
        return sp ? comp_of<B, SoftPlus>(s, b, q, o) : comp_of<B, Exp>(s, b, q, o);
    }
    AdaptiveSimpson<Mem> q(o.quadMaxSub, 1, nullptr, o.quadAbsTol, o.quadRelTol, QuadError::First, o.quadMinSub);
    return sp ? comp_of<B, SoftPlus>(s, b, q, o) : comp_of<B, Exp>(s, b, q, o);
}
static std::shared_ptr<CM> direct(FixedMultiIndexSet<Mem> const& s, MapOptions const& o) {
    if (o.basisType == BasisTypes::ProbabilistHermite) return direct_of(s, ProbabilistHermite(o.basisNorm), o);
    if (o.basisType == BasisTypes::HermiteFunctions) return direct_of(s, HermiteFunction(), o);
    typedef LinearizedBasis<PhysicistHermite> LB;
    AdaptiveSimpson<Mem> q(o.quadMaxSub, 1, nullptr, o.quadAbsTol, o.quadRelTol, QuadError::First, o.quadMinSub);
    return comp_of<LB, SoftPlus>(s, LB(PhysicistHermite(o.basisNorm), o.basisLB, o.basisUB), q, o);
}

#ifdef DRV_DIST
static bool dist_op(std::string const& op, Line& L, Out& out);
static void dist_reset();
#endif

int main(int argc, char** argv) {
    Kokkos::initialize();
    {
    std::ifstream in(argv[1]); Out out; out.open(argv[2]);
    run_script(in, [&](Line& L) {
        std::string op = L.str();
        if (op == "reset") { H.clear(); B.clear(); files.clear();
#ifdef DRV_DIST
            dist_reset();
#endif
            out.put(Ev("reset")); return; }
#ifdef DRV_DIST
        if (dist_op(op, L, out)) return;
#endif
        static const std::set<std::string> onid{"poke", "cmap", "setc", "setce", "setcb", "wrap", "wrape", "run", "runx", "line", "inv", "mirror", "batch", "save"};
        if (onid.count(op)) { Line P = L; if (!H.count(P.num())) return; }     // its construction was refused
        Ev e(op);
        if (op == "mono" || op == "exp" || op == "dmono") {
            int id = L.num(); unsigned od = op == "exp" ? L.u() : 1;
            MapOptions o = read_opts(L); unsigned dim = L.u(); IMat m = read_multis(L, dim);
            e.f("id", J(id)).f("od", J(od)).f("opts", opts_json(o)).f("dim", J(dim));
            std::vector<std::vector<unsigned>> order; auto fx = fixed_of(m, &order); e.f("ms", J(order));
            std::string r = outcome([&] {
                Obj b;
                if (op == "dmono") { b.m = direct(fx, o); b.f = b.m; }
                else if (op == "mono") { b.m = MapFactory::CreateComponent<Mem>(fx, o); b.f = b.m; }
                else b.f = MapFactory::CreateExpansion<Mem>(od, fx, o);
                H[id] = b;
            });
            e.f("ret", J(r)); if (r == "ok") e.f("dims", dims(*H[id].f));
            finish(e, out);
        } else if (op == "aff" || op == "afun") {
            int id = L.num(); unsigned r = L.u(), c = L.u(); auto A = mat(L, r, c); unsigned nb = L.u(); auto b = vec(L, nb);
            e.f("id", J(id)).f("A", mat_json(A)).f("r", J(r)).f("c", J(c));
            std::vector<double> bv; for (unsigned i = 0; i < nb; ++i) bv.push_back(b(i));
            e.f("b", J(bv));
            std::string rr = outcome([&] {
                Obj q;
                if (op == "aff") {
                    if (r == 0) q.m = std::make_shared<AffineMap<Mem>>(b);
                    else if (nb == 0) q.m = std::make_shared<AffineMap<Mem>>(A);
                    else q.m = std::make_shared<AffineMap<Mem>>(A, b);
                    q.f = q.m;
                } else {
                    if (r == 0) q.f = std::make_shared<AffineFunction<Mem>>(b);
                    else if (nb == 0) q.f = std::make_shared<AffineFunction<Mem>>(A);
                    else q.f = std::make_shared<AffineFunction<Mem>>(A, b);
                }
                H[id] = q;
            });
            for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) A(i, j) = GARBAGE;      // copied at construction
            for (unsigned i = 0; i < nb; ++i) b(i) = GARBAGE;
            e.f("ret", J(rr)); if (rr == "ok") e.f("dims", dims(*H[id].f));
            finish(e, out);
        } else if (op == "ident") {
            int id = L.num(); unsigned i = L.u(), o = L.u();
            e.f("id", J(id)).f("in", J(i)).f("out", J(o));
            std::string r = outcome([&] { Obj q; q.m = std::make_shared<IdentityMap<Mem>>(i, o); q.f = q.m; H[id] = q; });
            e.f("ret", J(r)); if (r == "ok") e.f("dims", dims(*H[id].f));
            finish(e, out);
        } else if (op == "tri" || op == "comp") {
            int id = L.num(); auto ids = L.uvec(); bool mv = L.num(); int mc = op == "comp" ? L.num() : 0;
            e.f("id", J(id)).f("ch", J(ids)).f("move", J(mv)).f("maxc", J(mc));
            std::string r = outcome([&] {
                Obj q;
                // what is left out takes its documented default: coefficients not moved, one checkpoint per layer
                if (op == "tri") q.m = mv ? std::make_shared<TriangularMap<Mem>>(kids(ids), mv) : std::make_shared<TriangularMap<Mem>>(kids(ids));
                else q.m = mc != -1 ? std::make_shared<ComposedMap<Mem>>(kids(ids), mv, mc) : mv ? std::make_shared<ComposedMap<Mem>>(kids(ids), mv) : std::make_shared<ComposedMap<Mem>>(kids(ids));
                q.f = q.m; H[id] = q;
            });
            e.f("ret", J(r)); if (r == "ok") e.f("dims", dims(*H[id].f));
            finish(e, out);
        } else if (op == "sum") {
            int id = L.num(), f = L.num(), g = L.num();
            e.f("id", J(id)).f("f", J(f)).f("g", J(g));
            std::string r = outcome([&] { Obj q; q.m = std::make_shared<SummarizedMap<Mem>>(H.at(f).f, H.at(g).m); q.f = q.m; H[id] = q; });
            e.f("ret", J(r)); if (r == "ok") e.f("dims", dims(*H[id].f));
            finish(e, out);
        } else if (op == "single") {
            int id = L.num(); unsigned dim = L.u(), act = L.u(); int c = L.num();
            e.f("id", J(id)).f("dim", J(dim)).f("act", J(act)).f("c", J(c));
            std::string r = outcome([&] { Obj q; q.m = MapFactory::CreateSingleEntryMap<Mem>(dim, act, H.at(c).m); q.f = q.m; H[id] = q; });
            e.f("ret", J(r)); if (r == "ok") e.f("dims", dims(*H[id].f));
            finish(e, out);
        } else if (op == "ctri") {      // components become objects id*10+1, ...
            int id = L.num(); unsigned in = L.u(), ou = L.u(), ord = L.u(); MapOptions o = read_opts(L);
            e.f("id", J(id)).f("in", J(in)).f("out", J(ou)).f("order", J(ord)).f("opts", opts_json(o));
            std::vector<int> ch; std::string cd = "[";
            std::string r = outcome([&] {
                Obj q; q.m = MapFactory::CreateTriangular<Mem>(in, ou, ord, o); q.f = q.m; H[id] = q;
                if (auto t = std::dynamic_pointer_cast<TriangularMap<Mem>>(q.m)) {
                    for (unsigned i = 0; i < ou; ++i) {
                        Obj c; c.m = t->GetComponent(i); c.f = c.m; int k = id * 10 + 1 + i; H[k] = c; ch.push_back(k);
                        std::vector<std::vector<unsigned>> ms;
                        FixedMultiIndexSet<Mem> fs(in - ou + i + 1, ord);
                        for (unsigned q = 0; q < fs.Size(); ++q) ms.push_back(fs.IndexToMulti(q));
                        if (i) cd += ","; cd += "{\"dims\":" + dims(*c.f).s + ",\"ms\":" + J(ms).s + "}";
                    }
                }
            });
            e.f("ret", J(r)).f("ch", J(ch)).f("chd", raw(cd + "]")); if (r == "ok") e.f("dims", dims(*H[id].f));
            finish(e, out);
        } else if (op == "buf") {
            int b = L.num(); auto v = L.dvec(); V1 w("buf", v.size());
            for (size_t i = 0; i < v.size(); ++i) w(i) = v[i];
            B[b] = w; e.f("b", J(b)).f("v", J(v)); finish(e, out);
        } else if (op == "setc" || op == "setce") {
            int id = L.num(); auto v = L.dvec();
            e.f("id", J(id)).f("v", J(v));
            PF& f = *H.at(id).f;
            std::string r;
            if (op == "setc") {
                V1 w("src", v.size()); for (size_t i = 0; i < v.size(); ++i) w(i) = v[i];
                r = outcome([&] { f.SetCoeffs(Kokkos::View<const double*, Mem>(w)); });
                for (size_t i = 0; i < v.size(); ++i) w(i) = GARBAGE;       // the source may be reused by its owner
            } else {
                Eigen::VectorXd w = Eigen::Map<Eigen::VectorXd>(v.data(), v.size());
                r = outcome([&] { f.SetCoeffs(Eigen::Ref<Eigen::VectorXd>(w)); });
                w.setConstant(GARBAGE);
            }
            e.f("ret", J(r)); finish(e, out);
        } else if (op == "setcb") {          // copy from a user buffer that stays alive
            int id = L.num(), b = L.num(); e.f("id", J(id)).f("b", J(b));
            std::string r = outcome([&] { H.at(id).f->SetCoeffs(Kokkos::View<const double*, Mem>(B.at(b))); });
            e.f("ret", J(r)); finish(e, out);
        } else if (op == "wrap" || op == "wrape") {
            int id = L.num(), b = L.num(); e.f("id", J(id)).f("b", J(b));
            PF& f = *H.at(id).f; V1 w = B.at(b);
            std::string r;
            if (op == "wrap") r = outcome([&] { f.WrapCoeffs(w); });
            else { Eigen::Map<Eigen::VectorXd> mp(w.data(), w.extent(0)); r = outcome([&] { f.WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(mp)); }); }
            e.f("ret", J(r)); finish(e, out);
        } else if (op == "bpoke") {
            int b = L.num(), k = L.num(); double v = L.d(); B.at(b)(k) = v;
            e.f("b", J(b)).f("k", J(k)).f("x", J(v)); finish(e, out);
        } else if (op == "poke" || op == "cmap") {
            int id = L.num(), k = L.num(); double v = L.d(); PF& f = *H.at(id).f;
            std::string r = outcome([&] {
                if (op == "cmap") { Eigen::Map<Eigen::VectorXd> mp = f.CoeffMap(); if (k < mp.size()) mp(k) = v; }
                else { if (!f.CheckCoefficients()) throw std::runtime_error("unset"); f.Coeffs()(k) = v; }
            });
            e.f("id", J(id)).f("k", J(k)).f("x", J(v)).f("ret", J(r)); finish(e, out);
        } else if (op == "run" || op == "line" || op == "runx") {            // run ID kinds layouts d n pts ds n sens; line ID layouts d n pts
            int id = L.num(); bool ln = op == "line"; std::string kinds = !ln ? L.str() : "e", lays = L.str();
            unsigned d = L.u(), n = L.u(); Pts x = read_pts(L, n, d); unsigned ds = !ln ? L.u() : 0, ns = !ln ? L.u() : n; Pts s = read_pts(L, ns, ds);
            Obj& o = H.at(id);
            std::string before = snapshot();
            e.f("id", J(id)).f("x", pts_json(x)).f("s", pts_json(s));
            std::string res = "["; bool first = true;
            for (char lay : lays) for (char k : kinds) {
                bool pad = true; Pts v; std::string what;
                std::string r = outcome([&] { v = quantity(*o.f, o.m.get(), k, lay, x, d, s, ds, pad); }, &what);
                Ev q(std::string(1, k));
                q.f("lay", J(std::string(1, lay))).f("ret", J(r)).f("pad", J(pad)).f("v", pts_json(v));
                if (!first) res += ","; first = false;
                res += q.s + "}";
            }
            e.f("res", raw(res + "]")).f("pure", J(before == snapshot()));
            out.put(e);
        } else if (op == "inv") {            // inv ID layouts d1 n1 x1 dr nr r
            int id = L.num(); std::string lays = L.str();
            unsigned d1 = L.u(), n1 = L.u(); Pts x = read_pts(L, n1, d1); unsigned dr = L.u(), nr = L.u(); Pts r = read_pts(L, nr, dr);
            Obj& o = H.at(id);
            std::string before = snapshot();
            e.f("id", J(id)).f("x", pts_json(x)).f("r", pts_json(r));
            std::string res = "["; bool first = true;
            for (char lay : lays) {
                bool pad = true; Pts v, back; std::string rb;
                std::string rt = outcome([&] { v = inverse(*o.m, lay, x, d1, r, dr, pad); });
                Ev q("inv"); q.f("lay", J(std::string(1, lay))).f("ret", J(rt)).f("pad", J(pad)).f("v", pts_json(v));
                if (!first) res += ","; first = false;
                res += q.s + "}";
            }
            e.f("res", raw(res + "]")).f("pure", J(before == snapshot()));
            out.put(e);
        } else if (op == "mirror") {         // T(x) fed back: inv at r = T(x), x random (d_in)
            int id = L.num(); std::string lays = L.str(); unsigned d = L.u(), n = L.u(); Pts x = read_pts(L, n, d);
            Obj& o = H.at(id); bool pad = true; Pts r, x1;
            std::string before = snapshot();
            e.f("id", J(id)).f("xt", pts_json(x));
            std::string rt = outcome([&] { r = quantity(*o.f, o.m.get(), 'e', 'R', x, d, {}, 0, pad); });
            unsigned dr = o.f->outputDim;
            for (auto& p : x) x1.push_back(std::vector<double>(p.begin(), p.begin() + (d - dr)));
            e.f("eret", J(rt)).f("r", pts_json(r)).f("x", pts_json(x1));
            std::string res = "["; bool first = true;
            for (char lay : lays) {
                bool full = lay == 'F';      // full input rows given: the trailing ones are an initial guess
                Pts v; Pts xi = full ? x : x1; if (full) for (auto& p : xi) for (size_t i = d - dr; i < d; ++i) p[i] += 0.37;
                std::string q1 = outcome([&] { v = inverse(*o.m, full ? 'R' : lay, xi, full ? d : d - dr, r, dr, pad); });
                Ev q("inv"); q.f("lay", J(std::string(1, lay))).f("ret", J(q1)).f("pad", J(pad)).f("v", pts_json(v));
                if (!first) res += ","; first = false;
                res += q.s + "}";
            }
            e.f("res", raw(res + "]")).f("pure", J(before == snapshot()));
            out.put(e);
        } else if (op == "batch") {          // batch ID kinds d n pts ds n sens: one at a time, in halves, reversed, all threads, all layouts
            int id = L.num(); std::string kinds = L.str();
            unsigned d = L.u(), n = L.u(); Pts x = read_pts(L, n, d); unsigned ds = L.u(), ns = L.u(); Pts s = read_pts(L, ns, ds);
            Obj& o = H.at(id);
            e.f("id", J(id)).f("n", J(n));
            std::string before = snapshot();
            std::string res = "["; bool first = true;
            auto eval = [&](char k, char lay, Pts const& xx, Pts const& ss) { bool pad = true; Pts v; 
                if (k == 'z') {              // every target shares the first conditioning point, given once
                    unsigned dr = o.f->outputDim; Pts x1{std::vector<double>(x[0].begin(), x[0].begin() + (d - dr))};
                    v = inverse(*o.m, lay == 'R' || lay == 'E' || lay == 'B' ? 'i' : lay == 'L' ? 'j' : lay == 'S' ? 'k' : lay, x1, d - dr, ss, dr, pad); }
                else if (k == 'i') { unsigned dr = o.f->outputDim; Pts x1; for (auto& p : xx) x1.push_back(std::vector<double>(p.begin(), p.begin() + (d - dr)));
                    v = inverse(*o.m, lay, x1, d - dr, ss, dr, pad); }
                else v = quantity(*o.f, o.m.get(), k, lay, xx, d, ss, ds, pad);
                return v; };
            for (char k : kinds) {
                std::vector<std::pair<std::string, Pts>> ways; std::string r;
                int maxt = omp_get_max_threads();
                r = outcome([&] {
                    ways.push_back({"all", eval(k, 'R', x, s)});
                    Pts one, half, rev;
                    for (unsigned i = 0; i < n; ++i) one.push_back(eval(k, 'R', {x[i]}, {s[i]}).at(0));
                    ways.push_back({"single", one});
                    unsigned h = n / 2;
                    Pts a = eval(k, 'R', Pts(x.begin(), x.begin() + h), Pts(s.begin(), s.begin() + h)), b = eval(k, 'R', Pts(x.begin() + h, x.end()), Pts(s.begin() + h, s.end()));
                    half = a; half.insert(half.end(), b.begin(), b.end()); ways.push_back({"halves", half});
                    Pts xr(x.rbegin(), x.rend()), sr(s.rbegin(), s.rend()); rev = eval(k, 'R', xr, sr);
                    ways.push_back({"reversed", Pts(rev.rbegin(), rev.rend())});
                    for (char lay : std::string("LSEBijk")) ways.push_back({std::string("layout-") + lay, eval(k, lay, x, s)});
                    ways.push_back({"again", eval(k, 'R', x, s)});
                });
                Ev q(std::string(1, k)); q.f("ret", J(r));
                std::string w = "[";
                for (size_t i = 0; i < ways.size(); ++i) { if (i) w += ","; Ev z(ways[i].first); z.f("v", pts_json(ways[i].second)); w += z.s + "}"; }
                q.f("ways", raw(w + "]"));
                if (!first) res += ","; first = false;
                res += q.s + "}";
            }
            e.f("res", raw(res + "]")).f("pure", J(before == snapshot()));
            out.put(e);
        } else if (op == "save") {           // save ID FILE via(member|archive)
            int id = L.num(); std::string fn = L.str(), via = L.str();
            e.f("id", J(id)).f("file", J(fn)).f("via", J(via));
            std::string r = outcome([&] {
                std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
                if (via == "member") H.at(id).f->Save(ss);
                else { cereal::BinaryOutputArchive ar(ss); std::shared_ptr<CM> m = H.at(id).m; ar(m); }
                files[fn] += ss.str();
            });
            e.f("ret", J(r)).f("n", J(r == "ok" ? (int)files[fn].size() : 0)); finish(e, out);
        } else if (op == "load") {           // load FILE via n id1 of1 ... : reads n objects in a row
            std::string fn = L.str(), via = L.str(); unsigned n = L.u();
            std::stringstream ss(files[fn], std::ios::in | std::ios::binary);
            e.f("file", J(fn)).f("via", J(via));
            std::string res = "[";
            for (unsigned i = 0; i < n; ++i) {
                int id = L.num(), of = L.num(); Obj o;
                std::string r = outcome([&] {
                    if (via == "member") { o.f = PF::Load(ss); o.m = std::dynamic_pointer_cast<CM>(o.f); }
                    else { cereal::BinaryInputArchive ar(ss); ar(o.m); o.f = o.m; }
                    if (!o.f) throw std::runtime_error("null");
                    reg(id, o.f);
                });
                Ev q("obj"); q.f("id", J(id)).f("of", J(of)).f("ret", J(r)); if (r == "ok") q.f("dims", dims(*o.f));
                if (i) res += ","; res += q.s + "}";
                if (r != "ok") break;
            }
            e.f("objs", raw(res + "]")).f("rest", J((int)(files[fn].size() - (ss.tellg() < 0 ? files[fn].size() : (size_t)ss.tellg()))));
            finish(e, out);
        } else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
    });
    H.clear(); B.clear();
#ifdef DRV_DIST
    dist_reset();
#endif
    }
    Kokkos::finalize();
    return 0;
}
