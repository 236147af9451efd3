// Containers, densities and objectives over user-defined parts: maps and a density over the integers modulo P whose
// derivatives are arbitrary integers (spec/Parts.tla).  Every call a part receives is recorded.
#include "maptools.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/MapObjective.h"
#include "MParT/Distributions/PullbackDensity.h"
#include "MParT/Distributions/PushforwardDensity.h"
#include <cmath>
#include <map>
using namespace mpart;
typedef long long Z;
static const Z P = 1009, INV17 = 831;
static Z md(Z a, Z m) { Z r = a % m; return r < 0 ? r + m : r; }
static std::string calls;                         // the log, as JSON
static void log(int id, const char* what) { calls += (calls.empty() ? "[" : ",[") + std::to_string(id) + ",\"" + what + "\"]"; }
typedef StridedMatrix<const double, Mem> CMat;
typedef StridedMatrix<double, Mem> MMat;
typedef std::vector<Z> V;
static V col(CMat const& m, int j, int n) { V v(n); for (int i = 0; i < n; ++i) v[i] = std::llround(m(i, j)); return v; }

class Part : public ConditionalMapBase<Mem> {
public:
    int id; Z l; int nin, nout, nc;
    Part(int id_, int l_, int nin_, int nout_, int nc_) : ConditionalMapBase<Mem>(nin_, nout_, nc_), id(id_), l(l_), nin(nin_), nout(nout_), nc(nc_) {}
    Z W() { Z s = 0; for (int k = 0; k < nc; ++k) s += (k + 1) * std::llround(this->savedCoeffs(k)); return s; }
    int own(int j) { return nout <= nin ? nin - nout + j : j % nin; }
    Z rest(V const& x, int j) {
        Z s = 0;
        for (int k = 0; k < nin - nout; ++k) s += (4 + k + l) * x[k];
        if (nout <= nin) for (int k = 0; k < j; ++k) s += (6 + k) * x[nin - nout + k];
        return s + 29 * l + 7 * (j + 1) + W();
    }
    void EvaluateImpl(CMat const& pts, MMat out) override {
        log(id, "e");
        for (size_t p = 0; p < pts.extent(1); ++p) { V x = col(pts, p, nin); for (int j = 0; j < nout; ++j) out(j, p) = md(17 * x[own(j)] + rest(x, j), P); }
    }
    void InverseImpl(CMat const& x1, CMat const& r, MMat out) override {
        log(id, "i");
        for (size_t p = 0; p < r.extent(1); ++p) {
            V x(nin, 0), y = col(r, p, nout);
            for (int k = 0; k < nin - nout; ++k) x[k] = std::llround(x1(k, p));
            for (int j = 0; j < nout; ++j) { x[nin - nout + j] = md(INV17 * md(y[j] - rest(x, j), P), P); out(j, p) = x[nin - nout + j]; }
        }
    }
    void GradientImpl(CMat const& pts, CMat const& sens, MMat out) override {
        log(id, "g");
        for (size_t p = 0; p < pts.extent(1); ++p) {
            V x = col(pts, p, nin), s = col(sens, p, nout);
            for (int i = 1; i <= nin; ++i) { Z t = 0; for (int j = 1; j <= nout; ++j) t += s[j - 1] * (md(l + i + 2 * j + x[0] + x[nin - 1] + W(), 3) - 1); out(i - 1, p) = t; }
        }
    }
    void CoeffGradImpl(CMat const& pts, CMat const& sens, MMat out) override {
        log(id, "c");
        for (size_t p = 0; p < pts.extent(1); ++p) {
            V x = col(pts, p, nin), s = col(sens, p, nout);
            for (int k = 1; k <= nc; ++k) { Z t = 0; for (int j = 1; j <= nout; ++j) t += s[j - 1] * (md(l + 2 * k + j + x[0] + 2 * x[nin - 1] + W(), 5) - 2); out(k - 1, p) = t; }
        }
    }
    void LogDeterminantImpl(CMat const& pts, StridedVector<double, Mem> out) override {
        log(id, "l");
        for (size_t p = 0; p < pts.extent(1); ++p) { V x = col(pts, p, nin); out(p) = md(l + 2 * x[0] + 3 * x[nin - 1] + W(), 7) - 3; }
    }
    void LogDeterminantInputGradImpl(CMat const& pts, MMat out) override {
        log(id, "I");
        for (size_t p = 0; p < pts.extent(1); ++p) { V x = col(pts, p, nin); for (int i = 1; i <= nin; ++i) out(i - 1, p) = md(l + 3 * i + x[0] + x[nin - 1] + W(), 5) - 2; }
    }
    void LogDeterminantCoeffGradImpl(CMat const& pts, MMat out) override {
        log(id, "L");
        for (size_t p = 0; p < pts.extent(1); ++p) { V x = col(pts, p, nin); for (int k = 1; k <= nc; ++k) out(k - 1, p) = md(2 * l + k + x[0] + W(), 5) - 2; }
    }
};
class PartDensity : public DensityBase<Mem> {
public:
    PartDensity(unsigned d) : DensityBase<Mem>(d) {}
    void LogDensityImpl(CMat const& pts, StridedVector<double, Mem> out) override {
        for (size_t p = 0; p < pts.extent(1); ++p) { V x = col(pts, p, pts.extent(0)); Z s = 3 * x.front() + 5 * x.back(); for (Z v : x) s += v; out(p) = md(s, 11) - 5; }
    }
    void LogDensityInputGradImpl(CMat const& pts, MMat out) override {
        for (size_t p = 0; p < pts.extent(1); ++p) { V x = col(pts, p, pts.extent(0)); for (size_t i = 0; i < x.size(); ++i) out(i, p) = md(x[0] + 2 * (Z)(i + 1) + x[i], 5) - 2; }
    }
};

static std::map<int, std::shared_ptr<CM>> maps;
static std::map<int, std::shared_ptr<Part>> parts;
static J num(double v) { return v == std::floor(v) && std::fabs(v) < 2e9 ? J((int)v) : J(std::to_string(v)); }
static J vec(std::vector<double> const& v) { std::string s; for (double x : v) s += (s.empty() ? "" : ",") + num(x).s; return J("[" + s + "]", 0); }
static J pts_json(Pts const& p) { std::string s; for (auto& x : p) s += (s.empty() ? "" : ",") + vec(x).s; return J("[" + s + "]", 0); }

int main(int argc, char** argv) {
    Kokkos::initialize();
    {
    Out out; out.open(argv[2]);
    std::ifstream in(argv[1]);
    run_script(in, [&](Line& L) {
        std::string op = L.str(); Ev e(op); calls.clear();
        auto dims = [&](CM& m) { e.f("dims", J(std::vector<unsigned>{m.inputDim, m.outputDim, m.numCoeffs})); };
        std::string o = "ok";
        if (op == "reset") { maps.clear(); parts.clear(); out.put(e); return; }
        if (op == "part") {
            int id = L.num(), l = L.num(), nin = L.num(), nout = L.num(), nc = L.num(); auto w = L.dvec();
            auto p = std::make_shared<Part>(id, l, nin, nout, nc);
            if (nc) { Kokkos::View<double*, Mem> c("c", nc); for (int k = 0; k < nc; ++k) c(k) = w[k]; p->SetCoeffs(Kokkos::View<const double*, Mem>(c)); }
            maps[id] = p; parts[id] = p;
            e.f("id", J(id)).f("l", J(l)).f("nin", J(nin)).f("nout", J(nout)).f("nc", J(nc)).f("w", vec(w)); dims(*p);
        } else if (op == "tri" || op == "comp") {
            int id = L.num(); auto ch = L.uvec(); int mv = L.num(), mx = op == "comp" ? L.num() : 0;
            std::vector<std::shared_ptr<CM>> v; for (unsigned c : ch) v.push_back(maps.at(c));
            e.f("id", J(id)).f("ch", J(ch)).f("max", J(mx));
            o = outcome([&] { if (op == "tri") maps[id] = std::make_shared<TriangularMap<Mem>>(v, mv); else maps[id] = std::make_shared<ComposedMap<Mem>>(v, mv, mx); dims(*maps.at(id)); });
        } else if (op == "sum") {
            int id = L.num(), f = L.num(), g = L.num();
            e.f("id", J(id)).f("f", J(f)).f("g", J(g));
            o = outcome([&] { maps[id] = std::make_shared<SummarizedMap<Mem>>(maps.at(f), maps.at(g)); dims(*maps.at(id)); });
        } else if (op == "coef") {
            int id = L.num(); auto w = L.dvec(); Kokkos::View<double*, Mem> c("c", w.size()); for (size_t k = 0; k < w.size(); ++k) c(k) = w[k];
            int how = L.num(); e.f("id", J(id)).f("w", vec(w));
            o = outcome([&] { if (how) maps.at(id)->WrapCoeffs(c); else maps.at(id)->SetCoeffs(Kokkos::View<const double*, Mem>(c)); });
        } else if (op == "q" || op == "inv" || op == "pull" || op == "push") {
            int id = L.num(); CM& m = *maps.at(id); std::string k = op == "q" || op == "pull" ? L.str() : "i"; char lay = L.str()[0]; unsigned n = L.u(); bool pad = true;
            int d = op == "inv" ? L.num() : m.inputDim;
            Pts x = read_pts(L, n, d), s, v; if (op == "q" || op == "inv") s = read_pts(L, n, m.outputDim);
            e.f("id", J(id)).f("k", J(k)).f("x", pts_json(x)).f(op == "inv" ? "r" : "s", pts_json(s));
            o = outcome([&] {
                if (op == "q") v = quantity(m, &m, k[0], lay, x, d, s, m.outputDim, pad);
                else if (op == "inv") v = inverse(m, lay, x, d, s, m.outputDim, pad);
                else {
                    auto den = std::make_shared<PartDensity>(m.outputDim); Arr X = to_arr(lay == 'S' ? 'S' : lay == 'L' ? 'L' : 'R', x, d); CMat cx(X.v);
                    auto list = [&](auto const& q) { for (size_t i = 0; i < q.extent(0); ++i) v.push_back({q(i)}); };
                    if (op == "push") { PushforwardDensity<Mem> p(maps.at(id), den); list(p.LogDensity(cx)); }
                    else {
                        PullbackDensity<Mem> p(maps.at(id), den);
                        if (k == "d") list(p.LogDensity(cx)); else if (k == "x") v = cols_of(p.LogDensityInputGrad(cx)); else v = cols_of(p.LogDensityCoeffGrad(cx));
                    }
                }
                if (!pad) throw std::runtime_error("wrote outside its output");
            });
            e.f("v", pts_json(v));
        } else if (op == "kl") {                  // sums over the points, so that they are integers
            int id = L.num(); unsigned n = L.u(); CM& m = *maps.at(id); Pts x = read_pts(L, n, m.inputDim); double v = 0, v2 = 0; std::vector<double> g(m.numCoeffs), w(m.numCoeffs);
            o = outcome([&] {
                KLObjective<Mem> kl(CMat(to_view<Kokkos::LayoutLeft>(x, m.inputDim)), std::make_shared<PartDensity>(m.outputDim));
                v = kl.TrainError(maps.at(id)) * n;
                for (size_t i = 0; i < w.size(); ++i) w[i] = m.Coeffs()(i);
                v2 = kl(w.size(), w.data(), g.data(), maps.at(id)) * n;
                for (double& q : g) q *= n;
            });
            e.f("id", J(id)).f("x", pts_json(x)).f("v", num(v)).f("v2", num(v2)).f("g", vec(g));
        } else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
        std::string ws;
        for (auto& kv : parts) if (kv.second->nc && kv.second->Coeffs().extent(0)) {
            std::vector<double> w; for (int k = 0; k < kv.second->nc; ++k) w.push_back(kv.second->Coeffs()(k));
            ws += (ws.empty() ? "{\"id\":" : ",{\"id\":") + std::to_string(kv.first) + ",\"w\":" + vec(w).s + "}";
        }
        e.f("out", J(o)).f("ws", J("[" + ws + "]", 0));
        if (op == "q") e.f("log", J("[" + calls + "]", 0));
        out.put(e);
    });
    maps.clear(); parts.clear();
    }
    Kokkos::finalize();
}
