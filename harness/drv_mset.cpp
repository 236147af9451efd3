// Multi-index sets: executes a script of operations on real MultiIndex / MultiIndexSet /
// FixedMultiIndexSet objects and logs arguments, results and the observable state after each.
#include <Kokkos_Core.hpp>
#include "common.h"
#include <map>
#include <memory>
#include "MParT/MultiIndices/MultiIndexSet.h"
#include <sstream>
#include <cereal/archives/binary.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include "MParT/Utilities/Serialization.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include "MParT/MultiIndices/MultiIndexNeighborhood.h"
using namespace mpart;
typedef std::function<bool(MultiIndex const&)> Lim;
typedef FixedMultiIndexSet<Kokkos::HostSpace> Fixed;
static Out out;

// limiter in prefix form; d(esc) receives its JSON form
static Lim limiter(Line& L, std::string& d) {
    std::string k = L.str();
    if (k == "None") { d = "[\"None\"]"; return MultiIndexLimiter::None(); }
    if (k == "TotalOrder") { unsigned p = L.u(); d = "[\"TotalOrder\"," + std::to_string(p) + "]"; return MultiIndexLimiter::TotalOrder(p); }
    if (k == "MaxDegree") { auto v = L.uvec(); d = "[\"MaxDegree\"," + J(v).s + "]"; return MultiIndexLimiter::MaxDegree(v); }
    if (k == "MaxDegree1") { unsigned p = L.u(), n = L.u(); d = "[\"MaxDegree\"," + J(std::vector<unsigned>(n, p)).s + "]"; return MultiIndexLimiter::MaxDegree(p, n); }
    if (k == "Dimension") { unsigned a = L.u(), b = L.u(); d = "[\"Dimension\"," + std::to_string(a) + "," + std::to_string(b) + "]"; return MultiIndexLimiter::Dimension(a, b); }
    if (k == "Aniso") {           // weights w/4, threshold e/100
        auto v = L.uvec(); unsigned e = L.u();
        d = "[\"Aniso\"," + J(v).s + "," + std::to_string(e) + "]";
        std::vector<double> w; for (auto x : v) w.push_back(x / 4.0);
        return MultiIndexLimiter::Anisotropic(w, e / 100.0);
    }
    std::string a, b; Lim f = limiter(L, a), g = limiter(L, b);
    d = "[\"" + k + "\"," + a + "," + b + "]";
    if (k == "And") return MultiIndexLimiter::And(f, g);
    if (k == "Or") return MultiIndexLimiter::Or(f, g);
    if (k == "Xor") return MultiIndexLimiter::Xor(f, g);
    std::fprintf(stderr, "script: limiter %s\n", k.c_str()); std::exit(3);
}

static std::map<int, std::unique_ptr<MultiIndexSet>> S;
static std::map<int, std::unique_ptr<Fixed>> F;
static std::map<int, std::string> LD;      // the limiter of each slot, in JSON form

typedef std::vector<std::vector<unsigned>> VV;
static VV dense(std::vector<MultiIndex> const& v) { VV o; for (auto& m : v) o.push_back(m.Vector()); return o; }
static VV active(MultiIndexSet const& s) { VV o; for (unsigned i = 0; i < s.Size(); ++i) o.push_back(s.IndexToMulti(i).Vector()); return o; }

static std::vector<std::vector<unsigned>> box;      // probe multi-indices for membership queries

static J observe(MultiIndexSet const& s) {
    VV act = active(s);
    std::vector<unsigned> naf, nf, expd; VV bwd;
    for (unsigned i = 0; i < s.Size(); ++i) {
        naf.push_back(s.NumActiveForward(i)); nf.push_back(s.NumForward(i)); bwd.push_back(s.BackwardNeighbors(i));
        if (s.IsExpandable(i)) expd.push_back(i);
    }
    VV at, br; for (unsigned i = 0; i < s.Size(); ++i) { at.push_back(s.at(i).Vector()); br.push_back(s[i].Vector()); }
    std::vector<int> idx; VV isact, isadm;
    for (auto& b : box) {
        if (b.size() != s.Length()) continue;
        idx.push_back(s.MultiToIndex(MultiIndex(b)));
        if (s.IsActive(MultiIndex(b))) isact.push_back(b);
        if (s.IsAdmissible(MultiIndex(b))) isadm.push_back(b);
    }
    VV probes; for (auto& b : box) if (b.size() == s.Length()) probes.push_back(b);
    Ev e("obs");
    e.f("len", s.Length()).f("act", act).f("at", at).f("br", br).f("maxo", s.MaxOrders()).f("margin", dense(s.Margin())).f("rmargin", dense(s.ReducedMargin()))
     .f("front", s.Frontier()).f("strict", s.StrictFrontier()).f("naf", naf).f("nf", nf).f("bwd", bwd).f("expd", expd)
     .f("probes", probes).f("idx", idx).f("isact", isact).f("isadm", isadm);
    return J(e.s + "}", 0);
}
static J allacts() {
    std::string s = "["; bool first = true;
    for (auto& p : S) { if (!first) s += ","; first = false; s += "{\"s\":" + std::to_string(p.first) + ",\"act\":" + J(active(*p.second)).s + "}"; }
    return J(s + "]", 0);
}
static void put(Ev& e, int s) {
    if (s >= 0) e.f("obs", observe(*S.at(s)));
    out.put(e.f("all", allacts()));
}
static J fixedobs(Fixed const& f, VV const& probes) {
    VV m; for (unsigned i = 0; i < f.Size(); ++i) m.push_back(f.IndexToMulti(i));
    std::vector<unsigned> md; auto v = f.MaxDegrees(); for (unsigned i = 0; i < v.extent(0); ++i) md.push_back(v(i));
    std::vector<int> idx; for (auto& p : probes) idx.push_back(f.MultiToIndex(p));
    std::vector<int> self; for (auto& p : m) self.push_back(f.MultiToIndex(p));
    std::vector<unsigned> nz; // number of stored nonzeros per term, from the public arrays the expansions use
    for (unsigned i = 0; i < f.Size(); ++i) nz.push_back(f.nzStarts(i + 1) >= f.nzStarts(i) ? f.nzStarts(i + 1) - f.nzStarts(i) : 99999u);
    VV viaArrays;
    for (unsigned i = 0; i < f.Size(); ++i) {
        std::vector<unsigned> x(f.Length(), 0);
        for (unsigned j = f.nzStarts(i); j < f.nzStarts(i + 1); ++j) x.at(f.nzDims(j)) = f.nzOrders(j);
        viaArrays.push_back(x);
    }
    Ev e("fobs");
    e.f("len", f.Length()).f("multis", m).f("maxd", md).f("probes", probes).f("idx", idx).f("self", self).f("nz", nz).f("arr", viaArrays);
    return J(e.s + "}", 0);
}
static VV probes_for(unsigned len) { VV p; for (auto& b : box) if (b.size() == len) p.push_back(b); return p; }

static void do_mutation(Line& L, std::string const& op, Ev& e, int& slot) {
    if (op == "new") {
        slot = L.num(); unsigned len = L.u(); std::string d; Lim l = limiter(L, d);
        S[slot].reset(new MultiIndexSet(len, l)); LD[slot] = d; e.f("s", slot).f("len", len).f("lim", J(d, 0));
    } else if (op == "total" || op == "tensor") {
        slot = L.num(); unsigned len = L.u(), p = L.u(); std::string d; Lim l = limiter(L, d);
        S[slot].reset(new MultiIndexSet(op == "total" ? MultiIndexSet::CreateTotalOrder(len, p, l) : MultiIndexSet::CreateTensorProduct(len, p, l)));
        e.f("s", slot).f("len", len).f("p", p).f("lim", J(d, 0));
    } else if (op == "matrix") {
        slot = L.num(); unsigned n = L.u(), len = L.u(); Eigen::MatrixXi m(n, len); VV rows;
        for (unsigned i = 0; i < n; ++i) { rows.emplace_back(); for (unsigned j = 0; j < len; ++j) { m(i, j) = L.num(); rows.back().push_back(m(i, j)); } }
        S[slot].reset(new MultiIndexSet(m)); e.f("s", slot).f("len", len).f("rows", rows);
    } else if (op == "copy") {        // copy construction
        slot = L.num(); int b = L.num(); std::unique_ptr<MultiIndexSet> c(new MultiIndexSet(*S.at(b))); S[slot] = std::move(c);
        e.f("s", slot).f("b", b);
    } else if (op == "assign") {
        slot = L.num(); int b = L.num(); std::string r = outcome([&] { *S.at(slot) = *S.at(b); });
        e.f("s", slot).f("b", b).f("ret", r);
    } else if (op == "plus") {        // slot = b + c
        slot = L.num(); int b = L.num(), c = L.num(); std::unique_ptr<MultiIndexSet> r(new MultiIndexSet(*S.at(b) + *S.at(c))); S[slot] = std::move(r);
        e.f("s", slot).f("b", b).f("c", c);
    } else if (op == "plusm") {       // slot = b + multi
        slot = L.num(); int b = L.num(); auto m = L.uvec(); std::unique_ptr<MultiIndexSet> r(new MultiIndexSet(*S.at(b) + MultiIndex(m))); S[slot] = std::move(r);
        e.f("s", slot).f("b", b).f("m", m);
    } else if (op == "add") {
        slot = L.num(); auto m = L.uvec(); int r = S.at(slot)->AddActive(MultiIndex(m)); e.f("s", slot).f("m", m).f("ret", r);
    } else if (op == "iadd") {
        slot = L.num(); auto m = L.uvec(); *S.at(slot) += MultiIndex(m); e.f("s", slot).f("m", m);
    } else if (op == "union") {
        slot = L.num(); int b = L.num(); unsigned r = S.at(slot)->Union(*S.at(b)); e.f("s", slot).f("b", b).f("ret", r);
    } else if (op == "iunion") {
        slot = L.num(); int b = L.num(); *S.at(slot) += *S.at(b); e.f("s", slot).f("b", b);
    } else if (op == "activate") {    // only called when the set says the multi-index is admissible
        slot = L.num(); auto m = L.uvec(); bool adm = S.at(slot)->IsAdmissible(MultiIndex(m));
        if (adm) S.at(slot)->Activate(MultiIndex(m));
        e.f("s", slot).f("m", m).f("adm", adm);
    } else if (op == "expand") {      // index modulo Size()+1, so that out-of-range is exercised too
        slot = L.num(); unsigned i = L.u() % (S.at(slot)->Size() + 1); std::vector<unsigned> r;
        std::string oc = outcome([&] { r = S.at(slot)->Expand(i); }); e.f("s", slot).f("i", i).f("out", oc).f("ret", r);
    } else if (op == "expandall") {
        slot = L.num(); std::vector<unsigned> r = S.at(slot)->Expand(); e.f("s", slot).f("ret", r);
    } else if (op == "fexpand") {
        slot = L.num(); unsigned n = S.at(slot)->Size(); unsigned i = L.u(); std::vector<unsigned> r;
        if (n > 0) r = S.at(slot)->ForciblyExpand(i % n);
        e.f("s", slot).f("i", n > 0 ? (int)(i % n) : -1).f("ret", r);
    } else if (op == "factivate") {   // only called when the limiter accepts the multi-index
        slot = L.num(); auto m = L.uvec(); bool acc = S.at(slot)->GetLimiter()(MultiIndex(m)); std::vector<unsigned> r;
        if (acc) r = S.at(slot)->ForciblyActivate(MultiIndex(m));
        e.f("s", slot).f("m", m).f("acc", acc).f("ret", r);
    } else if (op == "setlim") {
        slot = L.num(); std::string d; Lim l = limiter(L, d); std::string r = outcome([&] { S.at(slot)->SetLimiter(l); }); if (r == "ok") LD[slot] = d;
        e.f("s", slot).f("lim", J(d, 0)).f("ret", r);
    } else { std::fprintf(stderr, "script: op %s\n", op.c_str()); std::exit(3); }
}

static MultiIndex M[4];
static J mobs(MultiIndex const& m) {
    std::vector<unsigned> g; for (unsigned i = 0; i < m.Length(); ++i) g.push_back(m.Get(i));
    std::ostringstream os; os << m;
    Ev e("m"); e.f("get", g).f("vec", m.Vector()).f("sum", m.Sum()).f("max", m.Max()).f("nnz", m.NumNz()).f("len", m.Length()).f("str", m.String()).f("stream", os.str());
    return J(e.s + "}", 0);
}
static void mput(Ev& e) { std::string s = "["; for (int i = 0; i < 4; ++i) { if (i) s += ","; s += mobs(M[i]).s; } out.put(e.f("regs", J(s + "]", 0))); }

int main(int argc, char** argv) {
    Kokkos::initialize(argc, argv);
    {
        if (argc > 2) out.open(argv[2]);
        std::ifstream in(argv[1]);
        DefaultNeighborhood nb;
        run_script(in, [&](Line& L) {
            std::string op = L.str();
            if (op == "reset") { S.clear(); F.clear(); for (auto& m : M) m = MultiIndex(); out.put(Ev("reset")); return; }
            if (op == "box") { box.clear(); unsigned len = L.u(), mx = L.u(); std::vector<unsigned> v(len, 0);
                while (true) { box.push_back(v); unsigned i = 0; while (i < len && v[i] == mx) v[i++] = 0; if (i == len) break; v[i]++; } return; }
            // values -------------------------------------------------------------------
            if (op == "mvec") { int r = L.num(); auto v = L.uvec(); M[r] = MultiIndex(v); Ev e(op); mput(e.f("r", r).f("v", v)); return; }
            if (op == "mptr") { int r = L.num(); auto v = L.uvec(); M[r] = MultiIndex(v.data(), (unsigned)v.size()); Ev e("mvec"); mput(e.f("r", r).f("v", v)); return; }
            if (op == "meig") { int r = L.num(); auto v = L.uvec(); Eigen::RowVectorXi x(v.size()); for (size_t i = 0; i < v.size(); ++i) x(i) = v[i]; M[r] = MultiIndex(x); Ev e("mvec"); mput(e.f("r", r).f("v", v)); return; }
            if (op == "minit") { int r = L.num(); auto v = L.uvec();
                if (v.size() == 1) M[r] = MultiIndex{v[0]}; else if (v.size() == 2) M[r] = MultiIndex({v[0], v[1]}); else if (v.size() == 3) M[r] = MultiIndex({v[0], v[1], v[2]}); else M[r] = MultiIndex(v);
                if (v.size() == 1) { M[r] = MultiIndex(std::initializer_list<unsigned int>{v[0]}); }
                Ev e("mvec"); mput(e.f("r", r).f("v", v)); return; }
            if (op == "mconst") { int r = L.num(); unsigned n = L.u(), v = L.u(); M[r] = MultiIndex(n, v); Ev e("mvec"); mput(e.f("r", r).f("v", std::vector<unsigned>(n, v))); return; }
            if (op == "mcopy") { int r = L.num(), b = L.num(); M[r] = M[b]; Ev e(op); mput(e.f("r", r).f("b", b)); return; }
            if (op == "mset") { int r = L.num(); unsigned i = L.u(), v = L.u(); bool ret = false; std::string oc = outcome([&] { ret = M[r].Set(i, v); });
                Ev e(op); mput(e.f("r", r).f("i", i).f("v", v).f("out", oc).f("ret", ret)); return; }
            if (op == "mget") { int r = L.num(); unsigned i = L.u(), v = 0; std::string oc = outcome([&] { v = M[r].Get(i); });
                Ev e(op); mput(e.f("r", r).f("i", i).f("out", oc).f("ret", v)); return; }
            if (op == "mcmp") { int a = L.num(), b = L.num(); MultiIndex const &x = M[a], &y = M[b];
                Ev e(op); e.f("a", a).f("b", b).f("lt", x < y).f("gt", x > y).f("le", x <= y).f("ge", x >= y).f("eq", x == y).f("ne", x != y);
                bool ab = false; std::string oc = outcome([&] { ab = x.AnyBounded(y); });
                e.f("about", oc).f("ab", ab);
                if (x.Length() == y.Length()) e.f("fwd", nb.IsForward(x, y)).f("bwd", nb.IsBackward(x, y));
                mput(e); return; }
            if (op == "mnb") { int a = L.num(); Ev e(op); mput(e.f("a", a).f("fw", dense(nb.ForwardNeighbors(M[a]))).f("bw", dense(nb.BackwardNeighbors(M[a])))); return; }
            // fixed sets ---------------------------------------------------------------
            if (op == "fix") { int f = L.num(), s = L.num(); bool c = L.num(); F[f].reset(new Fixed(S.at(s)->Fix(c)));
                Ev e(op); e.f("f", f).f("s", s).f("c", c).f("fobs", fixedobs(*F[f], probes_for(S.at(s)->Length()))); out.put(e.f("all", allacts())); return; }
            if (op == "ftotal") { int f = L.num(); unsigned d = L.u(), p = L.u(); F[f].reset(new Fixed(d, p));
                Ev e(op); out.put(e.f("f", f).f("d", d).f("p", p).f("fobs", fixedobs(*F[f], probes_for(d))).f("all", allacts())); return; }
            if (op == "fcopy") { int f = L.num(), g = L.num(); F[f].reset(new Fixed(*F.at(g))); Ev e(op); out.put(e.f("f", f).f("g", g).f("fobs", fixedobs(*F[f], probes_for(F[f]->Length()))).f("all", allacts())); return; }
            if (op == "fsave") { int f = L.num(), g = L.num(); std::stringstream ss; { cereal::BinaryOutputArchive a(ss); a(F.at(g)); } { cereal::BinaryInputArchive a(ss); a(F[f]); }    // a copy by way of an archive
                Ev e("fcopy"); out.put(e.f("f", f).f("g", g).f("fobs", fixedobs(*F[f], probes_for(F[f]->Length()))).f("all", allacts())); return; }
            if (op == "fobs") { int f = L.num(); Ev e(op); out.put(e.f("f", f).f("fobs", fixedobs(*F.at(f), probes_for(F.at(f)->Length()))).f("all", allacts())); return; }
            if (op == "filter") { int s = L.num(); auto m = L.uvec(); auto r = S.at(s)->FilterBounded(MultiIndex(m)); std::vector<unsigned> k;
                for (unsigned i = 0; i < r.size(); ++i) if (r[i]) k.push_back(i);
                Ev e(op); e.f("s", s).f("m", m).f("n", (unsigned)r.size()).f("ret", k); put(e, s); return; }
            if (op == "limcheck") {   // the limiter functors themselves
                unsigned len = L.u(); std::string d; Lim l = limiter(L, d); VV yes, pr = probes_for(len);
                for (auto& p : pr) if (l(MultiIndex(p))) yes.push_back(p);
                Ev e(op); out.put(e.f("lim", J(d, 0)).f("probes", pr).f("yes", yes).f("all", allacts())); return; }
            if (op == "vis") { int s = L.num(); std::ostringstream os; S.at(s)->Visualize(os);
                // the grid, as (column, row, letter)
                std::vector<std::string> cells; std::istringstream is(os.str()); std::string ln;
                while (std::getline(is, ln)) { size_t b = ln.find('|'); if (b == std::string::npos) continue; std::string row = ln.substr(0, b); row.erase(0, row.find_first_not_of(' ')); row.erase(row.find_last_not_of(' ') + 1);
                    for (size_t j = 0; b + 2 + 3 * j < ln.size(); ++j) { char c = ln[b + 2 + 3 * j]; if (c != ' ') cells.push_back(std::to_string(j) + "," + row + "," + c); } }
                Ev e(op); e.f("s", s).f("cells", cells); put(e, s); return; }
            // a whole history from the model, of which only the last operation is logged -
            if (op == "hist") { S.clear(); return; }
            if (op == "quiet") { std::string o = L.str(); Ev e(o); int s = -1; do_mutation(L, o, e, s); return; }
            if (op == "last") { std::string o = L.str(); Ev e(o); int s = -1; J pre = J(active(*S.at(0))); unsigned pl = S.at(0)->Length(); std::string pd = LD[0]; do_mutation(L, o, e, s); e.f("pre", pre).f("plen", pl).f("plim", J(pd, 0)); put(e, s); return; }
            Ev e(op); int s = -1; do_mutation(L, op, e, s); put(e, s);
        });
        S.clear(); F.clear();
    }
    Kokkos::finalize();
    return 0;
}
