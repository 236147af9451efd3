// Conformance driver for arrays and linear algebra.  Objects are matrices seen through the library's conversions; every
// event reports what every living object and every underlying buffer holds.
#include "common.h"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <Kokkos_Core.hpp>
#include <Eigen/Dense>
#include "MParT/Utilities/EigenTypes.h"
#include "MParT/Utilities/ArrayConversions.h"
#include "MParT/Utilities/LinearAlgebra.h"
#include "MParT/Utilities/Miscellaneous.h"
using namespace mpart;
using Mem = Kokkos::HostSpace;
typedef StridedMatrix<double, Mem> SM;
typedef StridedMatrix<const double, Mem> CSM;
typedef StridedVector<double, Mem> SVec;
typedef Kokkos::View<double**, Kokkos::LayoutLeft, Mem> KL;
typedef Kokkos::View<double**, Kokkos::LayoutRight, Mem> KR;
typedef Kokkos::View<double*, Mem> K1;
typedef std::function<double(size_t, size_t)> Get;
typedef std::function<void(size_t, size_t, double)> Put;

struct Obj {
    size_t r = 0, c = 0;
    Get get; Put put;
    std::shared_ptr<void> keep;
    std::optional<KL> kl; std::optional<KR> kr; std::optional<K1> k1; std::optional<SM> ks; std::optional<SVec> s1;
    std::shared_ptr<std::vector<double>> vec; std::shared_ptr<Eigen::MatrixXd> ec; std::shared_ptr<Eigen::RowMatrixXd> er; std::shared_ptr<Eigen::VectorXd> ev;
};
static std::map<int, Obj> ob, bf;           // objects; primary objects of the buffers
static std::map<int, std::shared_ptr<PartialPivLU<Mem>>> lus;
static std::map<int, std::shared_ptr<Cholesky<Mem>>> chs;
static Out out;

static J rows(Obj const& o) {
    std::vector<std::vector<double>> v(o.r, std::vector<double>(o.c));
    for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j) v[i][j] = o.get(i, j);
    return J(v);
}
static J flat(Obj const& o) {
    std::vector<double> v;
    for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j) v.push_back(o.get(i, j));
    return J(v);
}
template<class T> static void done(Ev& e, T const& ret) {
    std::vector<J> a, b;
    for (auto& p : ob) a.push_back(J(Ev("o").f("id", J(p.first)).f("v", rows(p.second)).s + "}", 0));
    for (auto& p : bf) b.push_back(J(Ev("b").f("b", J(p.first)).f("v", flat(p.second)).s + "}", 0));
    e.f("ret", J(ret)).f("objs", J(a)).f("bufs", J(b)); out.put(e);
}
template<class V> static Obj view2(V v) {
    Obj o; o.r = v.extent(0); o.c = v.extent(1);
    o.get = [v](size_t i, size_t j) { return (double)v(i, j); };
    if constexpr (!std::is_const_v<typename V::value_type>) { o.put = [v](size_t i, size_t j, double x) { v(i, j) = x; }; o.ks = SM(v); }
    return o;
}
template<class V> static Obj view1(V v) {
    Obj o; o.r = v.extent(0); o.c = 1;
    o.get = [v](size_t i, size_t) { return (double)v(i); };
    if constexpr (!std::is_const_v<typename V::value_type>) { o.put = [v](size_t i, size_t, double x) { v(i) = x; }; o.s1 = SVec(v); }
    return o;
}
template<class M> static Obj emap(M m0) {
    auto m = std::make_shared<M>(m0);
    Obj o; o.r = m->rows(); o.c = m->cols();
    o.get = [m](size_t i, size_t j) { return (double)(*m)(i, j); };
    if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*m->data())>>) o.put = [m](size_t i, size_t j, double x) { (*m)(i, j) = x; };
    return o;
}
static Obj alloc(std::string const& k, size_t r, size_t c, std::vector<double> const& v) {
    Obj o;
    if (k == "vec") {
        auto p = std::make_shared<std::vector<double>>(r); o.r = r; o.c = 1; o.vec = p;
        o.get = [p](size_t i, size_t) { return (*p)[i]; }; o.put = [p](size_t i, size_t, double x) { (*p)[i] = x; };
    } else if (k == "ec") { auto p = std::make_shared<Eigen::MatrixXd>(r, c); o.r = r; o.c = c; o.ec = p;
        o.get = [p](size_t i, size_t j) { return (*p)(i, j); }; o.put = [p](size_t i, size_t j, double x) { (*p)(i, j) = x; };
    } else if (k == "er") { auto p = std::make_shared<Eigen::RowMatrixXd>(r, c); o.r = r; o.c = c; o.er = p;
        o.get = [p](size_t i, size_t j) { return (*p)(i, j); }; o.put = [p](size_t i, size_t j, double x) { (*p)(i, j) = x; };
    } else if (k == "ev") { auto p = std::make_shared<Eigen::VectorXd>(r); o.r = r; o.c = 1; o.ev = p;
        o.get = [p](size_t i, size_t) { return (*p)(i); }; o.put = [p](size_t i, size_t, double x) { (*p)(i) = x; };
    } else if (k == "kl") { KL w("kl", r, c); o = view2(w); o.kl = w; }
    else if (k == "kr") { KR w("kr", r, c); o = view2(w); o.kr = w; }
    else if (k == "k1") { K1 w("k1", r); o = view1(w); o.k1 = w; }
    else if (k == "ks") { auto st = std::make_shared<std::vector<double>>(r * (2 * c + 3) + 5); SM w(st->data() + 1, Kokkos::LayoutStride(r, 2 * c + 3, c, 2)); o = view2(w); o.keep = st; }
    else if (k == "kp") { auto st = std::make_shared<std::vector<double>>(c * (r + 2) + 5); SM w(st->data() + 2, Kokkos::LayoutStride(r, 1, c, r + 2)); o = view2(w); o.keep = st; }
    else if (k == "s1") { auto st = std::make_shared<std::vector<double>>(r * 3 + 5); SVec w(st->data() + 1, Kokkos::LayoutStride(r, 3)); o = view1(w); o.keep = st; }
    else { std::fprintf(stderr, "alloc kind %s\n", k.c_str()); std::exit(3); }
    for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j) o.put(i, j, v[i * o.c + j]);
    return o;
}
static Obj fresh(KL v) { Obj o = view2(v); o.kl = v; return o; }

// an alias or a copy of (part of) object a, made by the conversion `how`
static Obj conv(std::string const& how, Obj& a, std::vector<unsigned> p) {
    Obj o;
    double* ptr = a.vec ? a.vec->data() : nullptr;
    if (how == "tk1") { K1 w = ToKokkos<double>(ptr, p[0]); o = view1(w); }
    else if (how == "tkc1") { o = view1(ToConstKokkos<double>(ptr, p[0])); }
    else if (how == "tkl") { KL w = ToKokkos<double>(ptr, p[0], p[1]); o = view2(w); o.kl = w; }
    else if (how == "tkr") { KR w = ToKokkos<double, Kokkos::LayoutRight>(ptr, p[0], p[1]); o = view2(w); o.kr = w; }
    else if (how == "tkcl") { o = view2(ToConstKokkos<double>(ptr, p[0], p[1])); }
    else if (how == "tkcr") { o = view2(ToConstKokkos<double, Kokkos::LayoutRight>(ptr, p[0], p[1])); }
    else if (how == "tkt2") { o = view2(ToKokkos<double>(std::make_tuple((long)ptr, std::make_tuple((int)p[0], (int)p[1]), std::make_tuple((int)p[2], (int)p[3])))); }
    else if (how == "tkt1") { o = view1(ToKokkos<double>(std::make_tuple((long)ptr, (int)p[0], (int)p[1]))); }
    else if (how == "v2k") o = view1(VecToKokkos<double, Mem>(*a.vec));
    else if (how == "cv2k") o = view1(ConstVecToKokkos<double, Mem>(*a.vec));
    else if (how == "vck") o = view1(VecToConstKokkos<double, Mem>(*a.vec));
    else if (how == "m2k") o = view2(MatToKokkos<double, Mem>(*a.vec, (int)p[0]));
    else if (how == "mck") o = view2(MatToConstKokkos<double, Mem>(*a.vec, (int)p[0]));
    else if (how == "e2k") o = a.ec ? view2(MatToKokkos<double>(*a.ec)) : view2(MatToKokkos<double>(*a.er));
    else if (how == "e2kb") o = a.ec ? view2(MatToKokkos<double>(a.ec->block(p[0], p[1], p[2], p[3]))) : view2(MatToKokkos<double>(a.er->block(p[0], p[1], p[2], p[3])));
    else if (how == "ce2k") o = a.ec ? view2(ConstColMatToKokkos<double>(*a.ec)) : view2(ConstRowMatToKokkos<double>(*a.er));
    else if (how == "ce2kb") o = a.ec ? view2(ConstColMatToKokkos<double>(a.ec->block(p[0], p[1], p[2], p[3]))) : view2(ConstRowMatToKokkos<double>(a.er->block(p[0], p[1], p[2], p[3])));
    else if (how == "ev2k") o = view1(VecToKokkos<double>(*a.ev));
    else if (how == "ev2ks") o = view1(VecToKokkos<double>(a.ev->segment(p[0], p[1])));
    else if (how == "row2k") o = a.ec ? view1(VecToKokkos<double>(a.ec->row(p[0]).transpose())) : view1(VecToKokkos<double>(a.er->row(p[0]).transpose()));
    else if (how == "col2k") o = a.ec ? view1(VecToKokkos<double>(a.ec->col(p[0]))) : view1(VecToKokkos<double>(a.er->col(p[0])));
    else if (how == "k2m") o = a.kl ? emap(KokkosToMat(*a.kl)) : a.kr ? emap(KokkosToMat(*a.kr)) : emap(KokkosToMat(*a.ks));
    else if (how == "ck2m") o = a.kl ? emap(ConstKokkosToMat(Kokkos::View<const double**, Kokkos::LayoutLeft, Mem>(*a.kl)))
                              : a.kr ? emap(ConstKokkosToMat(Kokkos::View<const double**, Kokkos::LayoutRight, Mem>(*a.kr))) : emap(ConstKokkosToMat(CSM(*a.ks)));
    else if (how == "k2v") o = a.k1 ? emap(KokkosToVec(*a.k1)) : emap(KokkosToVec(*a.s1));
    else if (how == "cpm") {                                        // copies
        if (a.kl) { Eigen::MatrixXd m = CopyKokkosToMat(*a.kl); o = emap(m); } else if (a.kr) { Eigen::RowMatrixXd m = CopyKokkosToMat(*a.kr); o = emap(m); } else { Eigen::RowMatrixXd m = CopyKokkosToMat(*a.ks); o = emap(m); }
    } else if (how == "cpv") { Eigen::VectorXd v; if (a.k1) v = CopyKokkosToVec(*a.k1); else v = CopyKokkosToVec(*a.s1); o = emap(v); }
    else if (how == "k2s") { std::vector<double> v; if (a.k1) v = KokkosToStd(*a.k1); else v = KokkosToStd(*a.s1); o = alloc("vec", v.size(), 1, v); }
    else { std::fprintf(stderr, "conversion %s\n", how.c_str()); std::exit(3); }
    if (!o.keep) o.keep = a.keep;
    auto k2 = a.keep; auto v2 = a.vec; auto c2 = a.ec; auto r2 = a.er; auto e2 = a.ev;      // keep what it points into alive
    auto g = o.get; o.get = [g, k2, v2, c2, r2, e2](size_t i, size_t j) { return g(i, j); };
    return o;
}

static TransposeObject<Mem> tobj(Obj& o, int times) {
    TransposeObject<Mem> t = o.kl ? TransposeObject<Mem>(*o.kl) : o.kr ? TransposeObject<Mem>(*o.kr) : TransposeObject<Mem>(*o.ks);
    if (times > 0) { t = o.kl ? transpose(*o.kl) : o.kr ? transpose(*o.kr) : transpose(*o.ks); --times; }
    for (; times > 0; --times) t = transpose(t);
    return t;
}
template<class A, class B> static void add2(A a, B b) { AddInPlace(a, b); }
template<class F> static void on2(Obj& o, F f) { if (o.kl) f(*o.kl); else if (o.kr) f(*o.kr); else f(*o.ks); }
template<class F> static void on2c(Obj& o, F f) {
    if (o.kl) f(Kokkos::View<const double**, Kokkos::LayoutLeft, Mem>(*o.kl)); else if (o.kr) f(Kokkos::View<const double**, Kokkos::LayoutRight, Mem>(*o.kr)); else f(CSM(*o.ks));
}

static void step(Line& L) {
    std::string op = L.str();
    Ev e(op);
    if (op == "reset") { ob.clear(); bf.clear(); lus.clear(); chs.clear(); out.put(e); return; }
    if (op == "alloc") {
        int id = L.num(); std::string k = L.str(); size_t r = L.u(), c = L.u(); std::vector<double> v(r * c); for (auto& x : v) x = L.d();
        ob[id] = alloc(k, r, c, v); bf[id] = ob[id];
        std::vector<std::vector<double>> m(r, std::vector<double>(c)); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m[i][j] = v[i * c + j];
        e.f("id", J(id)).f("kind", J(k)).f("rows", J(r)).f("cols", J(c)).f("v", J(m)); done(e, "ok");
    } else if (op == "conv") {
        int id = L.num(); std::string how = L.str(); int a = L.num(); auto p = L.uvec();
        std::string k = ob[a].ec ? "col" : "row";
        ob[id] = conv(how, ob[a], p); bool cp = how == "cpm" || how == "cpv" || how == "k2s";
        if (cp) bf[id] = ob[id];
        e.f("id", J(id)).f("how", J(how)).f("a", J(a)).f("p", J(p)).f("copy", J(cp)); done(e, "ok");
    } else if (op == "put") {
        int id = L.num(); size_t i = L.u(), j = L.u(); double x = L.d();
        bool can = (bool)ob[id].put; if (can) ob[id].put(i, j, x);
        e.f("id", J(id)).f("i", J(i)).f("j", J(j)).f("x", J(x)); done(e, can ? "ok" : "const");
    } else if (op == "drop") { int id = L.num(); ob.erase(id); e.f("id", J(id)); done(e, "ok");
    } else if (op == "gemm") {                                       // c := alpha op(a) op(b) + beta c
        double al = L.d(); int a = L.num(), ta = L.num(), b = L.num(), tb = L.num(); double be = L.d(); int c = L.num(); 
        if (ta == 0 && tb == 0) {
            auto go = [&](auto A, auto B) { dgemm<Mem>(al, A, B, be, *ob[c].ks); };
            on2(ob[a], [&](auto A) { on2(ob[b], [&](auto B) { go(A, B); }); });
        } else dgemm<Mem>(al, tobj(ob[a], ta), tobj(ob[b], tb), be, *ob[c].ks);
        e.f("al", J(al)).f("a", J(a)).f("ta", J(ta)).f("b", J(b)).f("tb", J(tb)).f("be", J(be)).f("c", J(c)); done(e, "ok");
    } else if (op == "mul") {
        int id = L.num(), a = L.num(), ta = L.num(), b = L.num(), tb = L.num();
        SM r;
        if (ta && tb) r = tobj(ob[a], ta) * tobj(ob[b], tb);
        else if (ta) on2(ob[b], [&](auto B) { r = tobj(ob[a], ta) * B; });
        else if (tb) on2(ob[a], [&](auto A) { r = A * tobj(ob[b], tb); });
        else on2(ob[a], [&](auto A) { on2(ob[b], [&](auto B) { r = A * B; }); });
        ob[id] = view2(r); bf[id] = ob[id];
        e.f("id", J(id)).f("a", J(a)).f("ta", J(ta)).f("b", J(b)).f("tb", J(tb)).f("tdims", J(std::vector<int>{tobj(ob[a], ta).rows(), tobj(ob[a], ta).cols()})); done(e, "ok");
    } else if (op == "add") {                                        // a += b by way of AddInPlace or operator+=
        std::string how = L.str(); int a = L.num(), b = L.num();
        Obj &x = ob[a], &y = ob[b];
        bool vecs = x.s1 && y.s1;
        if (how == "fn") {
            if (vecs) { if (x.k1 && y.k1) AddInPlace(*x.k1, Kokkos::View<const double*, Mem>(*y.k1)); else AddInPlace(*x.s1, StridedVector<const double, Mem>(*y.s1)); }
            else on2(x, [&](auto X) { on2c(y, [&](auto Y) { AddInPlace(X, Y); }); });
        } else {
            if (vecs) { if (x.k1 && y.k1) { K1 t = *x.k1; t += *y.k1; } else { SVec t = *x.s1; t += *y.s1; } }
            else on2(x, [&](auto X) { auto t = X; on2(y, [&](auto Y) { t += Y; }); });
        }
        e.f("how", J(how)).f("a", J(a)).f("b", J(b)); done(e, "ok");
    } else if (op == "plus") {
        int id = L.num(), cst = L.num(), a = L.num(), b = L.num();
        Obj &x = ob[a], &y = ob[b]; Obj o;
        if (x.k1) { if (cst) { Kokkos::View<const double*, Mem> X(*x.k1), Y(*y.k1); o = view1(X + Y); } else o = view1(*x.k1 + *y.k1); }
        else {
            auto go = [&](auto X) { on2(y, [&](auto Y) { using TY = decltype(Y); if constexpr (!std::is_same_v<typename TY::array_layout, Kokkos::LayoutStride>) o = view2(X + Y); }); };
            auto goc = [&](auto X) { on2c(y, [&](auto Y) { using TY = decltype(Y); if constexpr (!std::is_same_v<typename TY::array_layout, Kokkos::LayoutStride>) o = view2(X + Y); }); };
            if (cst) { if (x.kl) goc(Kokkos::View<const double**, Kokkos::LayoutLeft, Mem>(*x.kl)); else goc(Kokkos::View<const double**, Kokkos::LayoutRight, Mem>(*x.kr)); }
            else go(*x.kr);
        }
        ob[id] = o; bf[id] = o;
        e.f("id", J(id)).f("a", J(a)).f("b", J(b)); done(e, "ok");
    } else if (op == "reduce") {
        int id = L.num(); std::string map = L.str(); int dim = L.num(); double al = L.d(); int a = L.num();
        SM A = *ob[a].ks; size_t n = A.extent(1 - dim); K1 res("res", n);
        for (size_t i = 0; i < n; ++i) res(i) = 17.0;
        if (dim == 1) {
            if (map == "sum") { ReduceDim<ReduceDimMap::sum, Mem, 1> rd(A, al); Kokkos::parallel_reduce(A.extent(1), rd, res); }
            else { ReduceDim<ReduceDimMap::norm, Mem, 1> rd(A, al); Kokkos::parallel_reduce(A.extent(1), rd, res); }
        } else {
            if (map == "sum") { ReduceDim<ReduceDimMap::sum, Mem, 0> rd(A, al); Kokkos::parallel_reduce(A.extent(0), rd, res); }
            else { ReduceDim<ReduceDimMap::norm, Mem, 0> rd(A, al); Kokkos::parallel_reduce(A.extent(0), rd, res); }
        }
        ob[id] = view1(res); ob[id].k1 = res; bf[id] = ob[id];
        e.f("id", J(id)).f("map", J(map)).f("dim", J(dim)).f("al", J(al)).f("a", J(a)); done(e, "ok");
    } else if (op == "lu" || op == "chol") {                         // new factorization, or (again) recompute an existing one
        int f = L.num(), a = L.num(), again = L.num();
        Kokkos::View<const double**, Kokkos::LayoutLeft, Mem> A(*ob[a].kl);
        if (op == "lu") { if (again && lus.count(f)) lus[f]->compute(A); else if (again) { lus[f] = std::make_shared<PartialPivLU<Mem>>(); lus[f]->compute(A); } else lus[f] = std::make_shared<PartialPivLU<Mem>>(A); }
        else { if (again && chs.count(f)) chs[f]->compute(A); else if (again) { chs[f] = std::make_shared<Cholesky<Mem>>(); chs[f]->compute(A); } else chs[f] = std::make_shared<Cholesky<Mem>>(A); }
        double det = op == "lu" ? lus[f]->determinant() : chs[f]->determinant();
        e.f("f", J(f)).f("a", J(a)).f("det", J(det)); done(e, "ok");
    } else if (op == "lucopy") {
        int f = L.num(), g = L.num(); lus[f] = std::make_shared<PartialPivLU<Mem>>(*lus[g]); e.f("f", J(f)).f("g", J(g)).f("det", J(lus[f]->determinant())); done(e, "ok");
    } else if (op == "solve" || op == "csolve") {                    // id := A^{-1} b
        int id = L.num(), f = L.num(), b = L.num();
        KL r = op == "solve" ? lus[f]->solve(CSM(*ob[b].ks)) : chs[f]->solve(CSM(*ob[b].ks));
        ob[id] = fresh(r); bf[id] = ob[id];
        e.f("id", J(id)).f("f", J(f)).f("b", J(b)); done(e, "ok");
    } else if (op == "solvei" || op == "csolvei" || op == "csolvel") {
        int f = L.num(), b = L.num();
        if (op == "solvei") lus[f]->solveInPlace(*ob[b].kl); else if (op == "csolvei") chs[f]->solveInPlace(*ob[b].kl); else chs[f]->solveInPlaceL(*ob[b].kl);
        e.f("f", J(f)).f("b", J(b)); done(e, "ok");
    } else if (op == "cmull") {
        int id = L.num(), f = L.num(), b = L.num();
        KL r = chs[f]->multiplyL(Kokkos::View<const double**, Kokkos::LayoutLeft, Mem>(*ob[b].kl));
        ob[id] = fresh(r); bf[id] = ob[id];
        e.f("id", J(id)).f("f", J(f)).f("b", J(b)); done(e, "ok");
    } else if (op == "tohost") {                                     // the values only: on the host it may or may not copy
        int a = L.num();
        Obj& x = ob[a]; Obj o;
        if (x.k1) o = view1(ToHost(*x.k1));
        else { Kokkos::View<double**, Mem> w(*x.kr); o = view2(ToHost(w)); }
        e.f("a", J(a)).f("v", rows(o)); done(e, "ok");
    } else if (op == "getopt") {
        unsigned n = L.u(); std::unordered_map<std::string, std::string> m; std::vector<std::vector<std::string>> kv;
        for (unsigned i = 0; i < n; ++i) { std::string k = L.str(), v = L.str(); m[k] = v; kv.push_back({k, v}); }
        std::string k = L.str(), d = L.str();
        e.f("kv", J(kv)).f("key", J(k)).f("def", J(d)).f("got", J(GetOption(m, k, d))); done(e, "ok");
    } else { std::fprintf(stderr, "unknown command %s\n", op.c_str()); std::exit(3); }
}

int main(int argc, char** argv) {
    Kokkos::initialize();
    if (argc > 2) out.open(argv[2]);
    std::ifstream in(argv[1]);
    run_script(in, step);
    ob.clear(); bf.clear();
    Kokkos::finalize();
    return 0;
}
