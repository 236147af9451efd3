// Map options and layouts shared by the map drivers.
#pragma once
#include "common.h"
#include <Kokkos_Core.hpp>
#include <Eigen/Core>
#include "MParT/MapFactory.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MapOptions.h"
#include "MParT/ConditionalMapBase.h"
#include "MParT/Utilities/ArrayConversions.h"
#include "MParT/Utilities/EigenTypes.h"

using Mem = Kokkos::HostSpace;
using PF = mpart::ParameterizedFunctionBase<Mem>;
using CM = mpart::ConditionalMapBase<Mem>;
typedef std::vector<std::vector<double>> Pts;      // a list of points

inline mpart::MapOptions read_opts(Line& L) {
    using namespace mpart;
    MapOptions o;
    std::string b = L.str();
    o.basisType = b == "prob" ? BasisTypes::ProbabilistHermite : b == "phys" ? BasisTypes::PhysicistHermite : BasisTypes::HermiteFunctions;
    o.basisNorm = L.num(); o.basisLB = L.d(); o.basisUB = L.d();
    o.posFuncType = L.str() == "exp" ? PosFuncTypes::Exp : PosFuncTypes::SoftPlus;
    std::string q = L.str();
    o.quadType = q == "as" ? QuadTypes::AdaptiveSimpson : q == "cc" ? QuadTypes::ClenshawCurtis : QuadTypes::AdaptiveClenshawCurtis;
    o.quadAbsTol = L.d(); o.quadRelTol = L.d(); o.quadMaxSub = L.u(); o.quadMinSub = L.u(); o.quadPts = L.u();
    o.contDeriv = L.num(); o.nugget = L.d();
    return o;
}
inline J opts_json(mpart::MapOptions const& o) {
    using namespace mpart;
    const char* b[] = {"prob", "phys", "hf"}; const char* p[] = {"exp", "softplus"}; const char* q[] = {"cc", "as", "acc"};
    Ev e("opts");
    e.f("basis", J(b[(int)o.basisType])).f("nrm", J(o.basisNorm)).f("lb", J(o.basisLB)).f("ub", J(o.basisUB)).f("pos", J(p[(int)o.posFuncType]))
     .f("quad", J(q[(int)o.quadType])).f("atol", J(o.quadAbsTol)).f("rtol", J(o.quadRelTol)).f("maxsub", J(o.quadMaxSub)).f("minsub", J(o.quadMinSub))
     .f("npts", J(o.quadPts)).f("cont", J(o.contDeriv)).f("nug", J(o.nugget));
    return J(e.s + "}", 0);
}
typedef Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic> IMat;
inline IMat read_multis(Line& L, unsigned dim) {
    unsigned n = L.u();
    IMat m(n, dim);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < dim; ++j) m(i, j) = L.num();
    return m;
}
inline J multis_json(IMat const& m) {
    std::vector<std::vector<int>> v(m.rows(), std::vector<int>(m.cols()));
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v[i][j] = m(i, j);
    return J(v);
}
// The set whose index order defines the coefficient order, and its multi-indices in that order.
inline mpart::FixedMultiIndexSet<Mem> fixed_of(IMat const& m, std::vector<std::vector<unsigned>>* order = nullptr) {
    mpart::MultiIndexSet s(m);
    if (order) for (unsigned i = 0; i < s.Size(); ++i) order->push_back(s.IndexToMulti(i).Vector());
    return s.Fix(true);
}
inline J rows_json(std::vector<std::vector<unsigned>> const& v) { return J(v); }
// n points of dimension d, point after point
inline Pts read_pts(Line& L, unsigned n, unsigned d) {
    Pts p(n, std::vector<double>(d));
    for (auto& x : p) for (auto& v : x) v = L.d();
    return p;
}

// ---- arrays in every layout the interface accepts ---------------------------------------------
typedef Kokkos::View<double**, Kokkos::LayoutStride, Mem> SV;
typedef Kokkos::View<const double**, Kokkos::LayoutStride, Mem> CSV;
static const double GARBAGE = -7.25e18;
struct Arr { std::vector<double> store; SV v; };
// kind: R row-major, L column-major, S strided in both directions, filled with garbage around the entries
inline Arr make_arr(char kind, size_t r, size_t c) {
    Arr a;
    size_t s0, s1, off = 0;
    if (kind == 'L') { s0 = 1; s1 = r ? r : 1; a.store.assign(r * c + 1, GARBAGE); }
    else if (kind == 'S') { s1 = 2; s0 = 2 * c + 3; off = 1; a.store.assign(off + s0 * r + s1 * c + 4, GARBAGE); }
    else { s0 = c ? c : 1; s1 = 1; a.store.assign(r * c + 1, GARBAGE); }
    a.v = SV(a.store.data() + off, Kokkos::LayoutStride(r, s0, c, s1));
    return a;
}
// an array for results: before they are written its entries are not numbers
inline Arr out_arr(char kind, size_t r, size_t c) {
    Arr a = make_arr(kind, r, c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) a.v(i, j) = std::nan("");
    return a;
}
inline Arr to_arr(char kind, Pts const& p, size_t d) {
    Arr a = make_arr(kind, d, p.size());
    for (size_t j = 0; j < p.size(); ++j) for (size_t i = 0; i < d; ++i) a.v(i, j) = p[j][i];
    return a;
}
template<class V> inline Pts cols_of(V const& v) {
    Pts p(v.extent(1), std::vector<double>(v.extent(0)));
    for (size_t j = 0; j < p.size(); ++j) for (size_t i = 0; i < p[j].size(); ++i) p[j][i] = v(i, j);
    return p;
}
inline Pts cols_of_e(Eigen::RowMatrixXd const& m) {
    Pts p(m.cols(), std::vector<double>(m.rows()));
    for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) p[j][i] = m(i, j);
    return p;
}
inline Eigen::RowMatrixXd to_eigen(Pts const& p, size_t d) {
    Eigen::RowMatrixXd m(d, p.size());
    for (size_t j = 0; j < p.size(); ++j) for (size_t i = 0; i < d; ++i) m(i, j) = p[j][i];
    return m;
}
// The same points as a block of a larger Eigen matrix whose other entries are garbage
inline Eigen::RowMatrixXd to_padded(Pts const& p, size_t d) {
    Eigen::RowMatrixXd m = Eigen::RowMatrixXd::Constant(d + 2, p.size() + 3, GARBAGE);
    m.block(1, 2, d, p.size()) = to_eigen(p, d);
    return m;
}
// Entries of a strided output's backing store that do not belong to the matrix must keep their value.
inline bool padding_ok(Arr const& a) {
    std::vector<bool> own(a.store.size(), false);
    for (size_t i = 0; i < a.v.extent(0); ++i) for (size_t j = 0; j < a.v.extent(1); ++j) own[&a.v(i, j) - a.store.data()] = true;
    for (size_t k = 0; k < own.size(); ++k) if (!own[k] && a.store[k] != GARBAGE) return false;
    return true;
}
// The interface's view templates for LayoutLeft and LayoutRight
template<class Lay> inline Kokkos::View<double**, Lay, Mem> to_view(Pts const& p, size_t d) {
    Kokkos::View<double**, Lay, Mem> v("pts", d, p.size());
    for (size_t j = 0; j < p.size(); ++j) for (size_t i = 0; i < d; ++i) v(i, j) = p[j][i];
    return v;
}
// One quantity for one layout: k in e,g,c,l,L,I;   lay: E (Eigen), B (block of a larger Eigen matrix), L, R (views), S (strided view), and for the
// Impl functions with caller-provided garbage-filled outputs: i (row-major), j (column-major), k (strided).
inline Pts quantity(PF& f, CM* m, char k, char lay, Pts const& x, size_t d, Pts const& s, size_t ds, bool& pad) {
    using namespace mpart;
    auto need = [&] { if (!m) throw std::logic_error("not a conditional map"); };
    if (lay == 'E') {
        Eigen::RowMatrixXd X = to_eigen(x, d), S = to_eigen(s, ds);
        switch (k) {
            case 'e': return cols_of_e(f.Evaluate(X));
            case 'g': return cols_of_e(f.Gradient(X, S));
            case 'c': return cols_of_e(f.CoeffGrad(X, S));
            case 'l': { need(); Eigen::VectorXd v = m->LogDeterminant(X); Pts p; for (int i = 0; i < v.size(); ++i) p.push_back({v(i)}); return p; }
            case 'L': need(); return cols_of_e(m->LogDeterminantCoeffGrad(X));
            case 'I': need(); return cols_of_e(m->LogDeterminantInputGrad(X));
        }
    }
    if (lay == 'B') {
        Eigen::RowMatrixXd XP = to_padded(x, d), SP = to_padded(s, ds);
        auto X = XP.block(1, 2, d, x.size()); auto S = SP.block(1, 2, ds, s.size());
        switch (k) {
            case 'e': return cols_of_e(f.Evaluate(X));
            case 'g': return cols_of_e(f.Gradient(X, S));
            case 'c': return cols_of_e(f.CoeffGrad(X, S));
            case 'l': { need(); Eigen::VectorXd v = m->LogDeterminant(X); Pts p; for (int i = 0; i < v.size(); ++i) p.push_back({v(i)}); return p; }
            case 'L': need(); return cols_of_e(m->LogDeterminantCoeffGrad(X));
            case 'I': need(); return cols_of_e(m->LogDeterminantInputGrad(X));
        }
    }
    auto views = [&](auto X, auto S) -> Pts {
        switch (k) {
            case 'e': return cols_of(f.Evaluate(X));
            case 'g': return cols_of(f.Gradient(X, S));
            case 'c': return cols_of(f.CoeffGrad(X, S));
            case 'l': { need(); StridedMatrix<const double, Mem> cx(X); auto v = m->LogDeterminant(cx); Pts p; for (size_t i = 0; i < v.extent(0); ++i) p.push_back({v(i)}); return p; }
            case 'L': need(); return cols_of(m->LogDeterminantCoeffGrad(X));
            case 'I': need(); return cols_of(m->LogDeterminantInputGrad(X));
        }
        return {};
    };
    if (lay == 'L') return views(to_view<Kokkos::LayoutLeft>(x, d), to_view<Kokkos::LayoutLeft>(s, ds));
    if (lay == 'R') return views(to_view<Kokkos::LayoutRight>(x, d), to_view<Kokkos::LayoutRight>(s, ds));
    if (lay == 'S') { Arr X = to_arr('S', x, d), S = to_arr('S', s, ds); return views(X.v, S.v); }
    char ak = lay == 'i' ? 'R' : lay == 'j' ? 'L' : 'S';
    Arr X = to_arr(ak, x, d), S = to_arr(ak, s, ds);
    f.CheckCoefficients() ? (void)0 : throw std::runtime_error("no coefficients");
    if (k == 'l') {
        need();
        std::vector<double> st(2 * x.size() + 2, GARBAGE);
        size_t step = ak == 'S' ? 2 : 1;
        Kokkos::View<double*, Kokkos::LayoutStride, Mem> o(st.data(), Kokkos::LayoutStride(x.size(), step));
        for (size_t i = 0; i < x.size(); ++i) o(i) = std::nan("");
        m->LogDeterminantImpl(X.v, o);
        Pts p; for (size_t i = 0; i < x.size(); ++i) p.push_back({o(i)});
        return p;
    }
    size_t rows = k == 'e' ? f.outputDim : (k == 'g' || k == 'I') ? f.inputDim : f.numCoeffs;
    Arr O = out_arr(ak, rows, x.size());
    switch (k) {
        case 'e': f.EvaluateImpl(X.v, O.v); break;
        case 'g': f.GradientImpl(X.v, S.v, O.v); break;
        case 'c': f.CoeffGradImpl(X.v, S.v, O.v); break;
        case 'L': need(); m->LogDeterminantCoeffGradImpl(X.v, O.v); break;
        case 'I': need(); m->LogDeterminantInputGradImpl(X.v, O.v); break;
    }
    if (!padding_ok(O)) pad = false;
    return cols_of(O.v);
}
inline Pts inverse(CM& m, char lay, Pts const& x1, size_t d1, Pts const& r, size_t dr, bool& pad) {
    using namespace mpart;
    if (lay == 'E') return cols_of_e(m.Inverse(to_eigen(x1, d1), to_eigen(r, dr)));
    if (lay == 'B') {
        Eigen::RowMatrixXd XP = to_padded(x1, d1), RP = to_padded(r, dr);
        return cols_of_e(m.Inverse(XP.block(1, 2, d1, x1.size()), RP.block(1, 2, dr, r.size())));
    }
    if (lay == 'L') return cols_of(m.Inverse(to_view<Kokkos::LayoutLeft>(x1, d1), to_view<Kokkos::LayoutLeft>(r, dr)));
    if (lay == 'R') return cols_of(m.Inverse(to_view<Kokkos::LayoutRight>(x1, d1), to_view<Kokkos::LayoutRight>(r, dr)));
    if (lay == 'S') { Arr X = to_arr('S', x1, d1), R = to_arr('S', r, dr); return cols_of(m.Inverse(X.v, R.v)); }
    char ak = lay == 'i' ? 'R' : lay == 'j' ? 'L' : 'S';
    Arr X = to_arr(ak, x1, d1), R = to_arr(ak, r, dr), O = out_arr(ak, m.outputDim, r.size());
    m.CheckCoefficients() ? (void)0 : throw std::runtime_error("no coefficients");
    m.InverseImpl(X.v, R.v, O.v);
    if (!padding_ok(O)) pad = false;
    return cols_of(O.v);
}
