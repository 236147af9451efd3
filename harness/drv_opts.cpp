// Option objects (MapOptions, TrainOptions, ATMOptions) as values: fields, copies, equality, text, files.
#include "maptools.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/Utilities/Serialization.h"
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
using namespace mpart;

struct Object { std::string kind; MapOptions m; TrainOptions t; ATMOptions a; };
static std::map<int, Object> objs;
static MapOptions& mo(Object& x) { return x.kind == "atm" ? static_cast<MapOptions&>(x.a) : x.m; }
static TrainOptions& to(Object& x) { return x.kind == "atm" ? static_cast<TrainOptions&>(x.a) : x.t; }

static const std::vector<std::string> BT{"ProbabilistHermite", "PhysicistHermite", "HermiteFunctions"}, PT{"Exp", "SoftPlus"}, QT{"ClenshawCurtis", "AdaptiveSimpson", "AdaptiveClenshawCurtis"};
static BasisTypes bt(std::string const& s) { return s == BT[0] ? BasisTypes::ProbabilistHermite : s == BT[1] ? BasisTypes::PhysicistHermite : BasisTypes::HermiteFunctions; }
static PosFuncTypes pt(std::string const& s) { return s == PT[0] ? PosFuncTypes::Exp : PosFuncTypes::SoftPlus; }
static QuadTypes qt(std::string const& s) { return s == QT[0] ? QuadTypes::ClenshawCurtis : s == QT[1] ? QuadTypes::AdaptiveSimpson : QuadTypes::AdaptiveClenshawCurtis; }
static std::string name(BasisTypes t) { return t == BasisTypes::ProbabilistHermite ? BT[0] : t == BasisTypes::PhysicistHermite ? BT[1] : t == BasisTypes::HermiteFunctions ? BT[2] : "?"; }
static std::string name(PosFuncTypes t) { return t == PosFuncTypes::Exp ? PT[0] : t == PosFuncTypes::SoftPlus ? PT[1] : "?"; }
static std::string name(QuadTypes t) { return t == QuadTypes::ClenshawCurtis ? QT[0] : t == QuadTypes::AdaptiveSimpson ? QT[1] : t == QuadTypes::AdaptiveClenshawCurtis ? QT[2] : "?"; }

static std::vector<unsigned> ints(std::string s) { std::vector<unsigned> v; if (s == "-") return v; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) v.push_back(std::stoul(t)); return v; }
static std::vector<int> degrees(MultiIndex const& m) { std::vector<int> v; for (unsigned i = 0; i < m.Length(); ++i) v.push_back(m.Get(i)); return v; }

// Sets one field from text; returns its value as JSON.
static J set(Object& x, std::string const& f, std::string const& v) {
    auto d = [&] { return std::strtod(v.c_str(), nullptr); }; auto u = [&] { return (unsigned)std::stoul(v); }; auto b = [&] { return v == "true"; };
#define FIELD(obj, F, R) if (f == #F) { obj.F = R(); return J(R()); }
    FIELD(mo(x), basisLB, d) FIELD(mo(x), basisUB, d) FIELD(mo(x), quadAbsTol, d) FIELD(mo(x), quadRelTol, d) FIELD(mo(x), nugget, d)
    FIELD(mo(x), quadMaxSub, u) FIELD(mo(x), quadMinSub, u) FIELD(mo(x), quadPts, u) FIELD(mo(x), contDeriv, b) FIELD(mo(x), basisNorm, b)
    FIELD(to(x), opt_stopval, d) FIELD(to(x), opt_ftol_rel, d) FIELD(to(x), opt_ftol_abs, d) FIELD(to(x), opt_xtol_rel, d) FIELD(to(x), opt_xtol_abs, d) FIELD(to(x), opt_maxtime, d)
    FIELD(to(x), opt_maxeval, u) FIELD(to(x), verbose, u) FIELD(x.a, maxPatience, u) FIELD(x.a, maxSize, u)
    if (f == "basisType") mo(x).basisType = bt(v); if (f == "posFuncType") mo(x).posFuncType = pt(v); if (f == "quadType") mo(x).quadType = qt(v);
    if (f == "opt_alg") to(x).opt_alg = v;
    if (f == "maxDegrees") { x.a.maxDegrees = MultiIndex(ints(v)); return J(ints(v)); }
    return J(v);
}
static J state(Object& x) {
    Ev e("fields"); MapOptions& m = mo(x); TrainOptions& t = to(x);
    std::string s;
    auto add = [&](const char* k, J const& v) { s += (s.empty() ? "{\"" : ",\"") + std::string(k) + "\":" + v.s; };
    if (x.kind != "train") {
        add("basisType", J(name(m.basisType))); add("posFuncType", J(name(m.posFuncType))); add("quadType", J(name(m.quadType)));
        add("basisLB", J(m.basisLB)); add("basisUB", J(m.basisUB)); add("basisNorm", J(m.basisNorm)); add("quadAbsTol", J(m.quadAbsTol)); add("quadRelTol", J(m.quadRelTol));
        add("quadMaxSub", J(m.quadMaxSub)); add("quadMinSub", J(m.quadMinSub)); add("quadPts", J(m.quadPts)); add("contDeriv", J(m.contDeriv)); add("nugget", J(m.nugget));
    }
    if (x.kind != "map") {
        add("opt_alg", J(t.opt_alg)); add("opt_stopval", J(t.opt_stopval)); add("opt_ftol_rel", J(t.opt_ftol_rel)); add("opt_ftol_abs", J(t.opt_ftol_abs));
        add("opt_xtol_rel", J(t.opt_xtol_rel)); add("opt_xtol_abs", J(t.opt_xtol_abs)); add("opt_maxeval", J(t.opt_maxeval)); add("opt_maxtime", J(t.opt_maxtime)); add("verbose", J(t.verbose));
    }
    if (x.kind == "atm") { add("maxPatience", J(x.a.maxPatience)); add("maxSize", J(x.a.maxSize)); add("maxDegrees", J(degrees(x.a.maxDegrees))); }
    return J(s + "}", 0);
}

int main(int argc, char** argv) {
    Kokkos::initialize();
    {
    Out out; out.open(argv[2]);
    std::ifstream in(argv[1]);
    run_script(in, [&](Line& L) {
        std::string op = L.str(); Ev e(op);
        if (op == "reset") objs.clear();
        else if (op == "onew") { int k = L.num(); std::string kind = L.str(); objs[k] = Object(); objs[k].kind = kind; e.f("k", J(k)).f("kind", J(kind)); }
        else if (op == "oset") { int k = L.num(); std::string f = L.str(), v = L.str(); e.f("k", J(k)).f("name", J(f)).f("v", set(objs.at(k), f, v)); }
        else if (op == "ocopy") { int k = L.num(), b = L.num(); objs[k] = objs.at(b); e.f("k", J(k)).f("b", J(b)); }
        else if (op == "opart") { int k = L.num(), b = L.num(); std::string kind = L.str(); Object n; n.kind = kind; if (kind == "map") n.m = objs.at(b).a; else n.t = objs.at(b).a; objs[k] = n; e.f("k", J(k)).f("b", J(b)).f("kind", J(kind)); }
        else if (op == "ofile") {
            int k = L.num(), b = L.num(); std::stringstream ss; Object n; n.kind = "map";
            { cereal::BinaryOutputArchive ar(ss); ar(objs.at(b).m); } { cereal::BinaryInputArchive ar(ss); ar(n.m); }
            objs[k] = n; e.f("k", J(k)).f("b", J(b));
        }
        else if (op == "oeq") { int a = L.num(), b = L.num(); e.f("a", J(a)).f("b", J(b)).f("eq", J(bool(mo(objs.at(a)) == mo(objs.at(b))))); }
        else if (op == "ostr") {
            int k = L.num(); Object& x = objs.at(k); std::string s = x.kind == "map" ? x.m.String() : x.kind == "train" ? x.t.String() : x.a.String();
            std::string a = "["; std::stringstream ss(s); std::string t;
            while (std::getline(ss, t)) if (!t.empty()) {
                size_t q = t.find(" = "); std::string n = t.substr(0, q), v = q == std::string::npos ? "" : t.substr(q + 3);
                a += (a.size() > 1 ? ",{\"name\":" : "{\"name\":") + J(n).s + ",\"text\":" + J(v).s + ",\"num\":" + J(std::strtod(v.c_str(), nullptr)).s + "}";
            }
            e.f("k", J(k)).f("lines", J(a + "]", 0)).f("rep", J(true));
        } else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
        std::string a = "[";
        for (auto& kv : objs) a += (a.size() > 1 ? ",{\"k\":" : "{\"k\":") + std::to_string(kv.first) + ",\"kind\":" + J(kv.second.kind).s + ",\"f\":" + state(kv.second).s + "}";
        e.f("all", J(a + "]", 0)); out.put(e);
    });
    }
    Kokkos::finalize();
}
