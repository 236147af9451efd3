// Shared pieces of the conformance drivers: a script reader (one command per line, blank separated
// tokens) and an ndjson writer.  Doubles are written as [hi,lo], the signed 32-bit halves of their bits.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct J {                       // a JSON value under construction
    std::string s;
    J() : s("null") {}
    explicit J(std::string raw, int) : s(std::move(raw)) {}
    J(const char* x) { str(x); }
    J(std::string const& x) { str(x); }
    J(bool x) : s(x ? "true" : "false") {}
    J(int x) : s(std::to_string(x)) {}
    J(long x) : s(std::to_string(x)) {}
    J(unsigned x) : s(x > 0x7fffffffu ? std::string("-1") : std::to_string(x)) {}
    J(unsigned long x) : s(x > 0x7fffffffu ? std::string("-1") : std::to_string(x)) {}
    J(double x) {
        uint64_t b; std::memcpy(&b, &x, 8);
        s = "[" + std::to_string((int32_t)(b >> 32)) + "," + std::to_string((int32_t)(uint32_t)b) + "]";
    }
    template<class T> J(std::vector<T> const& v) {
        s = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += J((T)v[i]).s; }
        s += "]";
    }
    void str(std::string const& x) {
        s = "\"";
        for (char c : x) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if ((unsigned char)c < 32) s += ' ';
            else s += c;
        }
        s += "\"";
    }
};

struct Ev {                      // one trace event
    std::string s;
    explicit Ev(std::string const& op) { s = "{\"op\":" + J(op).s; }
    Ev& f(std::string const& k, J const& v) { s += ",\"" + k + "\":" + v.s; return *this; }
};

struct Out {
    std::FILE* fp = stdout;
    void open(const char* p) { fp = std::fopen(p, "w"); if (!fp) { std::perror(p); std::exit(3); } }
    void put(Ev const& e) { std::fputs(e.s.c_str(), fp); std::fputs("}\n", fp); std::fflush(fp); }
};

struct Line {
    std::vector<std::string> t; size_t i = 0;
    bool more() const { return i < t.size(); }
    std::string str() { if (i >= t.size()) { std::fprintf(stderr, "script: short line: %s\n", t.empty() ? "" : t[0].c_str()); std::exit(3); } return t[i++]; }
    int num() { return std::stoi(str()); }
    unsigned u() { return (unsigned)std::stoul(str()); }
    double d() { std::string x = str(); return std::strtod(x.c_str(), nullptr); }
    std::vector<unsigned> uvec() { unsigned n = u(); std::vector<unsigned> v(n); for (auto& x : v) x = u(); return v; }
    std::vector<double> dvec() { unsigned n = u(); std::vector<double> v(n); for (auto& x : v) x = d(); return v; }
};

template<class F> void run_script(std::istream& in, F&& f) {
    std::string l;
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream ss(l); Line L; std::string w;
        while (ss >> w) L.t.push_back(w);
        if (L.t.empty()) continue;
        f(L);
    }
}

// Runs f; the name of the exception class of the documented kinds, or "" when it returns.
template<class F> std::string outcome(F&& f, std::string* what = nullptr) {
    try { f(); return "ok"; }
    catch (std::out_of_range const& e) { if (what) *what = e.what(); return "out_of_range"; }
    catch (std::invalid_argument const& e) { if (what) *what = e.what(); return "invalid_argument"; }
    catch (std::runtime_error const& e) { if (what) *what = e.what(); return "runtime_error"; }
    catch (std::exception const& e) { if (what) *what = e.what(); return "exception"; }
}
