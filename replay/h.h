// Executable counterpart of the contracts: run on the REAL code (sanitizers on) to
// turn a failed obligation into a concrete failing input.
#pragma once
#include <cstdint>
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <future>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unistd.h>
#include <vector>
#include <chrono>
#include <dataframe/Serie.h>
#include <dataframe/utils.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace h {

using df::Serie;
inline std::string cur = "(start)";
inline const char *outfile = nullptr;
inline std::vector<uint32_t> hints;      // interesting sizes (literals of the sources, counterexample values)
inline std::vector<double> dhints;       // interesting values
inline double budget = 10;
inline uint64_t seed = 1;
inline std::chrono::steady_clock::time_point t0;
inline unsigned long ncases = 0;
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more(double frac = 1) { return elapsed() < budget * frac; }
inline void record(const char *why) {
    if (outfile) {
        if (FILE *f = fopen(outfile, "w")) {
            fprintf(f, "input: %s\nfailure: %s\n", cur.c_str(), why);
            fclose(f);
        }
    }
    fprintf(stderr, "FAILING INPUT: %s\nFAILURE: %s\n", cur.c_str(), why);
}
[[noreturn]] inline void fail(const std::string &why) {
    record(why.c_str());
    _exit(42);
}
inline void death() { record("memory error or undefined behaviour reported by the sanitizers"); }
inline void onalarm(int) { record("the call does not return"); _exit(42); }
inline void onterm() { record("std::terminate"); _exit(42); }
template <class... A> void CASE(const A &...a) {
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    cur = o.str();
    ++ncases;
    alarm(20);
}
struct RS {
    uint32_t isz = 1, count = 0, dim = 3;
    std::vector<double> v;
    Array item(uint32_t i) const { return Array(v.begin() + size_t(i) * isz, v.begin() + size_t(i + 1) * isz); }
};
inline std::ostream &operator<<(std::ostream &o, const std::vector<double> &v) {
    o << "{";
    for (size_t i = 0; i < v.size(); ++i) { if (i > 40) { o << ", ..."; break; } o << (i ? ", " : "") << v[i]; }
    return o << "}";
}
inline std::ostream &operator<<(std::ostream &o, const RS &s) {
    return o << "Serie(itemSize=" << s.isz << ", count=" << s.count << ", dimension=" << s.dim << ", values=" << s.v << ")";
}
inline bool feq(double a, double b) { return a == b ? (a != 0 || std::signbit(a) == std::signbit(b)) : (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double scale = 0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b) + scale) + 1e-300;
}
inline bool same(const std::vector<double> &a, const std::vector<double> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!feq(a[i], b[i])) return false;
    return true;
}
inline bool closev(const std::vector<double> &a, const std::vector<double> &b, double scale = 0) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!close(a[i], b[i], scale)) return false;
    return true;
}
inline Serie mk(const RS &s) { return Serie(int(s.isz), Array(s.v), s.dim); }
inline std::string show(const Serie &s) {
    RS r{s.itemSize(), s.count(), s.dimension(), s.asArray()};
    std::ostringstream o; o.precision(17); o << r; return o.str();
}
inline std::string show(const RS &s) { std::ostringstream o; o.precision(17); o << s; return o.str(); }
inline std::string show(const std::vector<double> &s) { std::ostringstream o; o.precision(17); o << s; return o.str(); }
// the item size of a result without items is left open
inline bool eqS(const Serie &a, const RS &b, bool dim = false, bool tol = false, double scale = 0) {
    if (a.count() != b.count || a.asArray().size() != b.v.size()) return false;
    if (b.count && a.itemSize() != b.isz) return false;
    if (dim && a.dimension() != b.dim) return false;
    return tol ? closev(a.asArray(), b.v, scale) : same(a.asArray(), b.v);
}
inline void expect(const char *what, const Serie &got, const RS &want, bool dim = false, bool tol = false, double scale = 0) {
    if (!eqS(got, want, dim, tol, scale)) fail(std::string(what) + " gives " + show(got) + ", expected " + show(want));
}
inline void require(bool c, const std::string &why) { if (!c) fail(why); }
inline void unchanged(const Serie &s, const RS &was) {
    if (!(s.count() == was.count && s.itemSize() == was.isz && s.dimension() == was.dim && same(s.asArray(), was.v)))
        fail("an input was changed: now " + show(s) + ", was " + show(was));
}
template <class F> bool throws(F &&f) {
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}
template <class F> void must_throw(const char *what, F &&f) { if (!throws(f)) fail(std::string(what) + ": no exception"); }
template <class F> void no_throw(const char *what, F &&f) {
    try { f(); } catch (const std::exception &e) { fail(std::string(what) + " throws: " + e.what()); }
}
// ------------------------------------------------------------ inputs
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 33) % n) : 0; }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool flip(double p = .5) { return unit() < p; }
};
enum Style { INTS, SMALL, WILD, MIXED, TIES };
inline bool specials = false;            // not a number and the infinities too
inline double value(Rng &r, Style st) {
    if (specials && st != INTS && r.flip(.06)) {
        double inf = std::numeric_limits<double>::infinity();
        switch (r.below(3)) { case 0: return inf; case 1: return -inf; default: return std::numeric_limits<double>::quiet_NaN(); }
    }
    switch (st) {
    case INTS: return double(int(r.below(19)) - 9);
    case TIES: return double(r.below(3));
    case SMALL: return (r.unit() - .5) * 20;
    case WILD: {
        static const double w[] = {0.0, -0.0, 1e-12, -1e-12, 1e-11, 1e-9, 1e-10, 1e12, -1e12, 1e6, 0.5, 2, -3, 1e-5, 1e-7, 1e-300, 1e150};
        return w[r.below(sizeof w / sizeof *w)];
    }
    default:
        if (!dhints.empty() && r.flip(.3)) {
            double d = dhints[r.below(dhints.size())];
            switch (r.below(5)) { case 0: return d; case 1: return -d; case 2: return std::nextafter(d, 1e308); case 3: return std::nextafter(d, -1e308); default: return d * (r.unit() + .5); }
        }
        return r.flip(.5) ? value(r, INTS) : r.flip(.7) ? value(r, SMALL) : value(r, WILD);
    }
}
inline RS gen(Rng &r, uint32_t isz, uint32_t count, Style st) {
    RS s; s.isz = isz; s.count = isz ? count : 0; s.dim = r.below(4) ? 3 : 2;
    s.v.resize(size_t(isz) * s.count);
    for (auto &x : s.v) x = value(r, st);
    if (st == INTS && r.flip(.5)) for (size_t i = 0; i < s.v.size(); ++i) s.v[i] = double(i + 1);   // distinct, increasing
    return s;
}
inline std::vector<uint32_t> sizes(uint32_t maxv, uint32_t small, bool zero = true) {
    std::set<uint32_t> x;
    for (uint32_t i = zero ? 0 : 1; i <= small; ++i) x.insert(i);
    for (uint32_t i : hints) for (int d = -1; d <= 1; ++d) if (i + d <= maxv && (zero || i + d)) x.insert(i + d);
    return {x.begin(), x.end()};
}
// every (itemSize, count) of a small grid widened by the hints, then random ones until the budget is used
template <class F> void sweep(const std::vector<uint32_t> &iszs, uint32_t maxcount, double frac, F &&f) {
    Rng r(seed);
    double start = elapsed(), end = start + (budget - start) * frac;
    auto cs = sizes(maxcount, 6);
    const Style sts[] = {INTS, MIXED, TIES, SMALL, WILD};
    for (int rep = 0; rep < 3; ++rep)
        for (uint32_t z : iszs)
            for (uint32_t c : cs) {
                if (rep && elapsed() > end) return;
                if (size_t(z) * c > 200000) continue;
                f(r, z, c, sts[(rep + c + z) % 5]);
            }
    // a few large ones, shared out among the processes
    static const uint32_t big[7][2] = {{1, 66000}, {3, 30000}, {2, 33000}, {1, 300}, {6, 11000}, {4, 257}, {9, 8000}};
    auto &b = big[seed % 7];
    if (maxcount > 500 && std::find(iszs.begin(), iszs.end(), b[0]) != iszs.end()) f(r, b[0], b[1], MIXED);
    while (elapsed() < end) {
        uint32_t z = iszs[r.below(iszs.size())];
        uint32_t c = r.flip(.8) ? r.below(12) : r.flip(.9) ? r.below(70) : r.below(std::min<uint32_t>(maxcount, 600) + 1);
        // now and then the same shape several times in a row, with other values
        for (uint32_t again = r.flip(.1) ? 3 : 1; again; --again) f(r, z, c, sts[r.below(5)]);
    }
}
// deterministic pseudo-random functions of the arguments: the callbacks
inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline uint64_t hd(uint64_t h, double d) { uint64_t x; memcpy(&x, &d, 8); return mix(h, x); }
inline uint64_t ha(uint64_t h, const Array &a) { h = mix(h, a.size()); for (double d : a) h = hd(h, d); return h; }
inline double fin(uint64_t h) { if (specials && h % 29 == 0) return std::numeric_limits<double>::infinity(); return double(h % 2000001) / 1000 - 1000; }
inline int run(int argc, char **argv, void (*body)()) {
    t0 = std::chrono::steady_clock::now();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i];
        std::stringstream ss(argv[i + 1]);
        std::string w;
        if (k == "--out") outfile = argv[i + 1];
        else if (k == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        else if (k == "--budget") budget = atof(argv[i + 1]);
        else if (k == "--ints") while (std::getline(ss, w, ',')) hints.push_back(strtoul(w.c_str(), 0, 10));
        else if (k == "--dbls") while (std::getline(ss, w, ',')) dhints.push_back(atof(w.c_str()));
    }
    __sanitizer_set_death_callback(death);
    signal(SIGALRM, onalarm);
    std::set_terminate(onterm);
    try { body(); } catch (const std::exception &e) { fail(std::string("unexpected exception: ") + e.what()); }
    printf("cases %lu\n", ncases);
    return 0;
}
} // namespace h
#define MAIN(body) int main(int c, char **v) { return h::run(c, v, body); }
