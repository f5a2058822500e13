#include "h.h"
#include <dataframe/functional/map.h>
#include <dataframe/functional/utils/apply.h>
using namespace h;
using namespace df;
// Item i of map(f, s...) is f(item i of every s, i).
static uint64_t salt;
static double fs(double d, uint32_t i) { return fin(mix(hd(salt, d), i)); }
static double fv(const Array &a, uint32_t i) { return fin(mix(ha(salt, a), i)); }
static uint32_t outw;
static Array vec(uint64_t h, uint32_t n) { Array r(n); for (auto &d : r) { h = mix(h, 77); d = fin(h); } return r; }
static Array gs(double d, uint32_t i) { return vec(mix(hd(salt, d), i), outw); }
static Array gv(const Array &a, uint32_t i) { return vec(mix(ha(salt, a), i), outw); }
static Array gvv(const Array &a, const Array &b, uint32_t i) { return vec(mix(ha(ha(salt, a), b), i), outw); }
static double fvv(const Array &a, const Array &b, uint32_t i) { return fin(mix(ha(ha(salt, a), b), i)); }
static Array gvvv(const Array &a, const Array &b, const Array &c, uint32_t i) { return vec(mix(ha(ha(ha(salt, a), b), c), i), outw); }
static std::vector<uint32_t> calls;      // the indices the function was called with since the expected result was computed
static void exp_(const char *what, const Serie &got, uint32_t n, uint32_t w, const std::vector<double> &v) {
    bool once = calls.size() == n;
    for (uint32_t i = 0; once && i < n; ++i) once = calls[i] == i;
    if (!once) fail(std::string(what) + ": the function is not called exactly once per item in order (" + std::to_string(calls.size()) + " calls)");
    calls.clear();
    RS e; e.isz = w; e.count = n; e.v = v;
    expect(what, got, e);
}
template <class T> struct Nested {       // a function that calls map with itself
    const Serie *other;
    static inline int deep = 0;
    double operator()(T d, uint32_t i) const {
        if (deep == 0) { ++deep; map(*this, *other); --deep; calls.push_back(i); }
        if constexpr (std::is_same_v<T, double>) return fs(d, i);
        else return fv(d, i);
    }
};
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    salt = r.next();
    outw = 1 + r.below(r.flip(.9) ? 10 : 40);
    RS s = gen(r, z, c, st);
    Serie x = mk(s);
    std::vector<double> e;
    auto all = [&](auto f) { e.clear(); for (uint32_t i = 0; i < s.count; ++i) { auto v = f(i); e.insert(e.end(), v.begin(), v.end()); } calls.clear(); };
    if (z == 1) {
        CASE("map with a scalar callback over ", s);
        all([&](uint32_t i) { return Array{fs(s.v[i], i)}; });
        auto cb = [](double d, uint32_t i) { calls.push_back(i); return fs(d, i); };
        exp_("map", map(cb, x), s.count, 1, e);
        exp_("Serie::map", x.map(cb), s.count, 1, e);
        exp_("apply", utils::apply(cb, x), s.count, 1, e);
        exp_("make_map", make_map(cb)(x), s.count, 1, e);
        CASE("map of scalars to arrays of ", outw, " over ", s);
        all([&](uint32_t i) { return gs(s.v[i], i); });
        auto cv = [](double d, uint32_t i) { calls.push_back(i); return gs(d, i); };
        exp_("map", map(cv, x), s.count, outw, e);
        exp_("Serie::map", x.map(cv), s.count, outw, e);
        CASE("map with a callback that returns an integer, over ", s);
        auto gi = [](double d, uint32_t i) { calls.push_back(i); return int(mix(hd(salt, d), i) % 2001) - 1000; };
        all([&](uint32_t i) { return Array{double(gi(s.v[i], i))}; });
        exp_("map", map(gi, x), s.count, 1, e);
        CASE("map with a callback that returns a truth value, over ", s);
        auto gb = [](double d, uint32_t i) { calls.push_back(i); return mix(hd(salt, d), i) % 2 == 0; };
        all([&](uint32_t i) { return Array{gb(s.v[i], i) ? 1.0 : 0.0}; });
        exp_("map", map(gb, x), s.count, 1, e);
        all([&](uint32_t i) { return Array{fs(s.v[i], i)}; });
        exp_("make_apply", utils::make_apply(cb)(x), s.count, 1, e);
        CASE("map whose function maps another Serie with the same function, over ", s);
        Nested<double> nd{&x};
        if (c <= 64) exp_("map", map(nd, x), s.count, 1, e);
    }
    CASE("map of arrays to scalars over ", s);
    all([&](uint32_t i) { return Array{fv(s.item(i), i)}; });
    auto cs = [](const Array &a, uint32_t i) { calls.push_back(i); return fv(a, i); };
    exp_("map", map(cs, x), s.count, 1, e);
    exp_("apply", utils::apply(cs, x), s.count, 1, e);
    Nested<const Array &> na{&x};
    if (c <= 64) exp_("map whose function maps another Serie", map(na, x), s.count, 1, e);
    CASE("map of arrays to arrays of ", outw, " over ", s);
    all([&](uint32_t i) { return gv(s.item(i), i); });
    auto cv = [](const Array &a, uint32_t i) { calls.push_back(i); return gv(a, i); };
    exp_("map", map(cv, x), s.count, outw, e);
    exp_("Serie::map", x.map(cv), s.count, outw, e);
    exp_("make_map", make_map(cv)(x), s.count, outw, e);
    RS s2 = gen(r, 1 + r.below(5), c, st), s3 = gen(r, 1 + r.below(5), c, st);
    if (s.count == s2.count) {
        Serie y = mk(s2), w = mk(s3);
        CASE("map over ", s, " and ", s2);
        all([&](uint32_t i) { return gvv(s.item(i), s2.item(i), i); });
        auto c2 = [](const Array &a, const Array &b, uint32_t i) { calls.push_back(i); return gvv(a, b, i); };
        exp_("map", map(c2, x, y), s.count, outw, e);
        exp_("apply", utils::apply(c2, x, y), s.count, outw, e);
        all([&](uint32_t i) { return Array{fvv(s.item(i), s2.item(i), i)}; });
        exp_("map", map([](const Array &a, const Array &b, uint32_t i) { calls.push_back(i); return fvv(a, b, i); }, x, y), s.count, 1, e);
        CASE("map over ", s, " and ", s2, " and ", s3);
        all([&](uint32_t i) { return gvvv(s.item(i), s2.item(i), s3.item(i), i); });
        auto c3 = [](const Array &a, const Array &b, const Array &c, uint32_t i) { calls.push_back(i); return gvvv(a, b, c, i); };
        exp_("map", map(c3, x, y, w), s.count, outw, e);
        all([&](uint32_t i) { return Array{gvvv(s.item(i), s2.item(i), s3.item(i), i)[0]}; });
        exp_("map to scalars", map([](const Array &a, const Array &b, const Array &c, uint32_t i) { calls.push_back(i); return gvvv(a, b, c, i)[0]; }, x, y, w), s.count, 1, e);
        auto gi = [](const Array &a, const Array &b, uint32_t i) { calls.push_back(i); return int(mix(ha(ha(salt, a), b), i) % 2001) - 1000; };
        all([&](uint32_t i) { return Array{double(gi(s.item(i), s2.item(i), i))}; });
        exp_("map to integers", map(gi, x, y), s.count, 1, e);
        RS b = gen(r, z ? z : 1, c + 1 + r.below(2), st);
        Serie yb = mk(b);
        CASE("map over ", s, " and ", b, " (different counts)");
        must_throw("map", [&] { map(c2, x, yb); });
        must_throw("map", [&] { map(c2, yb, x); });
        must_throw("map", [&] { map(c3, x, y, yb); });
        must_throw("map", [&] { map(c3, x, yb, y); });
        must_throw("map", [&] { map(c3, yb, x, y); });
        unchanged(y, s2);
    }
    if (s.count > 1) {
        uint32_t k = 1 + r.below(s.count - 1);
        CASE("map whose callback returns arrays of different sizes from item ", k, " on over ", s);
        auto bad = [k](const Array &a, uint32_t i) { return Array(i < k ? 2 : 3, 1.0); };
        must_throw("map", [&] { map(bad, x); });
        bool grow = r.flip();
        uint32_t base = 1 + r.below(3);
        auto bad2 = [=](const Array &, const Array &, uint32_t i) { return Array(i == k ? (grow ? base + 1 : base - 1) : base, 1.0); };
        must_throw("map over two inputs", [&] { map(bad2, x, x); });
        must_throw("map", [&] { map([=](const Array &, uint32_t i) { return Array(i == k ? (grow ? base + 1 : base - 1) : base, 1.0); }, x); });
        if (z == 1) must_throw("map of scalars", [&] { map([=](double, uint32_t i) { return Array(i == k ? (grow ? base + 1 : base - 1) : base, 1.0); }, x); });
        must_throw("map", [&] { map([k](const Array &, uint32_t i) { return Array(i == k ? 1 : 2, 1.0); }, x); });
    }
    unchanged(x, s);
}
static void body() { specials = true; sweep(sizes(64, 6), 3000, 1, one); }
MAIN(body)
