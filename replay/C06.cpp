#include "h.h"
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/reduce.h>
using namespace h;
using namespace df;
// forEach calls its callback once per item in increasing order; reduce is the left fold from the initial value.
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    Serie x = mk(s);
    uint64_t salt = r.next();
    std::vector<uint32_t> ids;
    std::vector<double> vals;
    auto seen = [&](const char *what, const std::vector<double> &want, uint32_t n) {
        require(ids.size() == n, std::string(what) + " makes " + std::to_string(ids.size()) + " calls");
        for (uint32_t i = 0; i < n; ++i) require(ids[i] == i, std::string(what) + ": call number " + std::to_string(i) + " is for item " + std::to_string(ids[i]));
        require(same(vals, want), std::string(what) + " passes " + show(vals));
        ids.clear();
        vals.clear();
    };
    auto fd = [&](double d, uint32_t i) { ids.push_back(i); vals.push_back(d); };
    auto fa = [&](const Array &a, uint32_t i) { ids.push_back(i); vals.insert(vals.end(), a.begin(), a.end()); };
    CASE("forEach over ", s);
    if (z == 1) {
        forEach(fd, x); seen("forEach", s.v, s.count);
        x.forEach(fd); seen("Serie::forEach", s.v, s.count);
        must_throw("forEach with an array callback", [&] { forEach(fa, x); });
    } else if (z) {
        forEach(fa, x); seen("forEach", s.v, s.count);
        x.forEach(fa); seen("Serie::forEach", s.v, s.count);
        must_throw("forEach with a scalar callback", [&] { forEach(fd, x); });
    }
    require(ids.empty(), "calls made before the exception");
    if (z) {
        CASE("forEach with a callback of both kinds over ", s);
        bool scalars = true, items = true;
        struct Both {
            std::function<void(double, uint32_t)> d;
            std::function<void(const Array &, uint32_t)> a;
            void operator()(double x, uint32_t i) const { d(x, i); }
            void operator()(const Array &x, uint32_t i) const { a(x, i); }
        } both{[&](double x, uint32_t i) { items = false; fd(x, i); }, [&](const Array &x, uint32_t i) { scalars = false; fa(x, i); }};
        forEach(both, x); seen("forEach", s.v, s.count);
        x.forEach(both); seen("Serie::forEach", s.v, s.count);
        require(s.count == 0 || (z == 1 ? scalars : items), "calls of the wrong kind");
    }
    RS s2 = gen(r, 1 + r.below(4), c, st), s3 = gen(r, 1 + r.below(4), c, st);
    if (s2.count == s.count) {
        Serie y = mk(s2);
        CASE("forEach over ", s, " and ", s2);
        auto f2 = [&](const Array &a, const Array &b, uint32_t i) { ids.push_back(i); vals.insert(vals.end(), a.begin(), a.end()); vals.insert(vals.end(), b.begin(), b.end()); };
        std::vector<double> w;
        for (uint32_t i = 0; i < s.count; ++i) { auto a = s.item(i), b = s2.item(i); w.insert(w.end(), a.begin(), a.end()); w.insert(w.end(), b.begin(), b.end()); }
        forEach(f2, x, y); seen("forEach", w, s.count);
        Serie u = mk(s3);
        CASE("forEach over ", s, ", ", s2, " and ", s3);
        auto f3 = [&](const Array &a, const Array &b, const Array &c, uint32_t i) { ids.push_back(i); for (auto *p : {&a, &b, &c}) vals.insert(vals.end(), p->begin(), p->end()); };
        w.clear();
        for (uint32_t i = 0; i < s.count; ++i) for (auto *q : {&s, &s2, &s3}) { auto a = q->item(i); w.insert(w.end(), a.begin(), a.end()); }
        forEach(f3, x, y, u); seen("forEach", w, s.count);
        RS bad = gen(r, 1 + r.below(3), c + 1, st);
        Serie yb = mk(bad);
        CASE("forEach over ", s, " and ", bad);
        must_throw("forEach", [&] { forEach(f2, x, yb); });
        require(ids.empty(), "calls made before the exception");
    }
    if (z == 1) {
        double init = value(r, st), e = init;
        CASE("reduce from ", init, " over ", s);
        auto F = [salt](double acc, double d, uint32_t i) { return fin(mix(hd(hd(salt, acc), d), i)); };
        for (uint32_t i = 0; i < s.count; ++i) e = F(e, s.v[i], i);
        require(feq(reduce(F, x, init), e), "reduce");
        require(feq(x.reduce(F, init), e), "Serie::reduce");
        require(feq(make_reduce(F, init)(x), e), "make_reduce");
    }
    {
        uint32_t n = 1 + r.below(5);
        Array init(n);
        for (auto &d : init) d = value(r, st);
        Array e = init;
        CASE("reduce from ", init, " over ", s);
        auto F = [salt](const Array &acc, const Array &a, uint32_t i) {
            Array o(acc.size());
            uint64_t k = mix(ha(ha(salt, acc), a), i);
            for (auto &d : o) { k = mix(k, 5); d = fin(k); }
            return o;
        };
        for (uint32_t i = 0; i < s.count; ++i) e = F(e, s.item(i), i);
        RS w; w.isz = n; w.count = 1; w.v = e;
        expect("reduce", reduce(F, x, init), w);
        expect("Serie::reduce", x.reduce(F, init), w);
        expect("make_reduce", make_reduce(F, init)(x), w);
    }
    unchanged(x, s);
}
static void body() { specials = true; sweep(sizes(64, 6, false), 3000, 1, one); }
MAIN(body)
