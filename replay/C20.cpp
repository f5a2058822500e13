#include "h.h"
#include <map>
#include <dataframe/functional/utils/memoize.h>
using namespace h;
using namespace df;
using Key = std::vector<uint64_t>;
static Key key(const RS &s) { Key k{s.isz, s.dim, s.count}; for (double d : s.v) { uint64_t x; memcpy(&x, &d, 8); k.push_back(x); } return k; }
static RS value_of(const RS &a, int mode) {
    uint64_t x = 7; for (uint64_t t : key(a)) x = mix(x, t);
    if (x % 13 == 5) { RS r; r.isz = r.count = 0; return r; }
    RS r; r.isz = 1 + x % 3; r.count = mode ? 1 + (x >> 3) % 4 : a.count; r.dim = 3;
    for (uint32_t i = 0; i < r.isz * r.count; ++i) r.v.push_back(fin(mix(x, i)));
    return r;
}
static RS of(const Serie &s) { RS a; a.isz = s.itemSize(); a.dim = s.dimension(); a.count = s.count(); a.v = s.asArray(); return a; }
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    // a pool of arguments that are easily confused
    std::vector<RS> pool;
    RS a = gen(r, z, c, st); a.dim = 3; pool.push_back(a);
    auto push = [&](RS b) { if (b.isz) pool.push_back(b); };
    { RS b = a; b.dim = 2; push(b); b.dim = a.count; push(b); b.dim = a.isz; push(b); }
    { RS b = a; std::reverse(b.v.begin(), b.v.end()); push(b); }
    for (uint32_t i = 1; i <= 6 && a.v.size(); ++i) if (a.v.size() % i == 0) { RS b = a; b.isz = i; b.count = a.v.size() / i; push(b); }
    for (int k = 0; k < 4 && a.v.size(); ++k) { RS b = a; size_t i = r.below(b.v.size()), j = r.below(b.v.size()); std::swap(b.v[i], b.v[j]); push(b); b.v[i] = -b.v[i]; push(b); }
    for (int k = 0; k < 6 && a.v.size(); ++k) { RS b = a; double &x = b.v[r.below(b.v.size())]; x = k == 0 ? std::nextafter(x, 1e300) : k == 1 ? x + 1e-12 : k == 2 ? -x : k == 3 ? 0. : k == 4 ? -0. : NAN; push(b); }
    if (a.v.size()) { RS b = a; b.v[0] += 1; if (b.v.size() > 1) b.v[1] -= 1; push(b); b = a; b.v.back() = b.v[0]; push(b); b = a; for (double &x : b.v) x = -x; push(b); }
    for (uint32_t k : hints) for (int d = -1; d <= 1; ++d) if (k + d < a.v.size()) { RS b = a; b.v[k + d] += 1; push(b); }
    if (a.v.size() > 20) for (int k = 0; k < 3; ++k) { RS b = a; b.v[b.v.size() - 1 - r.below(6)] += 1; push(b); }
    if (a.count > 1) { RS b = a; b.count--; b.v.resize(b.count * b.isz); push(b); b.v.insert(b.v.end(), b.isz, 0.); b.count++; push(b); }
    if (a.count && a.isz) { RS b = a; b.count++; b.v.insert(b.v.end(), b.isz, 0.); push(b); b = a; b.v.insert(b.v.begin(), a.isz, 0.); b.count++; push(b); }
    std::map<Key, int> calls;
    int mode = r.below(2); bool may = r.flip(.3); uint64_t bad = r.below(5);
    auto m = utils::memoize([&calls, mode, may, bad](const Serie &s) {
        RS x = of(s); Key k = key(x); ++calls[k];
        uint64_t q = 3; for (uint64_t t : k) q = mix(q, t);
        if (may && q % 5 == bad) throw std::runtime_error("no result");
        RS y = value_of(x, mode);
        return y.isz ? mk(y) : Serie();
    });
    std::string log = "memoize";
    for (int i = 0; i < 24; ++i) {
        const RS &x = pool[r.below(pool.size())];
        uint64_t q = 3; for (uint64_t t : key(x)) q = mix(q, t);
        bool fails = may && q % 5 == bad;
        Serie X = x.isz ? mk(x) : Serie();
        RS y = of(X);
        if (r.flip(.05)) { m.clear_cache(); calls.clear(); log += "; clear_cache"; }
        log += "; " + std::string("call with ") + show(x); cur = log; ++ncases;
        if (fails && x.isz) {
            int before = calls[key(y)];
            must_throw("a function that fails", [&] { m(X); });
            require(calls[key(y)] == before + 1, "a failed call is remembered");
            calls[key(y)] = 0;
            continue;
        }
        if (!x.isz) { try { m(X); } catch (std::runtime_error &) {} continue; }
        Serie g = m(X);
        expect("the memoized call", g, value_of(y, mode), true);
        require(calls[key(y)] == 1, "the function was called " + std::to_string(calls[key(y)]) + " times for this argument");
        unchanged(X, x);
    }
    auto n = m;         // a copy answers the same
    const RS &x = pool[0];
    if (x.isz && !may) { cur = log + "; copied"; expect("a copy of the memoized function", n(mk(x)), value_of(of(mk(x)), mode), true); }
}
static void body() { specials = true; sweep({1, 2, 3, 6}, 3000, 1, one); }
MAIN(body)
