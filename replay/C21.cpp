#include "h.h"
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/macros.h>
#include <dataframe/functional/conditional/if.h>
using namespace h;
using namespace df;
// pipe applies its operations left to right; compose right to left, as documented.
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    c = s.count;
    Serie x = mk(s);
    uint64_t k1 = r.next(), k2 = r.next(), k3 = r.next();
    auto step = [](uint64_t k) {
        return [k](const Serie &a) {
            uint64_t h = ha(mix(mix(mix(k, a.count()), a.itemSize()), a.dimension()), a.asArray());
            RS o; o.isz = 1 + h % 3; o.count = (h >> 8) % 4; o.dim = 2 + (h >> 16) % 2;
            for (uint32_t i = 0; i < o.isz * o.count; ++i) { h = mix(h, i); o.v.push_back(fin(h)); }
            return mk(o);
        };
    };
    auto f = step(k1), g = step(k2), q = step(k3);
    auto rs = [](const Serie &a) { RS o{a.itemSize(), a.count(), a.dimension(), a.asArray()}; return o; };
    RS e1 = rs(f(x)), e2 = rs(g(f(x))), e3 = rs(q(g(f(x))));
    CASE("pipe over ", s);
    expect("pipe of 2", pipe(x, f, g), e2, true);
    expect("pipe of 3", pipe(x, f, g, q), e3, true);
    expect("make_pipe of 3", make_pipe(f, g, q)(x), e3, true);
    expect("make_pipe of 2", make_pipe(f, g)(x), e2, true);
    expect("Serie::pipe of 1", x.pipe(f), e1, true);
    expect("Serie::pipe of 2", x.pipe(f, g), e2, true);
    expect("Serie::pipe of 3", x.pipe(f, g, q), e3, true);
    expect("compose of 2", utils::compose(g, f)(x), e2, true);
    expect("compose of 3", utils::compose(q, g, f)(x), e3, true);
    RS e4 = rs(f(q(g(f(x))))), e5 = rs(g(mk(e4))), e6 = rs(q(mk(e5)));
    expect("compose of 4", utils::compose(f, q, g, f)(x), e4, true);
    expect("compose of 5", utils::compose(g, f, q, g, f)(x), e5, true);
    expect("compose of 6", utils::compose(q, g, f, q, g, f)(x), e6, true);
    expect("pipe of 4", pipe(x, f, g, q, f), e4, true);
    expect("pipe of 5", pipe(x, f, g, q, f, g), e5, true);
    expect("pipe of 6", pipe(x, f, g, q, f, g, q), e6, true);
    expect("make_pipe of 4", make_pipe(f, g, q, f)(x), e4, true);
    expect("make_pipe of 5", make_pipe(f, g, q, f, g)(x), e5, true);
    expect("Serie::pipe of 4", x.pipe(f, g, q, f), e4, true);
    expect("Serie::pipe of 5", x.pipe(f, g, q, f, g), e5, true);
    unchanged(x, s);
    // conditionals
    uint64_t k = r.next(); double lim = 2. + r.below(5);
    auto whole = [](const Serie &a) { const Array &v = a.asArray(); size_t n = v.size(); Array t(v.begin(), v.begin() + std::min<size_t>(n, 40)); t.insert(t.end(), v.end() - std::min<size_t>(n, 40), v.end()); return ha(mix(mix(a.count(), a.itemSize()), a.dimension()), t); };
    uint64_t w = whole(x);
    if (z == 1 || c == 0) {
        CASE("if_then_else over scalars ", s);
        int checks = 0, yes = 0, no = 0;
        Serie g1 = cond::if_then_else(x, [&](double v) { ++checks; return mix(k, hd(1, v)) % 7 < lim; }, [&](double v, uint32_t i, const Serie &a) { ++yes; return fin(mix(hd(mix(2, i), v), whole(a))); },
            [&](double v, uint32_t i, const Serie &a) { ++no; return fin(mix(hd(mix(3, i), v), whole(a))); });
        RS e; e.isz = 1; e.count = c; int ny = 0;
        for (uint32_t i = 0; i < c; ++i) { bool b = mix(k, hd(1, s.v[i])) % 7 < lim; ny += b; e.v.push_back(fin(mix(hd(mix(b ? 2 : 3, i), s.v[i]), w))); }
        expect("if_then_else", g1, e);
        require(checks == int(c) && yes == ny && no == int(c) - ny, "if_then_else calls its functions another number of times");
    }
    CASE("if_then_else over items ", s);
    uint32_t oz = 1 + r.below(3); bool odd = r.flip(.2);
    auto item = [&](uint64_t h, uint32_t n) { Array a; for (uint32_t i = 0; i < n; ++i) a.push_back(fin(mix(h, i))); return a; };
    auto chk = [&](const Array &v) { return mix(k, ha(1, v)) % 7 < lim; };
    auto yes = [&](const Array &v, uint32_t i, const Serie &a) { return item(mix(ha(mix(2, i), v), whole(a)), oz); };
    auto no = [&](const Array &v, uint32_t i, const Serie &a) { return item(mix(ha(mix(3, i), v), whole(a)), odd ? oz + 1 : oz); };
    RS e; e.isz = c ? oz : 0; e.count = c; bool ys = false, ns = false;
    for (uint32_t i = 0; i < c; ++i) {
        bool b = chk(s.item(i)); (b ? ys : ns) = true;
        Array a = item(mix(ha(mix(b ? 2 : 3, i), s.item(i)), w), !b && odd ? oz + 1 : oz);
        if (!i) e.isz = a.size();
        e.v.insert(e.v.end(), a.begin(), a.end());
    }
    if (odd && ys && ns) must_throw("if_then_else with items of two sizes", [&] { cond::if_then_else(x, chk, yes, no); });
    else expect("if_then_else", cond::if_then_else(x, chk, yes, no), e);
    RS e7; e7.isz = 1; e7.count = c;
    for (uint32_t i = 0; i < c; ++i) e7.v.push_back(chk(s.item(i)) ? fin(ha(i, s.item(i))) : fin(ha(w + i, s.item(i))));
    expect("if_then_else", cond::if_then_else(x, chk, [&](const Array &v, uint32_t i, const Serie &) { return fin(ha(i, v)); }, [&](const Array &v, uint32_t i, const Serie &a) { return fin(ha(whole(a) + i, v)); }), e7);
    unchanged(x, s);
}
static void body() { specials = true; sweep(sizes(64, 5), 1000, 1, one); }
MAIN(body)
