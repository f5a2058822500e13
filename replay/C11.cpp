#include "h.h"
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/weightedSum.h>
using namespace h;
using namespace df;
// every operation is compared with its formula at every position
static RS like(Rng &r, const RS &s, Style st) { return gen(r, s.isz, s.count, st); }
template <class F> static RS pos(const RS &s, F f) { RS o = s; for (size_t m = 0; m < s.v.size(); ++m) o.v[m] = f(m); return o; }
static double mag(const std::vector<const RS *> &l) { double m = 0; for (auto s : l) for (double x : s->v) if (std::isfinite(x)) m = std::max(m, std::abs(x)); return m; }
static Serie call(int op, const std::vector<Serie> &l, bool list) {
    switch (l.size()) {
    case 1: return op ? math::sub({l[0]}) : math::add({l[0]});
    case 2: if (list) return op ? math::sub({l[0], l[1]}) : math::add({l[0], l[1]});
        return op ? math::sub(l[0], l[1]) : math::add(l[0], l[1]);
    case 3: if (list) return op ? math::sub({l[0], l[1], l[2]}) : math::add({l[0], l[1], l[2]});
        return op ? math::sub(l[0], l[1], l[2]) : math::add(l[0], l[1], l[2]);
    default: if (list) return op ? math::sub({l[0], l[1], l[2], l[3]}) : math::add({l[0], l[1], l[2], l[3]});
        return op ? math::sub(l[0], l[1], l[2], l[3]) : math::add(l[0], l[1], l[2], l[3]);
    }
}
static Serie ws(const std::vector<Serie> &l, const Array &w) {
    switch (l.size()) {
    case 1: return math::weigthedSum({l[0]}, w);
    case 2: return math::weigthedSum({l[0], l[1]}, w);
    case 3: return math::weigthedSum({l[0], l[1], l[2]}, w);
    default: return math::weigthedSum({l[0], l[1], l[2], l[3]}, w);
    }
}
static Serie ws2(const std::vector<Serie> &l, const Array &w) {
    switch (l.size()) {
    case 1: return math::weigthedSum({l[0]}, {w[0]});
    case 2: return math::weigthedSum({l[0], l[1]}, {w[0], w[1]});
    case 3: return math::weigthedSum({l[0], l[1], l[2]}, {w[0], w[1], w[2]});
    default: return math::weigthedSum({l[0], l[1], l[2], l[3]}, {w[0], w[1], w[2], w[3]});
    }
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS a = gen(r, z, c, st), b = like(r, a, r.flip(.2) ? st : MIXED), e = like(r, a, st), g = like(r, a, st);
    if (r.flip(.1)) b = a;
    std::vector<RS> rs{a, b, e, g};
    std::vector<Serie> xs; for (auto &s : rs) xs.push_back(mk(s));
    double d = r.flip(.2) ? 0 : value(r, MIXED);
    // add, sub: pairs, more and lists
    for (int op = 0; op < 2; ++op) for (size_t n = 1; n <= 4; ++n) for (int list = 0; list < 2; ++list) {
        if (n == 1 && !list) continue;
        CASE(op ? "sub" : "add", list ? " of the list " : " of ", a, n > 1 ? " and " + show(b) : "", n > 2 ? " and " + show(e) : "", n > 3 ? " and " + show(g) : "");
        std::vector<Serie> l(xs.begin(), xs.begin() + n);
        double mg = 0; for (size_t j = 0; j < n; ++j) mg += mag({&rs[j]});
        RS w = pos(a, [&](size_t m) { double x = a.v[m]; for (size_t j = 1; j < n; ++j) x = op ? x - rs[j].v[m] : x + rs[j].v[m]; return x; });
        expect("the result", call(op, l, list), w, false, true, mg * 1e-4);
        for (size_t j = 0; j < n; ++j) unchanged(xs[j], rs[j]);
        if (n > 1) {
            // one operand of another shape
            size_t k = r.below(n);
            for (int how = 0; how < 2; ++how) {
                RS o = how ? gen(r, a.isz, a.count + 1 + r.below(2), st) : gen(r, a.isz + 1 + r.below(2), std::max<uint32_t>(a.count, 1), st);
                auto l2 = l; l2[k] = mk(o);
                if (o.count == a.count || how) {
                    CASE(op ? "sub" : "add", list ? " of a list" : "", " with operand ", k, " of ", n, " being ", o, ", the others ", a, " ...");
                    must_throw("operands of different shapes", [&] { call(op, l2, list); });
                }
            }
        }
    }
    CASE("add/sub of ", a, " and ", d);
    if (z == 1) {
        expect("add(s,d)", math::add(xs[0], d), pos(a, [&](size_t m) { return a.v[m] + d; }), false, true);
        expect("sub(s,d)", math::sub(xs[0], d), pos(a, [&](size_t m) { return a.v[m] - d; }), false, true);
    } else {
        must_throw("add(s,d) with itemSize other than 1", [&] { math::add(xs[0], d); });
        must_throw("sub(s,d) with itemSize other than 1", [&] { math::sub(xs[0], d); });
    }
    CASE("mult/scale/div/negate of ", a, " by ", d);
    expect("mult(s,d)", math::mult(xs[0], d), pos(a, [&](size_t m) { return a.v[m] * d; }), false, true);
    expect("scale(s,d)", math::scale(xs[0], d), pos(a, [&](size_t m) { return a.v[m] * d; }), false, true);
    expect("div(d,s)", math::div(d, xs[0]), pos(a, [&](size_t m) { return a.v[m] / d; }), false, true);
    expect("negate", math::negate(xs[0]), pos(a, [&](size_t m) { return -a.v[m]; }), false, true);
    unchanged(xs[0], a);
    // mult by a Serie
    CASE("mult of ", a, " and ", b);
    expect("mult", math::mult(xs[0], xs[1]), pos(a, [&](size_t m) { return a.v[m] * b.v[m]; }), false, true);
    RS q = gen(r, 1, a.count, r.flip(.4) ? WILD : MIXED);
    if (!q.v.empty() && r.flip(.3)) q.v[r.below(q.v.size())] = r.flip() ? 0.0 : r.flip() ? 9e-11 : -1.1e-10;
    Serie Q = mk(q);
    CASE("mult of ", a, " by ", q);
    expect("mult by scalars", math::mult(xs[0], Q), pos(a, [&](size_t m) { return a.v[m] * q.v[m / z]; }), false, true);
    CASE("div of ", a, " by ", q);
    expect("div", math::div(Q, xs[0]), pos(a, [&](size_t m) { double w = q.v[m / z]; return std::abs(w) < 1e-10 ? 0.0 : a.v[m] / w; }), false, true);
    unchanged(Q, q); unchanged(xs[0], a); unchanged(xs[1], b);
    RS o = gen(r, z, a.count + 1, st);
    CASE("mult/div of ", a, " and ", o);
    must_throw("mult of different counts", [&] { math::mult(xs[0], mk(o)); });
    must_throw("mult of different counts", [&] { math::mult(mk(o), xs[0]); });
    { RS t = gen(r, 1, a.count + 1 + r.below(3), st);
      must_throw("div of different counts", [&] { math::div(mk(t), xs[0]); });
      if (a.count) { RS t2 = gen(r, 1, r.below(a.count), st); must_throw("div of different counts", [&] { math::div(mk(t2), xs[0]); });
          must_throw("mult of different counts", [&] { math::mult(xs[0], mk(t2)); }); } }
    if (z > 1) must_throw("div by a divider of several components", [&] { math::div(xs[0], xs[1]); });
    if (a.count) {
        RS t = gen(r, z + 1 + r.below(2), a.count, st);
        CASE("mult of ", a, " and ", t);
        must_throw("mult of different item sizes", [&] { math::mult(xs[0], mk(t)); });
        if (z > 2) { RS t2 = gen(r, 2 + r.below(z - 2), a.count, st); if (t2.isz != z) must_throw("mult of different item sizes", [&] { math::mult(xs[0], mk(t2)); }); }
    }
    // scale by an Array
    Array sc(z); for (auto &x : sc) x = value(r, MIXED);
    CASE("scale of ", a, " by ", sc);
    expect("scale(s,{})", math::scale(xs[0], sc), pos(a, [&](size_t m) { return a.v[m] * sc[m % z]; }), false, true);
    sc.push_back(1);
    must_throw("scale by too many", [&] { math::scale(xs[0], sc); });
    sc.pop_back(); sc.pop_back();
    must_throw("scale by too few", [&] { math::scale(xs[0], sc); });
    // weighted sums
    for (size_t n = 1; n <= 4; ++n) {
        Array w(n); for (auto &x : w) x = r.flip(.2) ? 0 : value(r, SMALL);
        std::vector<Serie> l(xs.begin(), xs.begin() + n);
        CASE("weigthedSum of ", a, n > 1 ? " and " + show(b) : "", n > 2 ? " and " + show(e) : "", n > 3 ? " and " + show(g) : "", " with weights ", w);
        double mg = 0; for (size_t j = 0; j < n; ++j) mg += mag({&rs[j]}) * std::abs(w[j]);
        RS want = pos(a, [&](size_t m) { double x = 0; for (size_t j = 0; j < n; ++j) x += rs[j].v[m] * w[j]; return x; });
        expect("weigthedSum", ws(l, w), want, false, true, mg * 1e-4);
        expect("weigthedSum", ws2(l, w), want, false, true, mg * 1e-4);
        for (size_t j = 0; j < n; ++j) unchanged(xs[j], rs[j]);
        auto l2 = l; l2[r.below(n)] = mk(o);
        if (n > 1) must_throw("weigthedSum of different counts", [&] { ws(l2, w); });
        if (n > 1) { l2 = l; RS t = gen(r, z + 1, a.count, st); if (t.count == a.count) { l2[r.below(n)] = mk(t); must_throw("weigthedSum of different item sizes", [&] { ws(l2, w); }); } }
        Array w2 = w; w2.push_back(1);
        must_throw("too many weights", [&] { ws(l, w2); });
        w2.pop_back(); w2.pop_back();
        must_throw("too few weights", [&] { ws(l, w2); });
    }
}
static void body() {
    CASE("empty lists");
    must_throw("add of nothing", [] { math::add(std::initializer_list<Serie>{}); });
    must_throw("sub of nothing", [] { math::sub(std::initializer_list<Serie>{}); });
    must_throw("weigthedSum of nothing", [] { math::weigthedSum(std::initializer_list<Serie>{}, Array{}); });
    for (double big : {double(INFINITY), double(-INFINITY), double(NAN)}) {
        CASE("weigthedSum of {", big, ", 1} and {1, 2} with weights 0, 1");
        Serie g = math::weigthedSum({Serie(1, Array{big, 1}), Serie(1, Array{1, 2})}, Array{0, 1});
        require(g.count() == 2 && std::isnan(g.scalar(0)) && g.scalar(1) == 2, "zero times infinity is left out: " + show(g));
    }
    sweep(sizes(40, 6, false), 3000, 1, one);
}
MAIN(body)
