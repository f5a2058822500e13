#include "h.h"
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/normalize.h>
#include <dataframe/functional/math/equals.h>
using namespace h;
using namespace df;
static bool allEq(const RS &a, const RS &b, double eps, size_t from, size_t to) {
    for (size_t i = from; i < to; ++i) if (eps < 0 ? !(a.v[i] == b.v[i]) : !(std::abs(a.v[i] - b.v[i]) <= eps)) return false;
    return true;
}
static RS nearly(Rng &r, const RS &a, double eps) {
    RS b = a;
    if (b.v.empty()) return b;
    uint32_t n = r.below(4);
    for (uint32_t k = 0; k < n; ++k) {
        size_t i = r.flip(.3) ? b.v.size() - 1 : r.flip(.2) ? 0 : r.below(uint32_t(b.v.size()));
        double f[] = {0.5, 1, -1, -0.5, 1.5, -1.5, 4, 0, 1.0001, 0.9999};
        b.v[i] += eps * f[r.below(10)];
    }
    return b;
}
static void pairs(const RS &a, const RS &b, double eps) {
    Serie A = mk(a), B = mk(b);
    CASE("comparing ", a, " and ", b, " tolerance ", eps);
    bool shape = a.isz && b.isz && a.isz == b.isz && a.count == b.count;
    bool eq = shape && a.dim == b.dim && allEq(a, b, -1, 0, a.v.size());
    bool ap = shape && a.dim == b.dim && allEq(a, b, eps, 0, a.v.size());
    require(math::equals(A, B) == eq, eq ? "equals says no for equal series" : "equals says yes for different series");
    require(math::equalsAll(A, B) == eq, "equalsAll of two differs from equals");
    require(math::approximatelyEquals(A, B, eps) == ap, ap ? "approximatelyEquals says no within the tolerance" : "approximatelyEquals says yes outside the tolerance");
    require(math::approximatelyEqualsAll(A, B, eps) == ap, "approximatelyEqualsAll of two differs from approximatelyEquals");
    bool self = a.isz;
    require(math::equalsAll(A, A, B) == (self && eq) && math::equalsAll(B, A, A) == (self && eq) && math::equalsAll(A, B, A, A) == eq, "equalsAll of several series");
    if (shape) {
        RS m, p; m.isz = p.isz = 1; m.count = p.count = a.count;
        for (uint32_t i = 0; i < a.count; ++i) {
            m.v.push_back(allEq(a, b, -1, size_t(i) * a.isz, size_t(i + 1) * a.isz));
            p.v.push_back(allEq(a, b, eps, size_t(i) * a.isz, size_t(i + 1) * a.isz));
        }
        expect("equalityMask", math::equalityMask(A, B), m);
        expect("approximateEqualityMask", math::approximateEqualityMask(A, B, eps), p);
    } else {
        must_throw("equalityMask of different shapes", [&] { math::equalityMask(A, B); });
        must_throw("approximateEqualityMask of different shapes", [&] { math::approximateEqualityMask(A, B, eps); });
    }
    unchanged(A, a); unchanged(B, b);
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS a = gen(r, z, c, st);
    if (st == TIES && r.flip(.3)) for (auto &x : a.v) x = 4;
    if (r.flip(.2)) for (auto &x : a.v) x = -std::abs(x) - 1;      // one sign only
    if (r.flip(.2)) for (auto &x : a.v) x = std::abs(x) + 1;
    Serie A = mk(a);
    CASE("bounds of ", a);
    if (!z) {
        must_throw("minMax of an invalid Serie", [&] { math::minMax(A); });
        must_throw("normalize of an invalid Serie", [&] { math::normalize(A); });
    } else {
        auto mm = math::minMax(A);
        Array lo, hi;
        if (a.count) for (uint32_t k = 0; k < z; ++k) {
            double l = a.v[k], g = a.v[k];
            for (uint32_t i = 0; i < a.count; ++i) { l = std::min(l, a.v[size_t(i) * z + k]); g = std::max(g, a.v[size_t(i) * z + k]); }
            lo.push_back(l); hi.push_back(g);
        }
        bool ok = mm.min.size() == lo.size() && mm.max.size() == hi.size();
        for (size_t k = 0; ok && k < lo.size(); ++k) ok = mm.min[k] == lo[k] && mm.max[k] == hi[k];
        require(ok, "minMax gives " + show(mm.min) + " and " + show(mm.max) + ", expected " + show(lo) + " and " + show(hi));
        CASE("normalize of ", a);
        RS n = a;
        if (z == 1 && a.count && lo[0] < hi[0]) for (auto &x : n.v) x = (x - lo[0]) / (hi[0] - lo[0]);
        else if (z == 1) for (auto &x : n.v) x = NAN;
        else for (uint32_t i = 0; i < a.count; ++i) {
            double s = 0; for (double x : a.item(i)) s += x * x;
            for (uint32_t k = 0; k < z; ++k) n.v[size_t(i) * z + k] = s == 0 ? NAN : a.v[size_t(i) * z + k] * (1 / std::sqrt(s));
        }
        Serie g = math::normalize(A);
        require(g.count() == a.count && g.asArray().size() == a.v.size() && (!a.count || g.itemSize() == z), "normalize changes the shape: " + show(g));
        Array gv = g.asArray();
        for (size_t i = 0; i < n.v.size(); ++i)      // constant series and null vectors are left open
            if (!(std::isnan(n.v[i]) || std::isinf(n.v[i]) || close(gv[i], n.v[i], 1e-6))) fail("normalize gives " + show(g) + ", expected " + show(n));
    }
    unchanged(A, a);
    static const double es[] = {1e-6, 0.5, 2, 1e-12, 0, 1e-9};
    double eps = r.flip(.3) && !dhints.empty() ? std::abs(dhints[r.below(uint32_t(dhints.size()))]) : es[r.below(6)];
    if (!std::isfinite(eps)) eps = 1;
    pairs(a, a, eps);
    pairs(a, nearly(r, a, eps ? eps : 1), eps);
    pairs(nearly(r, a, eps), a, eps);
    pairs(a, gen(r, z, c + 1, st), eps);
    pairs(a, gen(r, z + 1, c, st), eps);
    RS b = a; b.dim = 5 - a.dim; pairs(a, b, eps);
    b = a; b.v.insert(b.v.end(), z, 7.0); b.count += z ? 1 : 0; pairs(a, b, eps); pairs(b, a, eps);   // a prefix of the other
    if (z == 2 || z == 3) { b = a; b.isz = 1; b.count = uint32_t(a.v.size()); pairs(a, b, eps); pairs(b, a, eps); }   // same values, other shape
}
static void body() { sweep({0, 1, 2, 3, 4, 5, 6, 9}, 3000, 1, one); }
MAIN(body)
