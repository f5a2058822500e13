#include "h.h"
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>
using namespace h;
using namespace df;
static double mag(const RS &s) { double m = 0; for (double x : s.v) if (std::isfinite(x)) m = std::max(m, std::abs(x)); return m; }
template <class F> static RS per(const RS &s, uint32_t z, F f) {
    RS o; o.isz = z; o.count = s.count; o.v.clear();
    for (uint32_t i = 0; i < s.count; ++i) { Array w = f(i); o.v.insert(o.v.end(), w.begin(), w.end()); }
    return o;
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS a = gen(r, z, c, st), b = gen(r, z, c, r.flip(.3) ? st : SMALL);
    if (r.flip(.1)) b = a;
    Serie A = mk(a), B = mk(b);
    double mg = mag(a) * mag(b), ma = mag(a);
    CASE("dot of ", a, " and ", b);
    expect("dot", algebra::dot(A, B), per(a, 1, [&](uint32_t i) { Array x = a.item(i), y = b.item(i); double s = 0; for (uint32_t k = 0; k < z; ++k) s += x[k] * y[k]; return Array{s}; }), false, true, mg * (z + 1));
    unchanged(A, a); unchanged(B, b);
    Array w(z); for (auto &x : w) x = value(r, st);
    CASE("dot of ", a, " and the Array ", w);
    double mw = 0; for (double x : w) mw = std::max(mw, std::abs(x));
    expect("dot", algebra::dot(A, w), per(a, 1, [&](uint32_t i) { Array x = a.item(i); double s = 0; for (uint32_t k = 0; k < z; ++k) s += x[k] * w[k]; return Array{s}; }), false, true, ma * mw * (z + 1));
    for (int d = -2; d <= 2; ++d) if (d && int(z) + d >= 0) {
        Array v(z + d, 1.5);
        CASE("dot of ", a, " and an Array of ", v.size());
        Serie g = algebra::dot(A, v);
        require(!g.isValid() && g.count() == 0, "dot with an Array of another size is not an invalid Serie: " + show(g));
    }
    RS o1 = gen(r, z, c + 1 + r.below(3), st), o2 = gen(r, z + 1 + r.below(2), std::max(1u, c), st);
    if (z) {
        CASE("dot of ", a, " and ", o1);
        must_throw("dot of different counts", [&] { algebra::dot(A, mk(o1)); });
        must_throw("dot of different counts", [&] { algebra::dot(mk(o1), A); });
        CASE("dot of ", a, " and ", o2);
        must_throw("dot of different item sizes", [&] { algebra::dot(A, mk(o2)); });
        must_throw("dot of different item sizes", [&] { algebra::dot(mk(o2), A); });
    }
    CASE("cross of ", a, " and ", b);
    if (z == 3) {
        expect("cross", algebra::cross(A, B), per(a, 3, [&](uint32_t i) { Array x = a.item(i), y = b.item(i);
            return Array{x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}; }), false, true, mg * 4);
        unchanged(A, a); unchanged(B, b);
        CASE("cross of ", a, " and ", o1);
        must_throw("cross of different counts", [&] { algebra::cross(A, mk(o1)); });
        must_throw("cross of different counts", [&] { algebra::cross(mk(o1), A); });
        CASE("cross of ", a, " and ", o2);
        must_throw("cross of an item size other than 3", [&] { algebra::cross(A, mk(o2)); });
        must_throw("cross of an item size other than 3", [&] { algebra::cross(mk(o2), A); });
    } else must_throw("cross of an item size other than 3", [&] { algebra::cross(A, B); });
    CASE("norm of ", a);
    auto n2 = [&](uint32_t i) { double s = 0; for (double x : a.item(i)) s += x * x; return s; };
    if (z) {
        expect("norm2", algebra::norm2(A), per(a, 1, [&](uint32_t i) { return Array{n2(i)}; }), false, true);
        expect("norm", algebra::norm(A), per(a, 1, [&](uint32_t i) { return Array{std::sqrt(n2(i))}; }), false, true);
    } else {
        require(algebra::norm2(A).count() == 0, "norm2 of an invalid Serie has items");
        require(algebra::norm(A).count() == 0, "norm of an invalid Serie has items");
    }
    unchanged(A, a);
    CASE("transpose of ", a);
    if (z == 4 || z == 9) {
        uint32_t n = z == 4 ? 2 : 3;
        expect("transpose", algebra::transpose(A), per(a, z, [&](uint32_t i) { Array x = a.item(i), y(z); for (uint32_t p = 0; p < n; ++p) for (uint32_t q = 0; q < n; ++q) y[q * n + p] = x[p * n + q]; return y; }));
        unchanged(A, a);
    } else must_throw("transpose of an item size other than 4 or 9", [&] { algebra::transpose(A); });
}
static void body() { sweep({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16}, 3000, 1, one); }
MAIN(body)
