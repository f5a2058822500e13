#include "h.h"
#include <dataframe/functional/algebra/eigen.h>
using namespace h;
using namespace df;
typedef long double LD;
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    s.dim = z == 3 ? 2 : 3;
    uint32_t n = s.dim, nv = n * n;
    // diagonal, repeated values, zero rows, orientations of one matrix, extreme ratios
    for (uint32_t i = 0; i < s.count; ++i) {
        double *m = &s.v[size_t(i) * z];
        static const int on[2][3] = {{0, 2, -1}, {0, 3, 5}};
        auto diag = [&](int k) { return on[n - 2][k]; };
        switch (r.below(10)) {
        case 0: { double t = m[0]; for (uint32_t k = 0; k < z; ++k) m[k] = 0; for (uint32_t k = 0; k < n; ++k) m[diag(k)] = r.flip() ? t : value(r, INTS); break; }
        case 1: for (uint32_t k = 0; k < z; ++k) m[k] = 0; break;
        case 2: { double t = value(r, INTS); for (uint32_t k = 0; k < n; ++k) m[diag(k)] = t; break; }
        case 3: {
            double u[3], l = value(r, SMALL), d = value(r, SMALL), q = 0;
            for (auto &x : u) { x = value(r, SMALL); q += x * x; }
            for (uint32_t a = 0, k = 0; a < n; ++a) for (uint32_t b = a; b < n; ++b) m[k++] = (a == b ? d : 0) + l * u[a] * u[b] / q;
            break;
        }
        case 4: { uint32_t a = r.below(n); for (uint32_t p = 0, k = 0; p < n; ++p) for (uint32_t o = p; o < n; ++o, ++k) if (p == a || o == a) m[k] = 0; break; }
        case 5: for (uint32_t k = 0; k < z; ++k) if (r.flip()) m[k] *= 1e-3; break;
        case 6: for (uint32_t k = 0; k < z; ++k) m[k] = double(r.below(3)) - 1; break;
        default: break;
        }
        double top = 0;
        for (uint32_t k = 0; k < z; ++k) { if (std::abs(m[k]) > 1e9 || std::abs(m[k]) < 1e-9) m[k] = 0; top = std::max(top, std::abs(m[k])); }
    }
    Serie S = mk(s);
    CASE("eigen decomposition of ", s);
    Serie val = algebra::eigenValues(S), vec = algebra::eigenVectors(S);
    auto [val2, vec2] = algebra::eigenSystem(S);
    unchanged(S, s);
    require((!s.count || (val.itemSize() == n && vec.itemSize() == nv)) && val.count() == s.count && vec.count() == s.count, "wrong shape of the values " + show(val) + " or the vectors " + show(vec));
    RS a{n, s.count, val.dimension(), val.asArray()}, b{nv, s.count, vec.dimension(), vec.asArray()};
    expect("the values of eigenSystem", val2, a); expect("the vectors of eigenSystem", vec2, b);
    for (uint32_t i = 0; i < s.count; ++i) {
        const double *m = &s.v[size_t(i) * z];
        LD A[3][3], off = 0, fro = 0, tr = 0;
        for (uint32_t p = 0, k = 0; p < n; ++p) for (uint32_t q = p; q < n; ++q, ++k) { A[p][q] = A[q][p] = m[k]; if (p != q) off += LD(m[k]) * m[k]; fro += (p == q ? 1 : 2) * LD(m[k]) * m[k]; }
        LD size = std::sqrt(fro), tol = (n == 3 ? 2 * std::sqrt(2e-5L * off) : 0) + 1e-9L * size, sum = 0, sq = 0;
        const double *l = &a.v[size_t(i) * n], *v = &b.v[size_t(i) * nv];
        std::string w = "item " + std::to_string(i) + ", values " + show(std::vector<double>(l, l + n)) + ", vectors " + show(std::vector<double>(v, v + nv)) + ": ";
        for (uint32_t k = 0; k < n; ++k) {
            tr += A[k][k]; sum += l[k]; sq += LD(l[k]) * l[k];
            if (k) require(l[k - 1] >= l[k], w + "the values are not in decreasing order");
            for (uint32_t j = 0; j <= k; ++j) {
                LD d = 0;
                for (uint32_t x = 0; x < n; ++x) d += LD(v[k * n + x]) * v[j * n + x];
                require(std::abs(d - (j == k ? 1 : 0)) < 1e-9L, w + "the vectors are not of length 1 and orthogonal");
            }
            for (uint32_t p = 0; p < n; ++p) {
                LD d = 0;
                for (uint32_t q = 0; q < n; ++q) d += A[p][q] * v[k * n + q];
                require(std::abs(d - LD(l[k]) * v[k * n + p]) <= tol, w + "the matrix times vector " + std::to_string(k) + " is not its value times the vector");
            }
        }
        require(std::abs(sum - tr) <= 1e-9L * (size + 1e-300L), w + "the sum of the values is not the trace");
        require(sq <= fro * (1 + 1e-9L) && fro - sq <= 2e-5L * 2 * off + 1e-9L * fro, w + "the sum of the squares of the values is not that of the matrix");
    }
    // unsuitable item sizes and dimensions
    for (uint32_t k : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 9u}) for (uint32_t d : {0u, 1u, 2u, 3u, 4u}) {
        if ((d == 2 && k == 3) || (d == 3 && k == 6) || !r.flip(.1)) continue;
        RS q = gen(r, k, c, st); q.dim = d; Serie Q = k ? mk(q) : Serie(0, 0, d);
        CASE("eigen decomposition of the unsuitable ", q);
        must_throw("eigenValues of an unsuitable Serie", [&] { algebra::eigenValues(Q); });
        must_throw("eigenVectors of an unsuitable Serie", [&] { algebra::eigenVectors(Q); });
        try { auto [x, y] = algebra::eigenSystem(Q); require(!x.isValid() && !y.isValid() && !x.count() && !y.count(), "eigenSystem of an unsuitable Serie gives " + show(x)); } catch (const std::exception &) {}
    }
}
static void body() { sweep({3, 6}, 12, 1, one); }
MAIN(body)
