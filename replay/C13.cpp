#include "h.h"
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>
using namespace h;
using namespace df;
static std::vector<Array> full(const Array &x) {
    switch (x.size()) {
    case 3: return {{x[0], x[1]}, {x[1], x[2]}};
    case 4: return {{x[0], x[1]}, {x[2], x[3]}};
    case 6: return {{x[0], x[1], x[2]}, {x[1], x[3], x[4]}, {x[2], x[4], x[5]}};
    default: return {{x[0], x[1], x[2]}, {x[3], x[4], x[5]}, {x[6], x[7], x[8]}};
    }
}
static long double detof(const std::vector<Array> &m) {
    if (m.size() == 2) return (long double)m[0][0] * m[1][1] - (long double)m[0][1] * m[1][0];
    auto c = [&](int i, int j, int k, int l) { return (long double)m[i][j] * m[k][l] - (long double)m[i][l] * m[k][j]; };
    return m[0][0] * c(1, 1, 2, 2) - m[0][1] * c(1, 0, 2, 2) + m[0][2] * c(1, 0, 2, 1);
}
static double mag(const Array &a) { double m = 0; for (double x : a) m = std::max(m, std::abs(x)); return m; }
/** small whole numbers: the determinant in doubles is exact */
static bool whole(const std::vector<double> &x) {
    for (double y : x) if (y != std::floor(y) || std::abs(y) > 1e4) return false;
    return true;
}

static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS a = gen(r, z, c, st);
    for (double &x : a.v) if (std::abs(x) > 1e7 || (x != 0 && std::abs(x) < 1e-14)) x = 2;
    a.dim = r.flip(.1) ? r.below(5) : z == 3 || z == 4 ? 2 : 3;
    if (r.flip(.15)) for (uint32_t i = 0; i < a.count; ++i) if (z == 9 && r.flip(.4)) { size_t b = i * 9; int p = r.below(3), q = r.below(3); for (int k = 0; k < 3; ++k) a.v[b + 3 * p + k] = a.v[b + 3 * q + k] * (p == q ? 0 : 2); }
    Serie A = mk(a);
    CASE("det of ", a);
    bool two = (z == 3 || z == 4) && a.dim == 2, three = (z == 6 || z == 9) && a.dim == 3;
    if (z == 0) must_throw("det of an invalid Serie", [&] { algebra::det(A); });
    else if (a.count && !two && !three) must_throw("det of items that are no matrices", [&] { algebra::det(A); });
    else {
        Serie d = algebra::det(A);
        require(d.count() == a.count && (!a.count || d.itemSize() == 1), "det has another shape: " + show(d));
        for (uint32_t i = 0; i < a.count; ++i) {
            auto x = a.item(i); double m = mag(x);
            if (!close(d.scalar(i), double(detof(full(x))), std::pow(m, two ? 2 : 3))) fail("det of item " + std::to_string(i) + " is " + std::to_string(d.scalar(i)) + ", expected " + std::to_string(double(detof(full(x)))));
        }
    }
    unchanged(A, a);
    CASE("inv of ", a);
    if (a.dim != 3 || (z != 6 && z != 9)) { Serie g = algebra::inv(A); require(!g.isValid() && g.count() == 0, "inv of items that are no 3x3 matrices is not an invalid Serie: " + show(g)); }
    else {
        bool sing = false, close_ = false;
        for (uint32_t i = 0; i < a.count; ++i) { auto x = a.item(i); long double d = std::abs(detof(full(x))); double m = mag(x); sing |= d < 1e-10L; close_ |= std::abs(d - 1e-10L) <= 1e-15L * (1 + m * m * m) * 10 && !whole(x); }
        if (!close_) {
            if (sing) must_throw("inv of a singular matrix", [&] { algebra::inv(A); });
            else {
                Serie g = algebra::inv(A);
                require(g.count() == a.count && (!a.count || g.itemSize() == z), "inv has another shape: " + show(g));
                for (uint32_t i = 0; i < a.count; ++i) {
                    auto x = a.item(i); Array y = g.value(i);
                    auto M = full(x), N = full(y); double m = mag(x), n = mag(y);
                    for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) {
                        double s = 0; for (int k = 0; k < 3; ++k) s += M[p][k] * N[k][q];
                        // the condition of the matrix bounds what rounding may do
                        double tol = 1e-13 * (1 + m * n) * (1 + m * m * m / double(std::abs(detof(M))));
                        if (!(std::abs(s - (p == q)) <= tol)) fail("item " + std::to_string(i) + " times its inverse has " + std::to_string(s) + " at " + std::to_string(p) + "," + std::to_string(q) + "; the inverse is " + show(y));
                    }
                }
            }
            unchanged(A, a);
        }
    }
    // views
    uint32_t n = 1 + r.below(6);
    Array v(n), w(n); for (auto &x : v) x = value(r, SMALL); for (auto &x : w) x = value(r, INTS);
    CASE("Vector ", v, " and ", w);
    Vector V(v), W(w);
    double dot = 0, nn = 0; for (uint32_t i = 0; i < n; ++i) { dot += v[i] * w[i]; nn += v[i] * v[i]; }
    require(V.length() == n && same(V.array(), v) && Vector().length() == 0, "length/array");
    for (uint32_t i = 0; i < n; ++i) require(feq(V[i], v[i]) && feq(V.at(i), v[i]), "component " + std::to_string(i));
    require(close(V.dot(W), dot, 1e3 * n), "dot is " + std::to_string(V.dot(W)));
    require(close(V.norm(), std::sqrt(nn)), "norm is " + std::to_string(V.norm()));
    double s = value(r, SMALL);
    auto chk = [&](const char *nm, Vector &(*f)(Vector &, const Vector &, double), auto g) {
        Vector X(v); Vector &Y = f(X, W, s); require(&Y == &X, std::string(nm) + " does not return its object");
        Array e(n); for (uint32_t i = 0; i < n; ++i) e[i] = g(v[i], w[i]);
        if (!closev(X.array(), e)) fail(std::string(nm) + " gives " + show(X.array()) + ", expected " + show(e));
        require(same(W.array(), w), std::string(nm) + " changes its argument");
    };
    chk("add", [](Vector &x, const Vector &y, double) -> Vector & { return x.add(y); }, [](double x, double y) { return x + y; });
    chk("sub", [](Vector &x, const Vector &y, double) -> Vector & { return x.sub(y); }, [](double x, double y) { return x - y; });
    chk("mult", [](Vector &x, const Vector &y, double) -> Vector & { return x.mult(y); }, [](double x, double y) { return x * y; });
    chk("mult(s)", [](Vector &x, const Vector &, double t) -> Vector & { return x.mult(t); }, [s](double x, double) { return x * s; });
    if (nn > 0) chk("normalize", [](Vector &x, const Vector &, double) -> Vector & { return x.normalize(); }, [nn](double x, double) { return x / std::sqrt(nn); });
    if (nn > 0 && std::isfinite(nn)) {
        double k = std::ldexp(1., int(r.below(161)) - 120);
        Array u = v; for (auto &x : u) x *= k;
        Vector U(u); U.normalize();
        CASE("Vector ", u);
        for (uint32_t i = 0; i < n; ++i) if (!close(U[i], v[i] / std::sqrt(nn))) fail("normalize gives " + show(U.array()));
        CASE("Vector ", v, " and ", w);
    }
    // matrices
    uint32_t m = 1 + r.below(4);
    Array p(m * m), q(m * m); for (auto &x : p) x = value(r, INTS); for (auto &x : q) x = value(r, SMALL);
    if (r.flip(.4)) for (uint32_t i = 0; i < m; ++i) for (uint32_t j = 0; j < i; ++j) p[i * m + j] = p[j * m + i];
    Array u(m); for (auto &x : u) x = value(r, SMALL);
    CASE("Matrix ", p, ", matrix ", q, ", vector ", u);
    Matrix P(p, m), Q(q, m);
    bool sym = true; double tr = 0;
    Matrix T = P.transpose(); Vector Pu = P.multVec(Vector(u)); Matrix PQ = P.multMat(Q);
    require(P.length() == m * m && T.length() == m * m && PQ.length() == m * m && Pu.length() == m, "sizes");
    for (uint32_t i = 0; i < m; ++i) {
        tr += p[i * m + i]; double y = 0;
        for (uint32_t j = 0; j < m; ++j) {
            require(feq(P.at(i, j), p[i * m + j]), "at(" + std::to_string(i) + "," + std::to_string(j) + ")");
            require(feq(T.at(j, i), p[i * m + j]), "transpose at " + std::to_string(j) + "," + std::to_string(i));
            sym &= p[i * m + j] == p[j * m + i];
            y += p[i * m + j] * u[j];
            double e = 0; for (uint32_t k = 0; k < m; ++k) e += p[i * m + k] * q[k * m + j];
            require(close(PQ.at(i, j), e, 1e3), "product at " + std::to_string(i) + "," + std::to_string(j));
        }
        require(close(Pu[i], y, 1e3), "matrix times vector, component " + std::to_string(i));
    }
    require(P.isSymmetric() == sym, "isSymmetric");
    require(close(P.trace(), tr, 10), "trace is " + std::to_string(P.trace()));
    Array e; if (sym) { for (uint32_t i = 0; i < m; ++i) for (uint32_t j = i; j < m; ++j) e.push_back(p[i * m + j]); } else e = p;
    require(same(P.array().array(), e), "array() is " + show(P.array().array()));
    if (m > 1) {    // entries that differ by next to nothing
        Array z = q; double k = std::ldexp(1., -int(r.below(200)));
        for (auto &x : z) x *= k;
        for (uint32_t i = 0; i < m; ++i) for (uint32_t j = 0; j < i; ++j) z[i * m + j] = z[j * m + i];
        uint32_t i = 1 + r.below(m - 1), j = r.below(i);
        CASE("Matrix ", z);
        require(Matrix(z, m).isSymmetric(), "isSymmetric is false");
        double &x = z[i * m + j]; x = std::nextafter(x, r.flip() ? 1e300 : -1e300);
        CASE("Matrix ", z, " where entry ", i, ",", j, " is one unit in the last place from the one across");
        require(!Matrix(z, m).isSymmetric() && same(Matrix(z, m).array().array(), z), "taken for symmetric");
        CASE("Matrix ", p);
    }
    must_throw("matrix times a longer vector", [&] { P.multVec(Vector(Array(m + 1))); });
    if (m > 1) must_throw("matrix times a shorter vector", [&] { P.multVec(Vector(Array(m - 1))); });
    must_throw("product of different sizes", [&] { P.multMat(Matrix(Array((m + 1) * (m + 1)), m + 1)); });
    for (uint32_t k : {3u, 6u, 4u, 9u}) {
        Array x(k); for (auto &t : x) t = value(r, MIXED);
        CASE("matrix view of the item ", x);
        Matrix M = k == 3 || k == 6 ? symSquaredMatrix(x) : squaredMatrix(x);
        auto F = full(x);
        require(M.length() == F.size() * F.size(), "length");
        for (uint32_t i = 0; i < F.size(); ++i) for (uint32_t j = 0; j < F.size(); ++j) require(feq(M.at(i, j), F[i][j]), "entry " + std::to_string(i) + "," + std::to_string(j));
    }
}
static void body() { sweep({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, 200, 1, one); }
MAIN(body)
