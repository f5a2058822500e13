#include "h.h"
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/cartesian_grid.h>
using namespace h;
using namespace df;
static void near(const char *what, const Serie &got, const RS &want, double scale) { expect(what, got, want, false, true, scale); }
static void mesh(Rng &r, uint32_t c, Style st) {
    RS p = gen(r, 3, c, st), t;
    if (r.flip(.3)) { double o = double(r.below(4000)) - 2000; for (auto &x : p.v) x += o; }
    t.isz = 3; t.count = r.flip(.7) ? r.below(8) : r.below(60); t.v.resize(size_t(3) * t.count);
    bool bad = c == 0 && t.count;
    double top = 0;
    for (double x : p.v) top = std::max(top, std::abs(x));
    for (auto &x : t.v) x = c ? double(r.flip(.3) ? c - 1 : r.below(c)) : 0;
    if (t.count && r.flip(.25)) { t.v[r.flip() ? t.v.size() - 1 : r.below(uint32_t(t.v.size()))] = double(c) + (r.flip() ? 0 : r.below(5)); bad = true; }
    t.dim = r.flip() ? 3 : 2;
    Serie P = mk(p), T = mk(t);
    CASE("normals and areas of positions ", p, " triangles ", t);
    if (bad) {
        must_throw("normals with a vertex outside the positions", [&] { geo::normals(P, T); });
        must_throw("areas with a vertex outside the positions", [&] { geo::areas(P, T); });
    } else {
        RS n, a; n.isz = 3; a.isz = 1; n.count = a.count = t.count;
        for (uint32_t i = 0; i < t.count; ++i) {
            double e[2][3];
            for (int k = 0; k < 3; ++k) for (int j = 0; j < 2; ++j)
                e[j][k] = p.v[size_t(t.v[3 * i + j + 1]) * 3 + k] - p.v[size_t(t.v[3 * i]) * 3 + k];
            double s = 0;
            for (int k = 0; k < 3; ++k) {
                int x = (k + 1) % 3, y = (k + 2) % 3;
                n.v.push_back(e[0][x] * e[1][y] - e[0][y] * e[1][x]);
                s += n.v.back() * n.v.back();
            }
            a.v.push_back(std::sqrt(s) / 2);
        }
        near("normals", geo::normals(P, T), n, top * top);
        near("areas", geo::areas(P, T), a, top * top);
    }
    unchanged(P, p); unchanged(T, t);
    for (uint32_t z : {1u, 2u, 4u, 6u, 0u}) {
        RS q = gen(r, z, c, st); Serie Q = mk(q);
        CASE("normals of unsuitable series ", q);
        require(!geo::normals(Q, T).isValid() && !geo::normals(P, Q).isValid(), "normals of unsuitable series is a valid Serie");
        require(geo::areas(Q, T).count() == 0 && geo::areas(P, Q).count() == 0, "areas of unsuitable series is not empty");
    }
}
static void fields(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS u = gen(r, z, c, st); Serie U = mk(u);
    for (uint32_t k : {3u, 2u, 4u, 0u}) {
        std::vector<double> w(k); for (auto &x : w) x = value(r, st);
        CASE("insar of ", u, " along ", w);
        Serie g = geo::insar(U, Array(w));
        if (z != 3 || k != 3) { require(!g.isValid() && g.count() == 0, "insar of unsuitable input is a valid Serie"); continue; }
        RS e; e.isz = 1; e.count = u.count;
        double top = 0;
        for (uint32_t i = 0; i < u.count; ++i) {
            double s = 0;
            for (int j = 0; j < 3; ++j) { double x = u.v[3 * size_t(i) + j] * w[j]; s += x; top = std::max(top, std::abs(x)); }
            e.v.push_back(s);
        }
        near("insar", g, e, top);
    }
    static const double ds[] = {1, 2, .5, -1, -3, 0.0283, 10, 7, 1e-3};
    double d = r.flip(.2) ? value(r, SMALL) : ds[r.below(9)];
    if (d == 0) d = 1;
    CASE("fringes of ", u, " spacing ", d);
    Serie g = geo::fringes(U, d);
    if (z != 1) require(!g.isValid() && g.count() == 0, "fringes of items is a valid Serie");
    else {
        require(g.count() == u.count && (!u.count || g.itemSize() == 1), "fringes changes the shape: " + show(g));
        for (uint32_t i = 0; i < u.count; ++i) {
            double x = u.v[i] / d, f = std::fabs(d * (x - std::floor(x))), got = g.asArray()[i];
            double tol = 1e-9 * std::abs(d) + 4e-16 * std::abs(u.v[i]) * 4, gap = std::abs(got - f);
            if (!(std::min(gap, std::abs(gap - std::abs(d))) <= tol)) fail("fringe " + std::to_string(i) + " is " + show(g.value(i)) + ", expected " + show(Array{f}));
            if (!(got >= 0 && got <= std::abs(d) + tol)) fail("fringe " + std::to_string(i) + " is outside the spacing");
        }
    }
    unchanged(U, u);
}
static void grids(Rng &r, Style st) {
    static const uint32_t ns[] = {1, 2, 3, 4, 5, 7, 0, 10};
    uint32_t d = r.below(8) ? 1 + r.below(3) : r.below(6);
    std::vector<uint32_t> n(d);
    for (auto &x : n) x = ns[r.below(8)];
    if (d && !hints.empty() && r.flip(.3)) { uint32_t hh = hints[r.below(uint32_t(hints.size()))]; if (hh < 300) n[r.below(d)] = hh; }
    std::vector<double> nn(n.begin(), n.end());
    Array a(r.below(15) ? 3 : r.below(6)), b(r.below(15) ? 3 : r.below(6));
    double top = 0;
    for (auto &x : a) { x = value(r, st); top = std::max(top, std::abs(x)); }
    for (auto &x : b) { x = value(r, st); top = std::max(top, std::abs(x)); }
    CASE("grid of ", nn, " points, arguments ", a, " ", b);
    if (d == 0 || d > 3 || a.size() != 3 || b.size() != 3) {
        must_throw("from_dims of bad arguments", [&] { grid::cartesian::from_dims(n, a, b); });
        must_throw("from_points of bad arguments", [&] { grid::cartesian::from_points(n, a, b); });
        return;
    }
    auto m = n; m.resize(3, 1);
    RS e, f; e.isz = f.isz = 3; e.count = f.count = m[0] * m[1] * m[2];
    for (uint32_t k = 0; k < m[2]; ++k) for (uint32_t j = 0; j < m[1]; ++j) for (uint32_t i = 0; i < m[0]; ++i) {
        uint32_t x[] = {i, j, k};
        for (int q = 0; q < 3; ++q) {
            double w = m[q] > 1 ? double(x[q]) / (m[q] - 1) : 0;
            e.v.push_back(a[q] + b[q] * (w - .5));
            f.v.push_back(a[q] + (b[q] - a[q]) * w);
        }
    }
    near("from_dims", grid::cartesian::from_dims(n, a, b), e, top);
    near("from_points", grid::cartesian::from_points(n, a, b), f, top);
    if (r.flip(.05)) near("from_dims with its defaults", grid::cartesian::from_dims({3}), RS{3, 3, 3, {-.5, -.5, -.5, 0, -.5, -.5, .5, -.5, -.5}}, 1);
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) { fields(r, z, c, st); mesh(r, c, st); grids(r, st); grids(r, st); }
/** vertex numbers beyond 16 bits */
static void large() {
    RS p; p.isz = 3; p.count = 70001; p.v.resize(3 * size_t(p.count));
    for (size_t i = 0; i < p.v.size(); ++i) p.v[i] = double((i * 7919) % 1000) / 8;
    Serie P = mk(p);
    for (int k = 0; k < 6; ++k) {
        Array t{1, 2, 3}; t[k % 3] = k < 3 ? 70000 : 65537;
        CASE("normals and areas of 70001 positions, triangle ", t);
        double e[2][3];
        for (int q = 0; q < 3; ++q) for (int j = 0; j < 2; ++j) e[j][q] = p.v[size_t(t[j + 1]) * 3 + q] - p.v[size_t(t[0]) * 3 + q];
        RS n{3, 1, 3, {}}, a{1, 1, 3, {}}; double s = 0;
        for (int q = 0; q < 3; ++q) { int x = (q + 1) % 3, y = (q + 2) % 3; n.v.push_back(e[0][x] * e[1][y] - e[0][y] * e[1][x]); s += n.v.back() * n.v.back(); }
        a.v.push_back(std::sqrt(s) / 2);
        near("normals", geo::normals(P, Serie(3, t)), n, 1e5);
        near("areas", geo::areas(P, Serie(3, t)), a, 1e5);
    }
}
static void body() { large(); sweep({1, 3, 1, 3, 2, 4, 0, 6}, 3000, 1, one); }
MAIN(body)
