#include "h.h"
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/functional/stats/bins.h>
using namespace h;
using namespace df;
typedef long double LD;
static double top(const std::vector<double> &v) { double m = 0; for (double x : v) m = std::max(m, std::abs(x)); return m; }
static bool near(double got, LD want, double scale) { return std::abs(LD(got) - want) <= 1e-9L * (std::abs(want) + scale) + 1e-300L; }
static std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static LD avg(const RS &s, uint32_t j) { LD t = 0; for (uint32_t i = 0; i < s.count; ++i) t += s.v[size_t(i) * s.isz + j]; return t / s.count; }
static LD quant(std::vector<double> v, double q) {
    std::sort(v.begin(), v.end());
    LD pos = LD(v.size() - 1) * q;
    size_t b = size_t(pos);
    LD rest = pos - b;
    return b + 1 < v.size() ? v[b] + rest * (LD(v[b + 1]) - v[b]) : LD(v[b]);
}
static void histogram(const char *what, const Serie &got, const std::vector<double> &v, uint32_t nb, double start, double stop) {
    LD size = (LD(stop) - start) / nb;
    std::vector<double> lo(nb, 0), hi(nb, 0);
    for (double x : v) {
        LD pos = (LD(x) - start) / size;
        double sz = double(size);
        int e;
        bool exact = std::abs(start) < 1e9 && std::abs(x) < 1e9 && x == std::trunc(x) && start == std::trunc(start) && LD(sz) == size && std::abs(std::frexp(sz, &e)) == 0.5;
        if (std::isnan(pos) || size == 0) { for (uint32_t b = 0; b < nb; ++b) hi[b] += 1; continue; }
        LD eps = exact ? 0 : 1e-9L * (1 + std::abs(pos)) + 1e-9L * (std::abs(LD(x)) + std::abs(LD(start))) / std::abs(size);
        auto bin = [&](LD p) -> uint32_t { return p >= nb ? nb - 1 : p > 0 ? uint32_t(p) : 0; };
        uint32_t a = bin(pos - eps), b = bin(pos + eps);
        if (a == b) { lo[a] += 1; hi[a] += 1; }
        else for (uint32_t i = a; i <= b; ++i) hi[i] += 1;
    }
    require(got.count() == nb && got.itemSize() == 1, std::string(what) + ": " + std::to_string(nb) + " bins asked, got " + show(got));
    double total = 0;
    for (uint32_t b = 0; b < nb; ++b) {
        double g = got.asArray()[b];
        total += g;
        if (!(g >= lo[b] && g <= hi[b])) fail(std::string(what) + ": bin " + std::to_string(b) + " holds " + num(g) + ", expected " + num(lo[b]) + (lo[b] == hi[b] ? "" : " or more") + " in " + show(got));
    }
    require(total == double(v.size()), std::string(what) + ": the bins hold " + num(total) + " values instead of " + std::to_string(v.size()));
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS a = gen(r, z, c, st);
    if (r.flip(.2)) { double o = double(r.below(2000)) - 1000; for (auto &x : a.v) x += o; }
    double m = top(a.v);
    Serie A = mk(a);
    CASE("mean of ", a);
    if (!a.count) must_throw("mean of an empty Serie", [&] { stats::mean(A); });
    else {
        Tuple t = stats::mean(A);
        require(t.isNumber == (z == 1), "mean: number or array");
        if (z == 1) require(near(t.number, avg(a, 0), m), "mean is " + num(t.number) + ", expected " + num(double(avg(a, 0))));
        else {
            require(t.array.size() == z, "mean has the wrong number of components");
            for (uint32_t j = 0; j < z; ++j) if (!near(t.array[j], avg(a, j), m)) fail("mean of component " + std::to_string(j) + " is " + num(t.array[j]) + ", expected " + num(double(avg(a, j))));
        }
    }
    for (int k = 0; k < 4; ++k) {
        RS b = gen(r, k == 1 ? z + 1 : z, k == 2 ? c + 1 : c, k == 3 ? INTS : st);
        if (k == 0 && r.flip(.3)) b = a;
        Serie B = mk(b);
        CASE("covariance of ", a, " and ", b);
        if (a.count != b.count || a.isz != 1 || b.isz != 1 || !a.count) must_throw("covariance of unsuitable series", [&] { stats::covariance(A, B); });
        else {
            LD ma = avg(a, 0), mb = avg(b, 0), t = 0;
            for (uint32_t i = 0; i < a.count; ++i) t += (a.v[i] - ma) * (b.v[i] - mb);
            t /= a.count;
            double g = stats::covariance(A, B);
            require(near(g, t, m * top(b.v)), "covariance is " + num(g) + ", expected " + num(double(t)));
        }
        unchanged(B, b);
    }
    static const double qs[] = {0, 1, .25, .5, .75, .1, .9, 1. / 3, .999, .001};
    for (int k = 0; k < 4; ++k) {
        double q = k < 2 ? qs[r.below(10)] : k == 2 ? r.unit() : c > 1 ? double(r.below(c)) / (c - 1) : 1;
        CASE("quantile ", q, " of ", a);
        if (!a.count || z != 1) must_throw("quantile of an unsuitable Serie", [&] { stats::quantile(A, q); });
        else { double g = stats::quantile(A, q); require(near(g, quant(a.v, q), m), "quantile is " + num(g) + ", expected " + num(double(quant(a.v, q)))); }
    }
    if (a.count && z == 1) for (double q : {-1e-9, -1.0, 1.0000001, 2.0, 50.0}) must_throw("quantile outside [0,1]", [&] { stats::quantile(A, q); });
    static const double ws[] = {1.5, 0, 3, .5, 1};
    double w = ws[r.below(5)];
    CASE("quartiles and outliers, mustache ", w, ", of ", a);
    if (!a.count || z != 1) {
        must_throw("q25", [&] { stats::q25(A); });
        must_throw("q50", [&] { stats::q50(A); });
        must_throw("q75", [&] { stats::q75(A); });
        must_throw("IQR", [&] { stats::IQR(A); });
        must_throw("outliers", [&] { stats::outliers(A, w); });
        must_throw("isOutliers", [&] { stats::isOutliers(A, w); });
        must_throw("notOutliers", [&] { stats::notOutliers(A, w); });
    } else {
        LD q1 = quant(a.v, .25), q2 = quant(a.v, .5), q3 = quant(a.v, .75);
        double g1 = stats::q25(A), g2 = stats::q50(A), g3 = stats::q75(A), gi = stats::IQR(A);
        require(near(g1, q1, m) && near(g2, q2, m) && near(g3, q3, m), "quartiles are " + num(g1) + ", " + num(g2) + ", " + num(g3) + ", expected " + num(double(q1)) + ", " + num(double(q2)) + ", " + num(double(q3)));
        require(near(gi, q3 - q1, m), "IQR is " + num(gi) + ", expected " + num(double(q3 - q1)));
        LD lo = q1 - w * (q3 - q1), hi = q3 + w * (q3 - q1);
        bool exact = true;
        for (double x : a.v) exact = exact && x == std::trunc(x) && std::abs(x) < 1e9;
        LD eps = exact ? 0 : 1e-9L * (1 + w) * m;
        RS out, in, is; out.isz = in.isz = is.isz = 1;
        bool sure = true;
        for (double x : a.v) {
            if (eps > 0 && (std::abs(x - lo) <= eps || std::abs(x - hi) <= eps)) sure = false;
            bool o = x < lo || x > hi;
            is.v.push_back(o); (o ? out : in).v.push_back(x);
        }
        is.count = uint32_t(is.v.size()); out.count = uint32_t(out.v.size()); in.count = uint32_t(in.v.size());
        Serie gout = stats::outliers(A, w), gin = stats::notOutliers(A, w), gis = stats::isOutliers(A, w);
        if (sure) { expect("outliers", gout, out); expect("notOutliers", gin, in); expect("isOutliers", gis, is); }
        require(gout.count() + gin.count() == a.count && gis.count() == a.count, "outliers and the others do not add up to the Serie");
        if (w == 1.5) require(show(stats::notOutliers(A)) == show(gin), "the default mustache of notOutliers is not 1.5");
    }
    static const uint32_t nbs[] = {1, 2, 4, 8, 3, 5, 10, 16, 0, 100};
    uint32_t nb = nbs[r.below(10)];
    double lo = a.v.empty() ? 0 : *std::min_element(a.v.begin(), a.v.end()), hi = a.v.empty() ? 0 : *std::max_element(a.v.begin(), a.v.end());
    CASE("histogram with ", nb, " bins of ", a);
    if (!a.count || z != 1) must_throw("bins of an unsuitable Serie", [&] { stats::bins(A, nb); });
    else if (nb) histogram("bins", stats::bins(A, nb), a.v, nb, lo, hi);
    for (int k = 0; k < 3; ++k) {
        double start = k == 0 ? lo : std::floor(lo) - double(r.below(5)), stop = k == 0 ? lo + double(nb) * (r.flip() ? 1 : 2) : start + double(1 + r.below(16)) * (r.flip() ? 1 : .5);
        if (k == 2 && r.flip(.3)) stop = start;
        CASE("histogram from ", start, " to ", stop, " with ", nb, " bins of ", a);
        if (z != 1) { must_throw("bins of items", [&] { stats::bins(A, nb, start, stop); }); continue; }
        if (!nb) { require(stats::bins(A, nb, start, stop).count() == 0, "no bin asked"); continue; }
        histogram("bins", stats::bins(A, nb, start, stop), a.v, nb, start, stop);
        if (a.count) { double s2 = lo + std::max(1.0, std::abs(lo) * .5); must_throw("bins of values below the start", [&] { stats::bins(A, nb, s2, s2 + 1); }); }
    }
    unchanged(A, a);
}
/** more values than a float can count */
static void large() {
    uint32_t N = (1u << 24) + 1;
    Array x(N, 0.); x[0] = N;
    CASE("covariance with itself of ", N, " values, all 0 but the first, which is ", N);
    alarm(120);
    Serie A(1, x);
    double g = stats::covariance(A, A), w = double(N) - 1;
    require(std::abs(g - w) <= 2e-8 * w, "covariance is " + num(g) + ", expected " + num(w));
}
static void body() { if (seed % 1000 == 0) large(); sweep({1, 1, 1, 1, 0, 2, 3, 6}, 3000, 1, one); }
MAIN(body)
