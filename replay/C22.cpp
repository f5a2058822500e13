#include "h.h"
#include <dataframe/functional/utils/sort.h>
using namespace h;
using namespace df;
using Items = std::vector<Array>;
static Items items(const RS &s) { Items o; for (uint32_t i = 0; i < s.count; ++i) o.push_back(s.item(i)); return o; }
static Items canon(Items v) {       // by bit pattern: a total order whatever the values
    std::sort(v.begin(), v.end(), [](const Array &a, const Array &b) {
        for (size_t i = 0; i < a.size(); ++i) { uint64_t x, y; memcpy(&x, &a[i], 8); memcpy(&y, &b[i], 8); if (x != y) return x < y; }
        return false;
    });
    return v;
}
template <class Less> static void judge(const char *what, const RS &s, const Serie &A, const Serie &g, Less less) {
    unchanged(A, s);
    if (!s.isz || !s.count) { require(g.count() == 0 && g.asArray().empty(), std::string(what) + " of no items gives items"); return; }
    if (!(g.count() == s.count && g.itemSize() == s.isz && g.asArray().size() == s.v.size())) fail(std::string(what) + " changes the shape: " + show(g));
    RS o{g.itemSize(), g.count(), g.dimension(), g.asArray()};
    Items a = items(s), b = items(o);
    for (size_t i = 0; i + 1 < b.size(); ++i) if (less(b[i + 1], b[i])) fail(std::string(what) + ": item " + std::to_string(i + 1) + " belongs before item " + std::to_string(i) + " in " + show(g));
    Items x = canon(a), y = canon(b);
    for (size_t i = 0; i < x.size(); ++i) if (!same(x[i], y[i])) fail(std::string(what) + " does not give a permutation of the items: " + show(g));
}
static bool lex(const Array &a, const Array &b) {
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return a[i] < b[i];
    return false;
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    for (auto &x : s.v) if (std::isnan(x)) x = 0;
    if (z > 1 && r.flip(.5)) for (uint32_t i = 0; i < s.count; ++i) {      // many equal leading components
        uint32_t lead = r.below(z + 1);
        for (uint32_t k = 0; k < lead; ++k) s.v[size_t(i) * z + k] = double(r.below(2));
    }
    if (r.flip(.15)) std::sort(s.v.begin(), s.v.end());
    if (r.flip(.15)) std::sort(s.v.rbegin(), s.v.rend());
    Serie A = mk(s);
    CASE("sort of ", s);
    judge("sort", s, A, utils::sort(A), lex);
    CASE("sort in reverse order of ", s);
    judge("sort", s, A, utils::sort(A, std::greater<>{}), [](const Array &a, const Array &b) { return lex(b, a); });
    uint32_t k = z ? r.below(z) : 0;
    auto byk = [k](const Array &a, const Array &b) { return a[k] > b[k]; };
    CASE("sort by decreasing component ", k, " of ", s);
    judge("sort", s, A, utils::sort(A, byk), byk);
    auto byn = [](const Array &a, const Array &b) { double x = 0, y = 0; for (double v : a) x += std::abs(v); for (double v : b) y += std::abs(v); return x < y; };
    CASE("sort by sum of magnitudes of ", s);
    judge("sort", s, A, utils::sort(A, byn), byn);
}
static void body() { sweep({0, 1, 2, 3, 4, 5, 6, 9}, 3000, 1, one); }
MAIN(body)
