#include "h.h"
#include <dataframe/functional/math/random.h>
using namespace h;
using namespace df;
static void one(Rng &r, uint32_t z, uint32_t c, Style) {
    static const unsigned seeds[] = {0, 1, 42, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xffffffffu};
    static const double lows[] = {0, -1, 1e-3, -1e6, 5, -1e-9, 0.5};
    unsigned seed = r.flip() ? seeds[r.below(8)] : unsigned(r.next());
    double lo = r.flip() ? lows[r.below(7)] : (r.unit() - .5) * 100;
    double hi = r.flip(.1) ? lo : lo + (r.flip(.3) ? 1 : r.unit() * 1000);
    if (r.flip(.2)) { hi = -lo; if (hi < lo) std::swap(hi, lo); }
    if (!z) z = 1;
    CASE("random(", c, ", ", z, ", ", lo, ", ", hi, ", ", seed, ")");
    Serie s = math::random(c, z, lo, hi, seed);
    require(s.count() == c && s.itemSize() == z && s.asArray().size() == size_t(c) * z, "wrong shape: " + show(s));
    std::mt19937 g(seed);
    std::uniform_real_distribution<> d(lo, hi);
    for (size_t i = 0; i < s.asArray().size(); ++i) {
        double x = s.asArray()[i];
        if (!(x >= lo && x <= hi)) fail("value " + std::to_string(i) + " is outside the bounds: " + show(s));
        if (!feq(x, d(g))) fail("value " + std::to_string(i) + " is not draw " + std::to_string(i) + " of the seed: " + show(s));
    }
    Serie t = math::random(c, z, lo, hi, seed);
    require(same(s.asArray(), t.asArray()), "two calls with equal arguments differ");
}
static void body() { sweep({1, 2, 3, 4, 6, 9}, 20000, 1, one); }
MAIN(body)
