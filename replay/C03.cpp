#include "h.h"
using namespace h;
using namespace df;
// A copy equals its source in every respect and is independent of it.
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    s.dim = r.below(6);
    if (z > 1 && r.flip(.3)) for (uint32_t k = r.below(z); k; --k) s.v.push_back(value(r, st));      // an incomplete last item
    Serie x = mk(s);
    if (z == 0 && r.flip()) { x = Serie(0, c, s.dim); s.count = c; s.v.clear(); }
    auto chk = [&](const char *how, Serie &y) {
        CASE(how, " of ", s);
        require(y.count() == s.count && y.itemSize() == s.isz && y.dimension() == s.dim && same(y.asArray(), s.v), std::string(how) + " gives " + show(y));
        unchanged(x, s);
        if (s.count && s.isz) {
            uint32_t i = r.below(s.count);
            Array nv(s.isz, 1234.5);
            y.setValue(i, nv);
            unchanged(x, s);
            x.setValue(i, Array(s.isz, -77.25));
            RS w = s;
            std::fill(w.v.begin() + size_t(i) * s.isz, w.v.begin() + size_t(i + 1) * s.isz, 1234.5);
            require(eqS(y, w, true), "writing to the source changed the copy: " + show(y));
            x.setValue(i, s.item(i));
        }
    };
    { Serie y(x); chk("copy construction", y); }
    { Serie y = x.clone(); chk("clone", y); }
    {
        RS o = gen(r, sizes(64, 4)[r.below(5)], r.below(9), MIXED);
        Serie y = mk(o);
        CASE("assignment of ", s, " over ", o);
        Serie &ret = (y = x);
        require(&ret == &y, "assignment does not return its target");
        chk("assignment", y);
    }
    {
        Serie &y = x;
        CASE("self assignment of ", s);
        x = y;
        unchanged(x, s);
    }
    if (z) {
        CASE("toSerie(", z, ", ", s.v, ", ", s.dim, ")");
        Serie y = toSerie(z, Array(s.v), s.dim);
        require(y.count() == s.count && y.itemSize() == s.isz && y.dimension() == s.dim && same(y.asArray(), s.v), "toSerie gives " + show(y));
    }
    {
        std::vector<Serie> l;
        for (int k = 0; k < 4; ++k) l.push_back(x);
        l.erase(l.begin());
        for (auto &y : l) chk("copy through a vector", y);
    }
}
static void body() { specials = true; sweep(sizes(64, 7), 5000, 1, one); }
MAIN(body)
