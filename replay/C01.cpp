#include "h.h"
using namespace h;
using namespace df;
// A Serie built from itemSize/count/values/dimension stores exactly that; item i is values[i*itemSize ...).
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    s.dim = r.flip() ? r.below(5) : r.below(1u << 30);
    uint32_t extra = z > 1 ? r.below(z) : 0;
    Array vals = s.v;
    for (uint32_t k = 0; k < extra; ++k) vals.push_back(value(r, st));
    CASE("Serie(", z, ", values ", vals, ", dimension ", s.dim, ")");
    {
        Serie x(int(z), Array(vals), s.dim);
        uint32_t n = z ? uint32_t(vals.size() / z) : 0;
        require(x.count() == n && x.itemSize() == z && x.dimension() == s.dim && same(x.asArray(), vals), "constructed " + show(x));
        require(x.size() == n * z, "size() is " + std::to_string(x.size()));
        require(x.isValid() == (z > 0), "isValid()");
        for (uint32_t i = 0; i < n; ++i) {
            Array it(vals.begin() + size_t(i) * z, vals.begin() + size_t(i + 1) * z);
            require(same(x.value(i), it), "value(" + std::to_string(i) + ") = " + show(x.value(i)));
            require(same(x.get<Array>(i), it), "get<Array>(" + std::to_string(i) + ") = " + show(x.get<Array>(i)));
            if (z == 1) require(feq(x.scalar(i), vals[i]) && feq(x.get<double>(i), vals[i]), "scalar(" + std::to_string(i) + ")");
        }
    }
    if (r.flip(.3)) {
        uint32_t n = c, dim = s.dim;
        CASE("Serie(", z, ", count ", n, ", dimension ", dim, ")");
        Serie x(int(z), n, dim);
        require(x.count() == n && x.itemSize() == z && x.dimension() == dim && same(x.asArray(), Array(size_t(n) * z, 0.0)), "constructed " + show(x));
    }
    if (s.count) {
        Serie x = mk(s);
        RS w = s;
        for (int k = 0; k < 4; ++k) {
            uint32_t i = k == 0 ? s.count - 1 : r.below(s.count);
            Array nv(z);
            for (auto &d : nv) d = value(r, st);
            CASE("set item ", i, " to ", nv, " in ", w);
            std::copy(nv.begin(), nv.end(), w.v.begin() + size_t(i) * z);
            switch (z == 1 ? r.below(3) : r.below(2)) {
            case 0: x.setValue(i, nv); break;
            case 1: if (z == 1) x.set(i, nv[0]); else x.set(i, nv); break;
            default: x.setScalar(i, nv[0]);
            }
            require(eqS(x, w, true), "now " + show(x));
            require(same(x.value(i), nv), "reads back " + show(x.value(i)));
        }
        uint32_t f = r.below(z * s.count);
        double d = value(r, st);
        CASE("scalar ", f, " set to ", d, " in ", w);
        w.v[f] = d;
        if (r.flip()) x.setScalar(f, d); else x.set(f, d);
        require(eqS(x, w, true), "now " + show(x));
        require(feq(x.scalar(f), d) && feq(x.get<double>(f), d), "reads back " + std::to_string(x.scalar(f)));
        uint32_t n = r.below(9);
        CASE("reCount(", n, ") of ", w);
        x.reCount(n);
        w.count = n;
        w.v.assign(size_t(n) * z, 0.0);
        require(eqS(x, w, true) && x.itemSize() == z, "now " + show(x));
    }
    if (z && vals.size() < 5) {
        CASE("initializer list ", vals, " itemSize ", z);
        auto chk = [&](Serie x) {
            require(x.count() == vals.size() / z && x.itemSize() == z && x.dimension() == s.dim && same(x.asArray(), vals), "constructed " + show(x));
        };
        int iz = int(z);
        if (vals.size() == 0) chk(Serie(iz, std::initializer_list<double>{}, s.dim));
        if (vals.size() == 1) chk(Serie(iz, {vals[0]}, s.dim));
        if (vals.size() == 2) chk(Serie(iz, {vals[0], vals[1]}, s.dim));
        if (vals.size() == 3) chk(Serie(iz, {vals[0], vals[1], vals[2]}, s.dim));
        if (vals.size() == 4) chk(Serie(iz, {vals[0], vals[1], vals[2], vals[3]}, s.dim));
    }
}
static void body() { specials = true; sweep(sizes(64, 7), 5000, 1, one); }
MAIN(body)
