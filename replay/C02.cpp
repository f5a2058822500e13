#include "h.h"
#include <dataframe/Dataframe.h>
#include <dataframe/functional/utils/print.h>
using namespace h;
using namespace df;
// Reads and writes with a bad index or a bad size are rejected by an exception and change nothing.
static uint32_t badindex(Rng &r, uint32_t n) {
    switch (r.below(8)) {
    case 6: case 7: {   // indices whose product with a small item size wraps around 32 bits
        uint32_t z = 2 + r.below(7), q = uint32_t((uint64_t(1 + r.below(z)) << 32) / z) + r.below(4);
        return q < n ? n : q;
    }
    case 0: case 1: return n;
    case 2: return n + 1 + r.below(4);
    case 3: return 0xffffffffu;
    case 4: return n + r.below(1000);
    default: { uint32_t x = uint32_t(r.next()); return x < n ? n : x; }
    }
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    Serie x = mk(s);
    for (int k = 0; k < 3; ++k) {
        uint32_t i = badindex(r, s.count);
        Array nv(z, 4.5);
        CASE("index ", i, " of ", s);
        must_throw("value", [&] { x.value(i); });
        must_throw("get<Array>", [&] { x.get<Array>(i); });
        uint32_t f = badindex(r, s.count * z);
        must_throw("scalar", [&] { x.scalar(f); });
        must_throw("get<double>", [&] { x.get<double>(f); });
        must_throw("setScalar", [&] { x.setScalar(f, 4.5); });
        must_throw("set<double>", [&] { x.set(f, 4.5); });
        must_throw("setValue", [&] { x.setValue(i, nv); });
        must_throw("set<Array>", [&] { x.set(i, nv); });
        unchanged(x, s);
    }
    if (s.count) {
        uint32_t i = r.below(s.count);
        uint32_t w = r.flip() ? z + 1 : r.below(z);
        Array nv(w, 4.5);
        CASE("store of ", w, " values in item ", i, " of ", s);
        must_throw("setValue", [&] { x.setValue(i, nv); });
        must_throw("set<Array>", [&] { x.set(i, nv); });
        unchanged(x, s);
    }
}
// Printing reads nothing outside the serie and writes to its own stream only.
struct Capture {
    std::ostringstream out, err;
    std::streambuf *o, *e;
    Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
static void printing(const Serie &x, const RS &s) {
    CASE("printing ", s);
    std::ostringstream own;
    std::string out, err;
    Array a = x.asArray();
    Series two{x, x};
    Strings names{"u", "v"};
    { Capture c; own << x; own << two; ::operator<<(own, a); own << names; out = c.out.str(); err = c.err.str(); }
    if (out.size() || err.size()) fail("operator<< wrote to a standard stream instead of its argument");
    if (own.str().empty()) fail("operator<< wrote nothing to its argument");
    { Capture c; x.dump(); out = c.out.str(); }
    if (out.size()) fail("dump wrote to the standard output");
    { Capture c; utils::print(x); err = c.err.str(); }
    if (err.size()) fail("print wrote to the standard error");
    unchanged(x, s);
}
static void small(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    printing(mk(s), s);
}
static void body() {
    sweep(sizes(24, 7), 300, .3, small);
    for (uint32_t n = 0; n < 4; ++n) {
        Serie e(0, n);
        CASE("printing a Serie of ", n, " items without values");
        Capture c;
        std::ostringstream own;
        own << e; e.dump(); utils::print(e);
    }
 specials = true; sweep(sizes(64, 7), 5000, 1, one); }
MAIN(body)
