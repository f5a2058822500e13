#include "h.h"
#include <dataframe/functional/utils/zip.h>
#include <dataframe/functional/utils/unzip.h>
using namespace h;
using namespace df;
static RS joined(const std::vector<RS> &l) {
    RS r; r.isz = 0; r.count = l[0].count;
    for (auto &s : l) r.isz += s.isz;
    for (uint32_t i = 0; i < r.count; ++i) for (auto &s : l) for (double x : s.item(i)) r.v.push_back(x);
    return r;
}
static void parts_of(const Serie &Z, const RS &z, const std::vector<uint32_t> &sz) {
    CASE("unzip into item sizes ", show(Array(sz.begin(), sz.end())), " of ", z);
    uint32_t tot = 0;
    for (uint32_t k : sz) tot += k;
    if (sz.empty() || tot != z.isz) { must_throw("unzip with unsuitable item sizes", [&] { utils::unzip(Z, sz); }); return; }
    auto got = utils::unzip(Z, sz);
    if (got.size() != sz.size()) fail("unzip gives " + std::to_string(got.size()) + " series");
    uint32_t lo = 0;
    for (size_t k = 0; k < sz.size(); ++k) {
        RS w; w.isz = sz[k]; w.count = z.count;
        for (uint32_t i = 0; i < z.count; ++i) for (uint32_t j = 0; j < sz[k]; ++j) w.v.push_back(z.v[size_t(i) * z.isz + lo + j]);
        if (sz[k]) expect("unzip", got[k], w);
        else if (!got[k].asArray().empty()) fail("unzip of no component gives values");
        lo += sz[k];
    }
    unchanged(Z, z);
}
static void of(const std::vector<RS> &l) {
    std::vector<Serie> L;
    std::string d;
    for (auto &s : l) { L.push_back(mk(s)); d += " " + show(s); }
    CASE("zip of", d);
    bool bad = l.empty();
    for (auto &s : l) if (!s.isz || s.count != l[0].count) bad = true;
    auto all = [&](const char *nm, auto &&f) {
        if (bad) must_throw(nm, f);
        else expect(nm, f(), joined(l));
    };
    all("zipVector", [&] { return utils::zipVector(L); });
    if (l.size() == 1) all("zip of one", [&] { return utils::zip(L[0]); });
    if (l.size() == 2) all("zip of two", [&] { return utils::zip(L[0], L[1]); });
    if (l.size() == 3) all("zip of three", [&] { return utils::zip(L[0], L[1], L[2]); });
    if (l.size() == 4) all("zip of four", [&] { return utils::zip(L[0], L[1], L[2], L[3]); });
    for (size_t i = 0; i < l.size(); ++i) unchanged(L[i], l[i]);
    if (!bad) {
        RS z = joined(l);
        Serie Z = utils::zipVector(L);
        z.dim = Z.dimension();
        std::vector<uint32_t> sz;
        for (auto &s : l) sz.push_back(s.isz);
        parts_of(Z, z, sz);
        auto back = utils::unzip(Z, sz);
        CASE("unzip of zip of", d);
        if (back.size() != l.size()) fail("unzip of zip gives another number of series");
        for (size_t k = 0; k < l.size(); ++k) expect("unzip of zip", back[k], l[k]);
    }
}
static void body() { specials = true;
    Rng r0(seed);
    of({});
    sweep(sizes(40, 5), 600, .6, [&](Rng &r, uint32_t z, uint32_t c, Style st) {
        if (size_t(z) * c > 60000) return;
        uint32_t n = 1 + r.below(4);
        std::vector<RS> l;
        for (uint32_t k = 0; k < n; ++k) {
            uint32_t zk = k == 0 ? z : r.flip(.03) ? 0 : 1 + r.below(5);
            l.push_back(gen(r, zk, r.flip(.04) ? r.below(6) : c, st));
        }
        of(l);
    });
    sweep(sizes(40, 9), 600, 1, [&](Rng &r, uint32_t z, uint32_t c, Style st) {
        if (size_t(z) * c > 60000) return;
        RS s = gen(r, z, c, st);
        std::vector<uint32_t> sz;
        uint32_t left = z;
        while (left) { uint32_t k = r.flip(.08) ? 0 : 1 + r.below(std::min(left, r.flip(.7) ? 3u : left)); sz.push_back(k); left -= k; }
        if (r.flip(.08)) sz.push_back(0);
        if (r.flip(.05) && !sz.empty()) ++sz[r.below(sz.size())];
        if (r.flip(.05) && !sz.empty()) sz.pop_back();
        if (r.flip(.05)) std::swap(sz.empty() ? left : sz[0], sz.empty() ? left : sz.back());
        Serie S = mk(s);
        parts_of(S, s, sz);
    });
}
MAIN(body)
