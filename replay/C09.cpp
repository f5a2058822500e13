#include "h.h"
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/merge.h>
using namespace h;
using namespace df;
static RS chain(const std::vector<RS> &l) {
    RS r; r.isz = l[0].isz;
    for (auto &s : l) { r.count += s.count; r.v.insert(r.v.end(), s.v.begin(), s.v.end()); }
    return r;
}
static RS weave(const std::vector<RS> &l) {
    RS r; r.isz = l[0].isz;
    uint32_t m = 0;
    for (auto &s : l) { r.count += s.count; m = std::max(m, s.count); }
    for (uint32_t i = 0; i < m; ++i) for (auto &s : l) if (i < s.count) for (double x : s.item(i)) r.v.push_back(x);
    return r;
}
static void of(const std::vector<RS> &l) {
    std::vector<Serie> L;
    std::string d;
    for (auto &s : l) { L.push_back(mk(s)); d += " " + show(s); }
    bool differ = l.empty(), invalid = l.empty();
    for (auto &s : l) { if (s.isz != l[0].isz) differ = true; if (!s.isz) invalid = true; }
    CASE("concat of", d);
    auto cat = [&](const char *nm, auto &&f) {
        if (differ || invalid) must_throw(nm, f);
        else expect(nm, f(), chain(l));
    };
    cat("concat of a list", [&] { return utils::concat(L); });
    if (l.size() == 1) cat("concat of one", [&] { return utils::concat(L[0]); });
    if (l.size() == 2) cat("concat of two", [&] { return utils::concat(L[0], L[1]); });
    if (l.size() == 3) cat("concat of three", [&] { return utils::concat(L[0], L[1], L[2]); });
    if (l.size() == 4) cat("concat of four", [&] { return utils::concat(L[0], L[1], L[2], L[3]); });
    CASE("merge of", d);
    auto mrg = [&](const char *nm, bool c, auto &&f) {
        if (differ) must_throw(nm, f);
        else if (!invalid) expect(nm, f(), c ? chain(l) : weave(l));
    };
    for (int c = 0; c < 2; ++c) {
        const char *nm = c ? "merge (concatenate)" : "merge (interleave)";
        if (l.size() == 1) mrg(nm, c, [&] { return merge(bool(c), L[0]); });
        if (l.size() == 2) mrg(nm, c, [&] { return merge(bool(c), L[0], L[1]); });
        if (l.size() == 2) mrg(nm, c, [&] { return merge(L[0], L[1], bool(c)); });
        if (l.size() == 3) mrg(nm, c, [&] { return merge(bool(c), L[0], L[1], L[2]); });
        if (l.size() == 4) mrg(nm, c, [&] { return merge(bool(c), L[0], L[1], L[2], L[3]); });
        if (l.size() == 5) mrg(nm, c, [&] { return merge(bool(c), L[0], L[1], L[2], L[3], L[4]); });
    }
    if (l.size() == 2) mrg("merge by default", true, [&] { return merge(L[0], L[1]); });
    for (size_t i = 0; i < l.size(); ++i) unchanged(L[i], l[i]);
}
static void body() { specials = true;
    Rng r0(seed);
    of({});
    // every small combination of counts
    for (uint32_t a = 0; a < 5; ++a) for (uint32_t b = 0; b < 5; ++b) {
        of({gen(r0, 1, a, INTS), gen(r0, 1, b, INTS)});
        of({gen(r0, 2, a, INTS), gen(r0, 2, b, INTS)});
        for (uint32_t c = 0; c < 5; ++c) of({gen(r0, 1 + (a + b) % 3, a, INTS), gen(r0, 1 + (a + b) % 3, b, SMALL), gen(r0, 1 + (a + b) % 3, c, INTS)});
    }
    sweep(sizes(40, 5), 600, 1, [&](Rng &r, uint32_t z, uint32_t c, Style st) {
        if (size_t(z) * c > 60000) return;
        uint32_t n = 1 + r.below(5);
        std::vector<RS> l;
        for (uint32_t k = 0; k < n; ++k)
            l.push_back(gen(r, r.flip(.03) ? r.below(4) : z, k == 0 ? c : r.flip(.2) ? c : r.flip(.1) ? 0 : r.below(c + 4), st));
        if (r.flip()) std::swap(l[0], l.back());
        of(l);
    });
}
MAIN(body)
