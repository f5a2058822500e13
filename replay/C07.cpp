#include "h.h"
#include <dataframe/functional/find.h>
#include <dataframe/functional/conditional/check.h>
using namespace h;
using namespace df;
// find returns the first match (or says there is none); findAll all of them in order; check a 0/1 mask.
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    Serie x = mk(s);
    uint64_t salt = r.next();
    uint32_t dens = r.flip() ? r.below(11) : r.below(2);
    uint32_t only = s.count ? r.below(s.count + 1) : 0;
    bool pin = r.flip(.4);
    auto P = [=](const Array &a, uint32_t i) { return pin ? i >= only : mix(ha(salt, a), i) % 10 < dens; };
    auto Q = [=](double d, uint32_t i) { return pin ? i >= only : mix(hd(salt, d), i) % 10 < dens; };
    // the same predicates answering with an integer: anything but zero holds
    int32_t yes = r.flip() ? -1 - int32_t(r.below(9)) : 1 + int32_t(r.below(300));
    auto PI = [=](const Array &a, uint32_t i) -> int { return P(a, i) ? yes : 0; };
    auto QI = [=](double d, uint32_t i) -> int { return Q(d, i) ? yes : 0; };
    std::vector<bool> k;
    for (uint32_t i = 0; i < s.count; ++i) k.push_back(z == 1 ? Q(s.v[i], i) : P(s.item(i), i));
    uint32_t first = 0;
    while (first < s.count && !k[first]) ++first;
    std::string sel; for (bool b : k) sel += b ? '1' : '0';
    RS all; all.isz = z;
    for (uint32_t i = 0; i < s.count; ++i) if (k[i]) { auto a = s.item(i); all.v.insert(all.v.end(), a.begin(), a.end()); ++all.count; }
    RS mask; mask.isz = 1; mask.count = s.count;
    for (bool b : k) mask.v.push_back(b ? 1.0 : 0.0);
    CASE("predicate true at ", sel, " over ", s);
    if (z == 1) {
        auto f = find(Q, x);
        require(f.found == (first < s.count), "found");
        if (f.found) require(f.index == first && feq(f.value, s.v[first]), "find gives item " + std::to_string(f.index) + ", expected " + std::to_string(first));
        expect("findAll", findAll(Q, x), all);
        expect("check", cond::check(x, Q), mask);
        expect("findAll (int predicate)", findAll(QI, x), all);
        expect("check (int predicate)", cond::check(x, QI), mask);
        auto fi = find(QI, x);
        require(fi.found == f.found && fi.index == f.index, "find (int predicate)");
        must_throw("find with an array predicate", [&] { find(P, x); });
    } else {
        auto f = find(P, x);
        require(f.found == (first < s.count), "found");
        if (f.found) require(f.index == first && same(f.value, s.item(first)), "find gives item " + std::to_string(f.index) + ", expected " + std::to_string(first));
        expect("findAll", findAll(P, x), all);
        expect("check", cond::check(x, P), mask);
        expect("findAll (int predicate)", findAll(PI, x), all);
        expect("check (int predicate)", cond::check(x, PI), mask);
        auto fi = find(PI, x);
        require(fi.found == f.found && fi.index == f.index, "find (int predicate)");
        must_throw("find with a scalar predicate", [&] { find(Q, x); });
    }
    unchanged(x, s);
}
static void body() { specials = true; sweep(sizes(64, 5, false), 3000, 1, one); }
MAIN(body)
