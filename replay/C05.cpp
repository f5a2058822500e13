#include "h.h"
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
using namespace h;
using namespace df;
// filter keeps exactly the items the predicate holds for, in order; reject the others; several inputs stay aligned.
static RS pick(const RS &s, const std::vector<bool> &k, bool v) {
    RS r; r.isz = s.isz;
    for (uint32_t i = 0; i < s.count; ++i) if (k[i] == v) { auto a = s.item(i); r.v.insert(r.v.end(), a.begin(), a.end()); ++r.count; }
    return r;
}
// predicates that select from another Serie in the same way while they are being asked
template <class T> struct Nested {
    uint64_t salt; uint32_t dens;
    const std::function<void()> *other;
    static inline bool busy = false;
    bool operator()(T d, uint32_t i) const {
        if (!busy) { busy = true; (*other)(); busy = false; }
        if constexpr (std::is_same_v<T, double>) return mix(hd(salt, d), i) % 10 < dens;
        else return mix(ha(salt, d), i) % 10 < dens;
    }
};
template <class T> static void nested(uint64_t salt, uint32_t dens, const Serie &x, const Serie &small, const RS &yes, const RS &no) {
    std::function<void()> other;
    Nested<T> n{salt, dens, &other};
    auto go = [&](const char *what, auto op, const RS &want) {
        other = [&] { op(small); };
        expect((std::string(what) + " with a predicate that itself selects").c_str(), op(x), want);
    };
    go("filter", [&](const Serie &s) { return filter(n, s); }, yes);
    go("findAll", [&](const Serie &s) { return findAll(n, s); }, yes);
    go("cut", [&](const Serie &s) { return utils::cut(n, s); }, yes);
    go("reject", [&](const Serie &s) { return utils::reject(n, s); }, no);
    go("partition", [&](const Serie &s) { return std::get<0>(utils::partition(n, s)); }, yes);
    go("partition second", [&](const Serie &s) { return std::get<1>(utils::partition(n, s)); }, no);
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    RS s = gen(r, z, c, st);
    Serie x = mk(s);
    uint64_t salt = r.next();
    uint32_t dens = r.below(11);   // 0: none, 10: all
    auto P = [=](const Array &a, uint32_t i) { return mix(ha(salt, a), i) % 10 < dens; };
    auto Q = [=](double d, uint32_t i) { return mix(hd(salt, d), i) % 10 < dens; };
    std::vector<bool> k;
    if (z == 1) {
        for (uint32_t i = 0; i < s.count; ++i) k.push_back(Q(s.v[i], i));
        RS yes = pick(s, k, true), no = pick(s, k, false);
        std::string sel; for (bool b : k) sel += b ? '1' : '0';
        CASE("scalar predicate true at ", sel, " over ", s);
        expect("filter", filter(Q, x), yes);
        expect("Serie::filter", x.filter(Q), yes);
        expect("make_filter", make_filter(Q)(x), yes);
        expect("findAll", findAll(Q, x), yes);
        expect("cut", utils::cut(Q, x), yes);
        expect("reject", utils::reject(Q, x), no);
        expect("make_reject", utils::make_reject(Q)(x), no);
        auto [a, b] = utils::partition(Q, x);
        expect("partition first", a, yes);
        expect("partition second", b, no);
        if (c <= 64) nested<double>(salt, dens, x, Serie(1, {1, 2, 3}), yes, no);
    } else {
        CASE("partition with a scalar predicate over ", s);
        must_throw("partition", [&] { utils::partition(Q, x); });
    }
    k.clear();
    for (uint32_t i = 0; i < s.count; ++i) k.push_back(P(s.item(i), i));
    RS yes = pick(s, k, true), no = pick(s, k, false);
    std::string sel; for (bool b : k) sel += b ? '1' : '0';
    CASE("array predicate true at ", sel, " over ", s);
    expect("filter", filter(P, x), yes);
    expect("Serie::filter", x.filter(P), yes);
    expect("make_filter", make_filter(P)(x), yes);
    expect("findAll", findAll(P, x), yes);
    expect("cut", utils::cut(P, x), yes);
    expect("reject", utils::reject(P, x), no);
    expect("make_reject", utils::make_reject(P)(x), no);
    {
        auto [a, b] = utils::partition(P, x);
        expect("partition first", a, yes);
        expect("partition second", b, no);
    }
    if (c <= 64 && z > 0) nested<const Array &>(salt, dens, x, Serie(z, 3), yes, no);
    RS s2 = gen(r, 1 + r.below(5), c, st), s3 = gen(r, 1 + r.below(4), c, st);
    if (s.count == s2.count) {
        Serie y = mk(s2), w = mk(s3);
        auto P2 = [=](const Array &a, const Array &b, uint32_t i) { return mix(ha(ha(salt, a), b), i) % 10 < dens; };
        auto N2 = [=](const Array &a, const Array &b) { return ha(ha(salt, a), b) % 10 < dens; };
        auto P3 = [=](const Array &a, const Array &b, const Array &c, uint32_t i) { return mix(ha(ha(ha(salt, a), b), c), i) % 10 < dens; };
        std::vector<bool> k2, n2, k3;
        for (uint32_t i = 0; i < s.count; ++i) {
            k2.push_back(P2(s.item(i), s2.item(i), i));
            n2.push_back(N2(s.item(i), s2.item(i)));
            k3.push_back(P3(s.item(i), s2.item(i), s3.item(i), i));
        }
        CASE("two-series predicate over ", s, " and ", s2);
        { auto [a, b] = filter(P2, x, y); expect("filter first", a, pick(s, k2, true)); expect("filter second", b, pick(s2, k2, true)); }
        { auto [a, b] = utils::reject(P2, x, y); expect("reject first", a, pick(s, k2, false)); expect("reject second", b, pick(s2, k2, false)); }
        { auto l = filterAll(N2, x, y); require(l.size() == 2, "filterAll size"); expect("filterAll[0]", l[0], pick(s, n2, true)); expect("filterAll[1]", l[1], pick(s2, n2, true)); }
        { auto l = utils::rejectAll(N2, x, y); require(l.size() == 2, "rejectAll size"); expect("rejectAll[0]", l[0], pick(s, n2, false)); expect("rejectAll[1]", l[1], pick(s2, n2, false)); }
        CASE("three-series predicate over ", s, ", ", s2, ", ", s3);
        { auto [a, b, d] = filter(P3, x, y, w); expect("filter first", a, pick(s, k3, true)); expect("filter second", b, pick(s2, k3, true)); expect("filter third", d, pick(s3, k3, true)); }
        { auto [a, b, d] = utils::reject(P3, x, y, w); expect("reject first", a, pick(s, k3, false)); expect("reject second", b, pick(s2, k3, false)); expect("reject third", d, pick(s3, k3, false)); }
        auto N3 = [=](const Array &a, const Array &b, const Array &c) { return ha(ha(ha(salt, a), b), c) % 10 < dens; };
        std::vector<bool> n3;
        for (uint32_t i = 0; i < s.count; ++i) n3.push_back(N3(s.item(i), s2.item(i), s3.item(i)));
        { auto l = filterAll(N3, x, y, w); require(l.size() == 3, "filterAll size"); expect("filterAll[0]", l[0], pick(s, n3, true)); expect("filterAll[1]", l[1], pick(s2, n3, true)); expect("filterAll[2]", l[2], pick(s3, n3, true)); }
        { auto l = utils::rejectAll(N3, x, y, w); require(l.size() == 3, "rejectAll size"); expect("rejectAll[0]", l[0], pick(s, n3, false)); expect("rejectAll[1]", l[1], pick(s2, n3, false)); expect("rejectAll[2]", l[2], pick(s3, n3, false)); }
        RS bad = gen(r, 1 + r.below(3), c + 1, st);
        Serie yb = mk(bad);
        CASE("predicate over ", s, " and ", bad, " (different counts)");
        must_throw("filter", [&] { filter(P2, x, yb); });
        must_throw("reject", [&] { utils::reject(P2, x, yb); });
        must_throw("filterAll", [&] { filterAll(N2, x, yb); });
        must_throw("rejectAll", [&] { utils::rejectAll(N2, x, yb); });
        must_throw("filter", [&] { filter(P3, x, y, yb); });
        must_throw("filter", [&] { filter(P3, x, yb, y); });
    }
    unchanged(x, s);
}
static void body() { specials = true; sweep(sizes(64, 5, false), 3000, 1, one); }
MAIN(body)
