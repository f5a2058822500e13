#include "h.h"
#include <atomic>
#include <thread>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/parallel_execute.h>
using namespace h;
using namespace df;
static RS cut(const RS &s, uint32_t lo, uint32_t n) {
    RS r; r.isz = s.isz; r.count = n;
    r.v.assign(s.v.begin() + size_t(lo) * s.isz, s.v.begin() + size_t(lo + n) * s.isz);
    return r;
}
static void parts(const char *nm, const Series &l, const RS &s, uint32_t n, bool exact) {
    require(exact ? l.size() == n : l.size() <= n && !l.empty(), std::string(nm) + ": " + std::to_string(l.size()) + " parts");
    if (!exact) require(l.size() == std::min(n, std::max(s.count, 1u)), std::string(nm) + ": " + std::to_string(l.size()) + " parts");
    uint32_t p = l.size(), base = s.count / p, rem = s.count % p, lo = 0;
    for (uint32_t k = 0; k < p; ++k) {
        uint32_t m = base + (k < rem);
        expect((std::string(nm) + ", part " + std::to_string(k)).c_str(), l[k], cut(s, lo, m));
        require(l[k].itemSize() == s.isz, std::string(nm) + ": item size of part " + std::to_string(k));
        lo += m;
    }
    require(lo == s.count, std::string(nm) + ": not all the items are in a part");
}
static void split(Rng &r, const RS &a, uint32_t n) {
    CASE("partition_n(", n, ", ", show(a), ")");
    Serie A = mk(a);
    if (!n) must_throw("no part", [&] { utils::partition_n(n, A); });
    else parts("partition_n", utils::partition_n(n, A), a, n, false);
    if (n > 5000) return;
    RS b = gen(r, 1 + r.below(4), a.count, INTS), c = gen(r, 1 + r.below(4), a.count, SMALL);
    Serie B = mk(b), C = mk(c);
    CASE("partition_n(", n, ", ", show(a), ", ", show(b), ", ", show(c), ")");
    if (b.count != a.count) return;
    if (!n) {
        must_throw("no part of two", [&] { utils::partition_n(n, A, B); });
        must_throw("no part of three", [&] { utils::partition_n(n, A, B, C); });
    } else {
        auto l2 = utils::partition_n(n, A, B);
        require(l2.size() == 2, "partition_n of two series");
        parts("first of two", l2[0], a, n, true);
        parts("second of two", l2[1], b, n, true);
        auto l3 = utils::partition_n(n, A, B, C);
        require(l3.size() == 3, "partition_n of three series");
        parts("first of three", l3[0], a, n, true);
        parts("second of three", l3[1], b, n, true);
        parts("third of three", l3[2], c, n, true);
    }
    RS o = gen(r, b.isz, a.count + 1 + r.below(2), INTS);
    Serie O = mk(o);
    CASE("partition_n(", n, ", ", show(a), ", ", show(o), ", ...)");
    must_throw("different counts", [&] { utils::partition_n(n, A, O); });
    must_throw("different counts", [&] { utils::partition_n(n, A, B, O); });
    must_throw("different counts", [&] { utils::partition_n(n, O, A); });
    unchanged(A, a); unchanged(B, b); unchanged(C, c);
}
// an item-wise function with items of size z
static RS itemwise(const RS &s, uint32_t z) {
    RS r; r.isz = z; r.count = s.count;
    for (uint32_t i = 0; i < s.count; ++i) {
        uint64_t x = ha(7, s.item(i));
        for (uint32_t k = 0; k < z; ++k) r.v.push_back(fin(mix(x, k)));
    }
    return r;
}
static RS rs(const Serie &s) { return RS{s.itemSize(), s.count(), s.dimension(), s.asArray()}; }
static void nap(uint64_t x) { if (x) std::this_thread::sleep_for(std::chrono::microseconds(x)); }
static void par(Rng &r, const RS &a, uint32_t n, int mode) {
    Serie A = mk(a);
    uint32_t z = 1 + r.below(4);
    std::atomic<int> order{0};
    bool slow = mode && r.flip(.3);
    uint64_t h0 = r.next();
    auto fn = [z, slow, h0, &order](const Serie &s) -> Serie {
        int k = order++;
        if (slow) nap(k < 6 ? 3000 - 500 * k : mix(h0, k) % 800);      // the first to start is the last to end
        return mk(itemwise(rs(s), z));
    };
    CASE("parallel_execute of an item-wise function with items of size ", z, " on ", n, " cores", slow ? ", the first task is the slowest" : "", ", ", show(a));
    if (!n) { must_throw("no core", [&] { utils::parallel_execute(fn, A, n); }); return; }
    expect("parallel_execute", utils::parallel_execute(fn, A, n), itemwise(a, z));
    unchanged(A, a);
    if (!a.count) return;
    // a task that fails
    double bad = a.v[r.below(a.v.size())];
    CASE("parallel_execute of a function that throws on an item with ", bad, " on ", n, " cores, ", show(a));
    must_throw("a task fails", [&] {
        utils::parallel_execute([&](const Serie &s) -> Serie {
            for (double x : s.asArray()) if (feq(x, bad)) throw std::runtime_error("no");
            return s;
        }, A, n);
    });
    // a task whose result has another count
    if (n > 1) {
        CASE("parallel_execute of a function whose result is one item longer if it finds ", bad, " on ", n, " cores, ", show(a));
        must_throw("a result with another count", [&] {
            utils::parallel_execute([&](const Serie &s) -> Serie {
                RS t = rs(s);
                for (double x : s.asArray()) if (feq(x, bad)) { t.count += 1; t.v.insert(t.v.end(), t.isz, 1.0); break; }
                return mk(t);
            }, A, n);
        });
        // results of different item sizes
        uint32_t p = std::min(n, a.count);
        if (p > 1) {
            double first = a.v[0];
            bool only = true;
            for (size_t i = (size_t(a.count / p) + (a.count % p != 0)) * a.isz; i < a.v.size(); ++i) if (feq(a.v[i], first)) only = false;
            CASE("parallel_execute of a function whose result has items of size 2 if it finds ", first, " and 1 otherwise on ", n, " cores, ", show(a));
            if (only) must_throw("results of different item sizes", [&] {
                utils::parallel_execute([&](const Serie &s) -> Serie {
                    bool f = false;
                    for (double x : s.asArray()) if (feq(x, first)) f = true;
                    return mk(itemwise(rs(s), f ? 2 : 1));
                }, A, n);
            });
        }
    }
}
static void body() { specials = true;
    Rng r(seed);
    for (uint32_t c = 0; c < 13; ++c) for (uint32_t n = 0; n < 16; ++n) split(r, gen(r, 1 + (c + n) % 3, c, INTS), n);
    for (uint32_t c = 0; c < 8; ++c) for (uint32_t n = 0; n < 9; ++n) par(r, gen(r, 1 + (c + n) % 3, c, INTS), n, 0);
    if (seed % 1000 == 0) {   // more items than a float can count
        uint32_t N = (1u << 24) + 1;
        Array x(N, 0.); x[N - 1] = 7;
        Serie A(1, x);
        for (uint32_t n : {1u, 2u}) {
            CASE("partition_n(", n, ", a Serie of ", N, " scalars, all 0 but the last, which is 7)");
            alarm(120);
            auto q = utils::partition_n(n, A);
            require(q.size() == n && q[0].count() + (n > 1 ? q[1].count() : 0) == N && q[n - 1].scalar(q[n - 1].count() - 1) == 7, "items are lost: the first part has " + std::to_string(q[0].count()));
        }
    }
    {   // the first task takes much longer than the others
        RS a = gen(r, 2, 7, INTS);
        Serie A = mk(a);
        for (uint32_t n : {2u, 4u}) for (uint32_t d : {150u, 1200u}) {
            std::atomic<int> order{0};
            double first = a.v[0];
            CASE("parallel_execute on ", n, " cores, the task with the first item takes ", d, " ms, ", a);
            expect("parallel_execute", utils::parallel_execute([&](const Serie &s) -> Serie {
                if (s.count() && feq(s.asArray()[0], first)) nap(d * 1000);
                return mk(itemwise(rs(s), 2));
            }, A, n), itemwise(a, 2));
        }
    }
    split(r, gen(r, 2, 5, INTS), 100000u);
    split(r, gen(r, 1, 7, INTS), 65536u);
    sweep(sizes(20, 4, false), 400, .5, [&](Rng &r, uint32_t z, uint32_t c, Style st) {
        RS a = gen(r, z, c, st);
        split(r, a, r.flip(.7) ? r.below(12) : r.flip(.5) ? c + r.below(3) : r.below(300));
    });
    sweep(sizes(8, 3, false), 300, 1, [&](Rng &r, uint32_t z, uint32_t c, Style st) {
        par(r, gen(r, z, c, st), r.flip(.8) ? r.below(9) : 1 + r.below(40), 1);
    });
}
MAIN(body)
