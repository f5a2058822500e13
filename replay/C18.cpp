#include "h.h"
#include <map>
#include <dataframe/Dataframe.h>
#include <dataframe/utils/nameOfSerie.h>
using namespace h;
using namespace df;
using Ref = std::map<std::string, RS>;
static const std::vector<std::string> names = {"a", "b", "ab", "B", "", "a long name, long enough to be allocated", "aa", "ba", "c"};
static void agree(const Dataframe &c, const Ref &m) {
    require(c.series().size() == m.size(), "the Dataframe has " + std::to_string(c.series().size()) + " series, expected " + std::to_string(m.size()));
    for (auto &n : names) {
        auto it = m.find(n);
        require(c.contains(n) == (it != m.end()), "contains(\"" + n + "\") is " + (c.contains(n) ? "true" : "false"));
        if (it != m.end()) {
            expect(("get(\"" + n + "\")").c_str(), c.get(n), it->second, true);
            expect(("[\"" + n + "\"]").c_str(), c[n], it->second, true);
            require(nameOfSerie(c, c.get(n)) == n, "nameOfSerie of the entry \"" + n + "\" is \"" + nameOfSerie(c, c.get(n)) + "\"");
            require(c.contains(c.get(n)) == (n.size() != 0), "contains of the entry \"" + n + "\"");
        } else {
            const Serie &s = c.get(n), &t = c[n];
            require(!s.isValid() && !s.count() && !s.size() && !t.isValid() && !t.count() && !t.size(), "looking up the unknown \"" + n + "\" gives a Serie");
        }
    }
    Serie other = c.series().size() ? c.series().begin()->second : Serie();
    require(!c.contains(other) && nameOfSerie(c, other) == "", "a copy of an entry is taken for the entry");
    require(c.series().size() == m.size(), "looking up changed the Dataframe");
}
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    std::string log;
    uint32_t count = r.flip(.5) ? 0 : c;
    Dataframe d(count); Ref m;
    const Dataframe &k = d;
    uint32_t ops = 1 + r.below(12);
    log = "Dataframe(" + std::to_string(count) + ")";
    for (uint32_t i = 0; i < ops; ++i) {
        const std::string &n = names[r.below(names.size())], &n2 = names[r.below(names.size())];
        RS a = gen(r, r.below(5) ? 1 + r.below(6) : z, r.flip(.7) && count ? count : r.below(9), st);
        if (r.flip(.3)) a.dim = r.below(7);
        if (!a.isz) { a = RS(); a.dim = 3; a.isz = 0; a.count = 0; }
        Serie s = a.isz ? mk(a) : Serie();
        auto store = [&](const std::string &x, const RS &v) { if (!count) count = v.count; m[x] = v; };
        auto what = [&](const std::string &w) { log += "; " + w; cur = log; ++ncases; };
        switch (r.below(12)) {
        case 0: case 1: what("add(\"" + n + "\", " + show(a) + ")"); d.add(n, s); store(n, a); break;
        case 2: what("set(\"" + n + "\", " + show(a) + ")"); d.set(n, s); store(n, a); break;
        case 3: {
            RS e; e.isz = 1 + r.below(6); e.count = r.below(9); e.dim = 3; e.v.assign(e.isz * e.count, 0);
            what("create(\"" + n + "\", " + std::to_string(e.isz) + ", " + std::to_string(e.count) + ")");
            d.create(n, e.isz, e.count); store(n, e); break;
        }
        case 4: case 5: what("del(\"" + n + "\")"); d.del(n); m.erase(n); break;
        case 6: if (r.flip(.2)) { what("clear()"); d.clear(); m.clear(); } break;
        case 7: {
            uint32_t t = r.below(7);
            what("setCount(" + std::to_string(t) + ")"); d.setCount(t);
            if (t && t != count) { count = t; for (auto &x : m) { x.second.count = t; x.second.v.assign(size_t(t) * x.second.isz, 0); } }
            break;
        }
        case 8: what("[\"" + n + "\"] = " + show(a)); (r.flip() ? d[n] : d.get(n)) = s; m[n] = a; break;
        case 9: if (m.count(n)) { what("add(\"" + n2 + "\", get(\"" + n + "\"))"); RS v = m[n]; d.add(n2, k.get(n)); store(n2, v); } break;
        case 10: if (m.count(n) && m[n].count) { what("[\"" + n + "\"] item 0 is set"); Array x(m[n].isz); for (auto &t : x) t = value(r, INTS); for (size_t j = 0; j < x.size(); ++j) m[n].v[j] = x[j]; d[n].setValue(0, x); } break;
        case 11: {
            what("a copy is changed");
            Dataframe e(d); e.add("a", s); e.del("b"); if (e.contains(std::string("ab")) && e.get("ab").count()) e.setCount(77);
            break;
        }
        }
        agree(d, m);
    }
}
static void body() { specials = true; sweep({0, 1, 2, 3, 6}, 12, 1, one); }
MAIN(body)
