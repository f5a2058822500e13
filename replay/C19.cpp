#include "h.h"
#include <map>
#include <memory>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Decomposer.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/functional/algebra/eigen.h>
using namespace h;
using namespace df;
using Str = std::string;
using Names = std::vector<Str>;
using Ref = std::map<Str, RS>;
enum Kind { COMP, COORD, NORMAL, AREA, VALENCE, EVAL, EVEC, USER, BASE, NKIND };
struct Dec { Kind k; Names par; uint32_t isz; };
static Str q(const Str &s) { return "\"" + s + "\""; }
static Str show(const Names &n) { Str o = "{"; for (auto &x : n) o += q(x) + " "; return o + "}"; }
static RS user(const Ref &m, uint32_t isz) {
    RS s; s.isz = 0; s.count = 0;
    auto it = m.find("U");
    if (it == m.end()) return s;
    s.isz = isz; s.count = it->second.count; s.v.assign(size_t(isz) * s.count, 7);
    return s;
}
static bool special(const Str &n) { return n == "positions" || n == "indices"; }
// the names that a decomposer derives from one series
static Names names_of(const Dec &d, const Ref &m, uint32_t isz, const Str &n, const RS &s) {
    bool mesh = m.count("positions") && m.count("indices");
    switch (d.k) {
    case COMP: {
        if (special(n) || isz != 1 || s.isz == 1) return {};
        static const Names v2 = {"x", "y"}, s2 = {"xx", "xy", "yy"}, m2 = {"xx", "xy", "yx", "yy"}, v3 = {"x", "y", "z"},
            s3 = {"xx", "xy", "xz", "yy", "yz", "zz"}, m3 = {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"};
        Names suf;
        for (auto t : s.dim == 2 ? std::vector<const Names *>{&v2, &s2, &m2} : std::vector<const Names *>{&v3, &s3, &m3}) if (t->size() == s.isz) suf = *t;
        if (suf.empty()) for (uint32_t i = 0; i < s.isz; ++i) suf.push_back(std::to_string(i));
        for (auto &x : suf) x = n + x;
        return suf;
    }
    case COORD: return isz == 1 && n == "positions" ? d.par : Names{};
    case NORMAL: return isz == 3 && mesh ? d.par : Names{};
    case AREA: case VALENCE: return isz == 1 && mesh ? d.par : Names{};
    case EVAL: case EVEC:
        if (special(n) || !((s.dim == 2 && s.isz == 3) || (s.dim == 3 && s.isz == 6)) || isz != (d.k == EVAL ? 1 : s.dim)) return {};
        return s.dim == 2 ? Names{n + "1", n + "2"} : Names{n + "1", n + "2", n + "3"};
    case USER: return isz == d.isz && user(m, isz).isz ? d.par : Names{};
    default: return {};
    }
}
static RS component(const RS &s, uint32_t i) {
    RS e; e.isz = 1; e.count = s.count;
    for (uint32_t j = 0; j < s.count; ++j) e.v.push_back(s.v[size_t(j) * s.isz + i]);
    return e;
}
static RS of(const Serie &s) { RS e; e.isz = s.itemSize(); e.count = s.count(); e.dim = s.dimension(); e.v = s.asArray(); return e; }
static bool good_mesh(const Ref &m) {
    auto p = m.find("positions"), t = m.find("indices");
    if (p == m.end() || t == m.end() || p->second.isz != 3 || t->second.isz != 3) return false;
    for (double x : t->second.v) if (!(x >= 0 && x < p->second.count)) return false;
    return true;
}
// every series that a name may denote for a decomposer
static std::vector<RS> denotes(const Dec &d, const Ref &m, uint32_t isz, const Str &n, bool &skip) {
    std::vector<RS> res;
    for (auto &x : m) {
        Names l = names_of(d, m, isz, x.first, x.second);
        for (uint32_t i = 0; i < l.size(); ++i) {
            if (l[i] != n) continue;
            const RS &s = x.second;
            switch (d.k) {
            case COMP: res.push_back(component(s, i)); break;
            case COORD: if (i < s.isz) res.push_back(component(s, i)); else skip = true; break;
            case EVAL: res.push_back(component(of(algebra::eigenValues(mk(s))), i)); break;
            case EVEC: {
                RS v = of(algebra::eigenVectors(mk(s))), e; e.isz = isz; e.count = v.count;
                for (uint32_t j = 0; j < v.count; ++j) for (uint32_t k = 0; k < isz; ++k) e.v.push_back(v.v[size_t(j) * v.isz + i * isz + k]);
                res.push_back(e); break;
            }
            case USER: res.push_back(user(m, isz)); break;
            case NORMAL: case AREA: case VALENCE: {
                if (!good_mesh(m)) { skip = true; break; }
                const RS &p = m.at("positions"), &t = m.at("indices");
                RS nn, a, v; nn.isz = 3; a.isz = v.isz = 1; nn.count = a.count = t.count; v.count = p.count; v.v.assign(p.count, 0);
                for (uint32_t i = 0; i < t.count; ++i) {
                    double e[2][3], sum = 0;
                    for (int k = 0; k < 3; ++k) for (int j = 0; j < 2; ++j)
                        e[j][k] = p.v[size_t(t.v[3 * i + j + 1]) * 3 + k] - p.v[size_t(t.v[3 * i]) * 3 + k];
                    for (int k = 0; k < 3; ++k) {
                        int x = (k + 1) % 3, y = (k + 2) % 3;
                        nn.v.push_back(e[0][x] * e[1][y] - e[0][y] * e[1][x]);
                        sum += nn.v.back() * nn.v.back();
                        v.v[size_t(t.v[3 * i + k])] += 1;
                    }
                    a.v.push_back(std::sqrt(sum) / 2);
                }
                res.push_back(d.k == NORMAL ? nn : d.k == AREA ? a : v);
                break;
            }
            default: break;
            }
        }
    }
    return res;
}
// names whose look-up is not settled by the listing: derived from positions or indices, or a mesh attribute of another item size
static bool open(const std::vector<Dec> &ds, const Ref &m, uint32_t isz, const Str &n) {
    if (n.rfind("positions", 0) == 0 || n.rfind("indices", 0) == 0) return true;
    for (auto &d : ds) {
        if (d.k == NORMAL || d.k == AREA || d.k == VALENCE || d.k == USER) for (auto &x : d.par) if (x == n) return true;
    }
    return false;
}
static double top(const Ref &m) { double t = 0; for (auto &x : m) for (double v : x.second.v) t = std::max(t, std::abs(v)); return t; }
static void check(const Manager &k, const std::vector<Dec> &ds, const Ref &m, uint32_t dim, uint32_t isz, const Names &asked, const Str &log) {
    std::set<Str> want;
    for (auto &x : m) {
        if (x.second.isz == isz && x.second.dim == dim && !special(x.first)) want.insert(x.first);
        for (auto &d : ds) for (auto &y : names_of(d, m, isz, x.first, x.second)) want.insert(y);
    }
    cur = log + "; names(" + std::to_string(isz) + ")"; ++ncases; alarm(20);
    Names got = k.names(isz);
    require(std::set<Str>(got.begin(), got.end()) == want && got.size() == want.size(), "names is " + show(got) + ", expected " + show(Names(want.begin(), want.end())));
    Names all(want.begin(), want.end());
    all.insert(all.end(), asked.begin(), asked.end());
    for (auto &n : all) {
        cur = log + "; item size " + std::to_string(isz) + ", name " + q(n);
        require(k.contains(isz, n) == (want.count(n) != 0), "contains is wrong");
        // a decomposer may resolve a name that it does not list for this item size
        auto it = m.find(n);
        bool own = it != m.end() && it->second.isz == isz, skip = false;
        std::vector<RS> may;
        if (own) may.push_back(it->second);
        else for (auto &d : ds) { may = denotes(d, m, isz, n, skip); if (!may.empty() || skip) break; }
        if (may.empty() && (skip || open(ds, m, isz, n))) { try { k.serie(isz, n); } catch (const std::exception &) {} continue; }
        // a Serie without items may be invalid, so that the next decomposer is asked
        if (!own && ds.size() > 1 && !may.empty() && may[0].count == 0) { try { k.serie(isz, n); } catch (const std::exception &) {} continue; }
        if (!own && ds.size() > 1 && open(ds, m, isz, n)) { try { k.serie(isz, n); } catch (const std::exception &) {} continue; }
        Serie s;
        no_throw("serie", [&] { s = k.serie(isz, n); });
        if (may.empty()) { require(!s.isValid() && s.count() == 0, "a name that denotes nothing gives " + h::show(s)); continue; }
        bool ok = false;
        double t = top(m);
        for (auto &e : may) ok = ok || eqS(s, e, false, true, t * t + 1);
        if (!ok) fail("serie gives " + h::show(s) + ", expected " + h::show(may[0]));
        if (own) require(eqS(s, may[0], true), "serie gives " + h::show(s) + ", expected " + h::show(may[0]));
    }
}
static const Names pool = {"U", "S", "T", "Ux", "positions", "indices", "V1", "x", "", "U1", "Sx", "a long name, long enough to be allocated", "z"};
static const Names suffix = {"x", "y", "z", "xx", "xy", "xz", "yy", "yx", "yz", "zz", "zx", "zy", "0", "1", "2", "3", "4", "7", "10", "11", "12", "", "w", ":", "/", "-1", "xyz", "X", " ", "01"};
static void one(Rng &r, uint32_t z, uint32_t c, Style st) {
    Dataframe df; Ref m;
    uint32_t count = c;
    auto put = [&](const Str &n) {
        RS a = gen(r, r.flip(.2) ? 1 + r.below(12) : z, r.flip(.8) ? count : r.below(5), st);
        if (r.flip(.15)) a.dim = r.below(6);
        if (r.flip(.5)) a.dim = a.isz == 2 || a.isz == 4 || (a.isz == 3 && r.flip()) ? 2 : 3;
        if (n == "positions" && r.flip(.8)) { a = gen(r, 3, count, SMALL); }
        if (n == "indices" && r.flip(.8)) { a.isz = 3; a.count = r.below(6); a.dim = 3; a.v.resize(3 * size_t(a.count)); bool fan = r.flip(.12); if (fan) { a.count = hints.empty() || r.flip() ? 250 + r.below(400) : std::min(70000u, hints[r.below(hints.size())] + 2); a.v.resize(3 * size_t(a.count)); } for (auto &x : a.v) x = r.below((fan ? std::min(count, 2u) : count) + (r.flip(.05) ? 1 : 0)); }
        if (n == "indices") for (auto &x : a.v) x = std::min(1e9, std::abs(std::trunc(x)));
        m[n] = a; df.add(n, a.isz ? mk(a) : Serie());
        if (!a.isz) { m[n].dim = 3; m[n].count = 0; }
    };
    uint32_t ns = r.below(5);
    if (r.flip(.4)) { put("positions"); put("indices"); }
    for (uint32_t i = 0; i < ns; ++i) put(pool[r.below(pool.size())]);
    // vertices of the triangles must exist, or the mesh is no mesh
    uint32_t dim = r.flip(.8) ? 3 : 2;
    std::vector<Dec> ds;
    Str log = "Dataframe";
    auto state = [&] { Str o; for (auto &x : m) o += "; " + q(x.first) + " = " + h::show(x.second); return o; };
    Decomposers first;
    auto fresh = [&]() -> std::pair<Dec, Decomposer *> {
        Dec d{Kind(r.below(NKIND)), {}, 1};
        switch (d.k) {
        case COMP: return {d, new Components()};
        case COORD: d.par = r.flip() ? Names{"x", "y", "z"} : r.flip() ? Names{"X", "Y"} : r.flip() ? Names{"e", "n", "up", "t"} : Names{};
            if (d.par == Names{"x", "y", "z"} && r.flip()) return {d, new Coordinates()};
            return {d, new Coordinates(d.par)};
        case NORMAL: d.par = {r.flip() ? "n" : "normal"}; return {d, new Normals(d.par[0])};
        case AREA: d.par = {r.flip() ? "a" : "area"}; return {d, new Area(d.par[0])};
        case VALENCE: d.par = {r.flip() ? "valence" : "v"}; return {d, new Valence(d.par[0])};
        case EVAL: return {d, new EigenValues()};
        case EVEC: return {d, new EigenVectors()};
        case USER: {
            d.par = {r.flip() ? "mine" : "U1"}; d.isz = 1 + r.below(3);
            uint32_t isz = d.isz;
            auto f = [isz](const Dataframe &x) { return x.contains("U") ? Serie(int(isz), Array(size_t(isz) * x.get("U").count(), 7)) : Serie(); };
            return {d, new UserDefinedDecomposer(isz, d.par[0], std::move(f))};
        }
        default: return {d, new Decomposer()};
        }
    };
    static const char *kn[] = {"Components", "Coordinates", "Normals", "Area", "Valence", "EigenValues", "EigenVectors", "UserDefined", "Decomposer"};
    auto dshow = [&] { Str o = "; decomposers:"; for (auto &d : ds) o += Str(" ") + kn[d.k] + (d.par.empty() ? "" : show(d.par)); return o; };
    uint32_t nd = r.below(4);
    for (uint32_t i = 0; i < nd; ++i) { auto d = fresh(); ds.push_back(d.first); first.push_back(d.second); }
    Manager k(df, first, dim);
    for (int step = 0; step < 3; ++step) {
        Names asked;
        for (int i = 0; i < 8; ++i) asked.push_back((r.flip(.6) && !m.empty() ? std::next(m.begin(), r.below(uint32_t(m.size())))->first : pool[r.below(pool.size())]) + suffix[r.below(suffix.size())]);
        uint32_t isz = r.flip(.5) ? 1 : 1 + r.below(9);
        if (!m.empty()) isz = r.flip(.7) ? isz : std::next(m.begin(), r.below(uint32_t(m.size())))->second.isz; if (!isz) isz = 1;
        require(k.nbDecomposers() == ds.size(), "nbDecomposers");
        check(k, ds, m, dim, isz, asked, log + state() + dshow() + "; Manager of dimension " + std::to_string(dim));
        check(k, ds, m, dim, 1 + r.below(3), asked, log + state() + dshow() + "; Manager of dimension " + std::to_string(dim));
        for (auto &x : m) unchanged(df.get(x.first), x.second);
        require(df.series().size() == m.size(), "the Dataframe is changed");
        if (r.flip(.3)) { k.clear(); ds.clear(); }
        if (r.flip(.6)) { auto d = fresh(); ds.push_back(d.first); k.add(d.second); }
        if (r.flip(.4)) put(pool[r.below(pool.size())]);
        if (r.flip(.3) && !m.empty()) { auto n = m.begin()->first; m.erase(n); df.del(n); }
    }
}
/** a valid Serie without items is an answer */
static void empties() {
    for (uint32_t isz : {1u, 2u, 3u, 6u}) {
        Dataframe df; df.add("U", Serie(1, Array{1, 2}));
        auto f = [isz](const Dataframe &) { return Serie(int(isz), Array{}); };
        auto g = [isz](const Dataframe &) { return Serie(int(isz), Array(isz, 5)); };
        CASE("Dataframe with a scalar U; decomposers for item size ", isz, " that name E: one that gives a valid Serie without items, and one that gives one item");
        Manager k(df, {new UserDefinedDecomposer(isz, "E", std::move(f))}, 3);
        Serie s = k.serie(isz, "E");
        require(k.contains(isz, "E") && s.isValid() && s.itemSize() == isz && s.count() == 0, "a listed name whose Serie has no items gives " + h::show(s));
        k.add(new UserDefinedDecomposer(isz, "E", std::move(g)));
        s = k.serie(isz, "E");
        require(s.isValid() && s.itemSize() == isz && s.count() == 0, "the first valid answer is not taken: " + h::show(s));
    }
}
static void body() { empties(); sweep({1, 3, 2, 6, 4, 9, 5, 10, 12, 0}, 12, 1, one); }
MAIN(body)
