"""Contracts of the constructors, of the decomposer made from a function, and of the Manager, over any decomposers.

The decomposers a Manager holds are abstract: `vf::AnyDecomposer` has the virtual functions of `df::Decomposer` and no
bodies. What the one at position k answers is any function of (k, item size, name) for the Dataframe of the Manager; it
may raise an exception."""
from spec import *
from c_frame import frame, string, none, NAME, Map
from c_alg import invalid
import sets
from c_attr import same_text, SIG, D, texts, vtable, strings, resolve_in, list_in

# ------------------------------------------------------------------ constructors
for _n, _u in (('Area', 'Areas'), ('Normals', 'Normals'), ('Valence', 'Valence')):
    @contract(_n + '::' + _n, D + r'%s::%s\(' % (_n, _n), inputs=lambda c: [Ptr(c.st.new_region('new', 'sret', 40)), string(c, 'name')], props=('C19',), unit='attributes/' + _u)
    def s_new(E, st, a, cls=_n):
        st.write(a[0], table(E, st, cls))
        st.write(a[0].add(8), st.read(a[1]))
        return ret(st)


def table(E, st, cls):
    return vtable(Holder(E, st), cls)


class Holder:
    def __init__(self, E, st):
        self.E, self.st = E, st


def names_ref(c):
    p = Ptr(c.st.new_region('names', 'param', 24))
    c.st.write(p, texts(c, 'given'))
    return p


@contract('Coordinates::Coordinates', D + r'Coordinates::Coordinates\(', inputs=lambda c: [Ptr(c.st.new_region('new', 'sret', 32)), names_ref(c)], props=('C19',), unit='attributes/Coordinates')
def s_new_coord(E, st, a):
    st.write(a[0], table(E, st, 'Coordinates'))
    st.write(a[0].add(8), st.read(a[1]))
    return ret(st)


# ------------------------------------------------------------------ a decomposer made from a function of the Dataframe
UD = 'df::UserDefinedDecomposer<vf::FrameFn>::'


def answer(E, st, key, p, args):
    """an arbitrary well-formed Serie, a function of the arguments"""
    so = [ex(x).sort() for x in args]
    g = lambda k, S: E.uf('%s_%s' % (key, k), *(so + [S]))(*[ex(x) for x in args]) if args else z3.Const('%s_%s' % (key, k), S)
    v, c, z, d = g('v', V), g('c', I), g('z', I), g('d', I)
    serie_facts(E, st, v, c, z, d)
    return Ser(Vec(imul(c, z), E.leaf(v), 'double', 8), c, z, d)


def raises(E, key, args):
    so = [ex(x).sort() for x in args]
    return E.uf(key + '_raises', *(so + [z3.BoolSort()]))(*[ex(x) for x in args]) if args else z3.Bool(key + '_raises')


def the_frame(E, st, p):
    f = st.ghost.get('frame')
    if f is None or not isinstance(p, Ptr) or p.rid != f.rid or p.path != f.path:
        raise Fail('a decomposer is asked about another Dataframe than the one given')


def asked(E, st, key, out, args):
    def go(t):
        r = answer(E, t, key, out, args)
        wser(t, out, r.v, r.count, r.isz, r.dim)
        return ret(t)
    return cases(st, (raises(E, key, args), lambda t: throw(t, None)), (True, go))


@contract('FrameFn', r'^vf::FrameFn::operator\(\)\(df::Dataframe const&\) const$')
def s_framefn(E, st, a):
    the_frame(E, st, a[2])
    return asked(E, st, 'framefn', a[0], [])


def known_frame(c):
    p = frame(c)
    c.st.ghost['frame'] = p
    return p


def user_defined(c):
    E, st = c.E, c.st
    p = Ptr(st.new_region('user defined', 'param', 56))
    st.write(p, vtable_ud(c))
    st.write(p.add(8), c.uint('own_z'))
    st.write(p.add(16), z3.Const('own_name', STR))
    return p


def vtable_ud(c):
    E = c.E
    for m in E.prog.mods:
        for g in m.globals:
            if re.match(r'_ZTVN2df21UserDefinedDecomposerI', g):
                return E.gval(c.st, Frame(None, m, 0), g).add(16)
    return Opaque('vtable')


from execu import Frame


@contract('UserDefinedDecomposer', r'^drv::user_defined\(', inputs=lambda c: [c.ret(56), c.uint('z'), string(c, 'name'), c.obj('f')], props=('C19',), unit='u_attr', site=False)
def s_ud_new(E, st, a):
    st.write(a[0], vtable_ud(Holder(E, st)))
    st.write(a[0].add(8), a[1])
    st.write(a[0].add(16), st.read(a[2]))
    return ret(st)


@contract('UserDefinedDecomposer::names', r'^' + UD.replace('(', r'\(') + r'names(?:\[abi:cxx11\])?' + SIG,
          inputs=lambda c: [c.ret(24), user_defined(c), known_frame(c), c.uint('z'), c.serie('s'), string(c, 'name')], props=('C19',), unit='u_attr')
def s_ud_names(E, st, a):
    def ask(t):
        r = answer(E, t, 'framefn', None, [])
        return cases(t, (raises(E, 'framefn', []), lambda u: throw(u, None)), (cmp_lt(0, r.isz), lambda u: strings(E, u, a[0], [u.read(a[1].add(16))])),
                     (True, lambda u: strings(E, u, a[0], [])))
    return cases(st, (cmp_eq(a[3], st.read(a[1].add(8))), ask), (True, lambda t: strings(E, t, a[0], [])))


@contract('UserDefinedDecomposer::serie', r'^' + UD + r'serie' + SIG,
          inputs=lambda c: [c.ret(40), user_defined(c), known_frame(c), c.uint('z'), string(c, 'name')], props=('C19',), unit='u_attr')
def s_ud_serie(E, st, a):
    mine = band(cmp_eq(a[3], st.read(a[1].add(8))), E.lib.streq(E, st, st.read(a[4]), st.read(a[1].add(16))))
    return cases(st, (mine, lambda t: asked(E, t, 'framefn', a[0], [])), (True, invalid(E, a[0])))


# ------------------------------------------------------------------ the Manager
ANY = r'^vf::AnyDecomposer::'


def place(p):
    """which of the decomposers"""
    if not isinstance(p, Ptr) or len(p.path) != 3 or p.path[2] != 0:
        raise Fail('not one of the decomposers')
    return p.path[1]


def alive(E, st, p):
    E.oblig(st, cmp_eq(st.read(p.add(8)), 0), 'memory', 'the decomposer is not deleted yet')


@contract('AnyDecomposer::serie', ANY + r'serie\(')
def s_any_serie(E, st, a):
    the_frame(E, st, a[2])
    alive(E, st, a[1])
    return asked(E, st, 'decomposer', a[0], [place(a[1]), a[3], st.read(a[4])])


@contract('AnyDecomposer::~AnyDecomposer', ANY + r'~AnyDecomposer\(')
def s_any_delete(E, st, a):
    alive(E, st, a[0])
    st.write(a[0].add(8), 1)
    return ret(st)


def decomposers(c, nm='ds', more=0):
    """a list of any number of different decomposers (there may be more of them, not in the list)"""
    E, st = c.E, c.st
    n = c.uint('n_' + nm)
    vt = vtable_any(c)
    rid = st.new_region('decomposers ' + nm, 'param')
    st.wreg(rid).cells[0] = Vec(iadd(n, more), Arr(fn=lambda k: Rec({0: vt, 8: 0})), 'vf::AnyDecomposer', 16)
    return Vec(n, Arr(fn=lambda k: Ptr(rid, (0, k, 0))), 'df::Decomposer*', 8)


def vtable_any(c):
    for m in c.E.prog.mods:
        if '_ZTVN2vf13AnyDecomposerE' in m.globals:
            return c.E.gval(c.st, Frame(None, m, 0), '_ZTVN2vf13AnyDecomposerE').add(16)
    return Opaque('vtable')


M = r'^df::Manager::'
DS = 8


def manager(c, more=0):
    p = Ptr(c.st.new_region('manager', 'param', 40))
    c.st.write(p, known_frame(c))
    c.st.write(p.add(DS), decomposers(c, more=more))
    c.st.write(p.add(32), 3)
    c.st.write(p.add(36), c.uint('dimension'))
    return p


def gone(E, st, v):
    """all of them are deleted"""
    w = st.wreg(at(v.arr, 0).rid)
    x = w.cells[0]
    vt = at(x.arr, 0).f[0]
    w.cells[0] = Vec(x.n, Arr(fn=lambda k: Rec({0: vt, 8: 1})), x.ety, x.es)


@contract('Manager::clear', M + r'clear\(\)$', inputs=lambda c: [manager(c)], props=('C19',), unit='attributes/Manager')
def s_clear(E, st, a):
    v = st.read(a[0].add(DS))
    gone(E, st, v)
    st.write(a[0].add(DS), Vec(0, Arr(fn=lambda k: Opaque('none')), v.ety, v.es))
    return ret(st)


@contract('Manager::serie', M + r'serie\(.*\) const$', inputs=lambda c: [c.ret(40), manager(c), c.uint('z'), string(c, 'name')], props=('C19',), unit='attributes/Manager')
def s_serie(E, st, a):
    f = st.read(a[1])
    x, z = st.read(a[3]), a[2]
    m = Map(E, st, f.add(8))
    m.pos(st, x)
    e = at(m.v.arr, m.o.pos(x)).f
    v = st.read(a[1].add(DS))

    def copy(t):
        s = ser(t, m.entry(t, x))
        wser(t, a[0], s.v, s.count, s.isz, s.dim)
        return ret(t)

    def ask(t):
        stop = lambda k: bor(raises(E, 'decomposer', [k, z, x]), cmp_lt(0, answer(E, t, 'decomposer', None, [k, z, x]).isz))
        i = E.folds.first_facts(t, ex(stop(K)), v.n)
        return cases(t, (cmp_lt(i, v.n), lambda u: asked(E, u, 'decomposer', a[0], [i, z, x])), (True, invalid(E, a[0])))
    return cases(st, (band(cmp_le(0, m.o.pos(x)), cmp_eq(e[64], z)), copy), (True, ask))


@contract('Manager::~Manager', M + r'~Manager\(\)$', inputs=lambda c: [manager(c)], props=('C19',), unit='attributes/Manager')
def s_destroy(E, st, a):
    gone(E, st, st.read(a[0].add(DS)))
    st.write(a[0].add(DS), DEAD)
    return ret(st)


@contract('Manager::add', M + r'add\(', inputs=lambda c: another(c), props=('C19',), unit='attributes/Manager')
def s_add(E, st, a):
    v = st.read(a[0].add(DS))
    p = a[1]
    st.write(a[0].add(DS), Vec(iadd(v.n, 1), Arr(parent=v.arr, lo=v.n, n=1, lf=lambda rel: p), v.ety, v.es))
    return ret(st)


def another(c):
    m = manager(c, more=1)
    v = c.st.read(m.add(DS))
    return [m, at(v.arr, v.n)]


def listed_decomposers(c):
    p = Ptr(c.st.new_region('list', 'param', 24))
    c.st.write(p, decomposers(c))
    return p


@contract('Manager::Manager', M + r'Manager\(', inputs=lambda c: [Ptr(c.st.new_region('new', 'sret', 40)), known_frame(c), listed_decomposers(c), c.uint('dimension')],
          props=('C19',), unit='attributes/Manager')
def s_new_manager(E, st, a):
    st.write(a[0], a[1])
    st.write(a[0].add(DS), st.read(a[2]))
    st.write(a[0].add(32), anyval(E, st))
    st.write(a[0].add(36), a[3])
    return ret(st)


def answer_names(E, st, k, z, s, x):
    """the names the decomposer at k gives for an entry: any list"""
    a = [ex(k), ex(z)] + [ex(t) for t in serie_terms(E, st, s)] + [ex(x)]
    so = [t.sort() for t in a]
    n = E.uf('decomposer_names_n', *(so + [I]))(*a)
    t = E.uf('decomposer_names_at', *(so + [I, STR]))
    return a, n, lambda j: t(*(a + [ex(j)]))


def raises_names(E, a):
    return E.uf('decomposer_names_raises', *([t.sort() for t in a] + [z3.BoolSort()]))(*a)


@contract('AnyDecomposer::names', ANY + r'names(?:\[abi:cxx11\])?\(')
def s_any_names(E, st, a):
    the_frame(E, st, a[2])
    alive(E, st, a[1])
    k, n, t = answer_names(E, st, place(a[1]), a[3], ser(st, a[4]), st.read(a[5]))
    st.assume(z3.And(n >= 0, n < (1 << 32)))

    def go(u):
        u.write(a[0], Vec(n, Arr(fn=lambda j: Rec({0: t(j)})), NAME, 32))
        return ret(u)
    return cases(st, (raises_names(E, k), lambda u: throw(u, None)), (True, go))


@contract('Manager::names', M + r'names(?:\[abi:cxx11\])?\([^{$]*\) const$', inputs=lambda c: [c.ret(24), manager(c), c.uint('z')], props=('C19',), unit='attributes/Manager')
def s_names(E, st, a):
    f = st.read(a[1])
    m = Map(E, st, f.add(8))
    ds = st.read(a[1].add(DS))
    dim = st.read(a[1].add(36))
    z = a[2]
    PI, PK = z3.Int('m!i'), z3.Int('m!d')

    def asks(t, i, k):
        s = Ser(*[at(m.v.arr, i).f[o] for o in (32, 56, 64, 60)])
        return s, answer_names(E, t, k, z, s, m.o.keyat(i))

    def some(t, fn, n, place_):
        """is there one below n (fn: a condition on place_)"""
        g, _, _ = E.folds.first(z3.substitute(ex(fn), (place_, K)), n)
        return cmp_lt(g, n)
    PJ = z3.Int('m!j')
    s, (args, n, text) = asks(st, PI, PK)
    bad = E.fresh('raises', z3.BoolSort())
    inside_ = lambda i, k: z3.And(0 <= i, i < ex(m.v.n), 0 <= k, k < ex(ds.n))
    r = raises_names(E, args)
    st.assume(z3.Implies(z3.Not(bad), z3.ForAll([PI, PK], z3.Implies(inside_(PI, PK), z3.Not(r)), patterns=[r])))
    i0, k0 = E.fresh('i'), E.fresh('k')
    st.assume(z3.Implies(bad, z3.And(inside_(i0, k0), z3.substitute(r, (PI, i0), (PK, k0)))))
    E.folds.first_facts(st, z3.substitute(r, (PI, i0), (PK, K)), ds.n)
    own = band(cmp_eq(s.isz, z), cmp_eq(s.dim, dim), bnot(same_text(E, st, m.o.keyat(PI), 'positions')), bnot(same_text(E, st, m.o.keyat(PI), 'indices')),
               sets.member(E, st, m.o.keyat(PI)))
    theirs = some(st, some(st, sets.member(E, st, text(PJ)), n, PJ), ds.n, PK)
    inside = some(st, bor(own, theirs), m.v.n, PI)

    def go(t):
        # a caller learns the list only, nothing about the probe
        t.write(a[0], sets.elements(E, inside, NAME, 32) if 'Manager::names' in E.cur else names_list(E, t, z))
        return ret(t)
    return cases(st, (bad, lambda t: throw(t, None)), (True, go))


def names_list(E, st, z):
    n = E.uf('manager_names_n', I, I)(ex(z))
    t = E.uf('manager_names_at', I, I, STR)
    st.assume(z3.And(n >= 0, n < (1 << 59)))
    return Vec(n, Arr(fn=lambda k: Rec({0: t(ex(z), ex(k))})), NAME, 32)


@contract('Manager::contains', M + r'contains\(', inputs=lambda c: [manager(c), c.uint('z'), string(c, 'name')], props=('C19',), unit='attributes/Manager')
def s_contains(E, st, a):
    p = Ptr(st.new_region('list', 'ghost', 24))
    x = st.read(a[2])
    out = []
    for o in s_names(E, st, [p, a[0], a[1]]):
        if o.kind != 'ret':
            out.append(o)
            continue
        v = o.st.read(p)
        i = E.folds.first_facts(o.st, ex(E.lib.streq(E, o.st, at(v.arr, K).f[0], x)), v.n)
        out += ret(o.st, cmp_lt(i, v.n))
    return out
