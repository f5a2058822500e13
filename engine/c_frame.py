"""Contracts of Dataframe: a map from names to series."""
from spec import *
import maps
from c_math import item_of

NAME, SERIE = 'std::basic_string<char, std::char_traits<char>, A>', 'df::Serie'
U32 = 1 << 32


def frame(c, nm='df', min_isz=0):
    """a Dataframe with any number of well-formed series"""
    E, st = c.E, c.st
    v = st.read(c.series('in_' + nm, min_isz))
    m, o = maps.fresh_map(E, st, nm, NAME, SERIE, lambda k: at(v.arr, k).f, n=v.n)
    rid = st.new_region('dataframe ' + nm, 'param', 56)
    p = Ptr(rid)
    st.write(p, c.uint('count_' + nm))
    maps.put(st, p.add(8), m, o)
    return p


def string(c, nm):
    p = Ptr(c.st.new_region('string ' + nm, 'param', 32))
    c.st.write(p, z3.Const('name_' + nm, STR))
    return p


class Map:
    """the map behind a pointer, by keys"""

    def __init__(self, E, st, p):
        self.p = p
        self.v, self.o = maps.get(E, st, p)
        self.E = E

    def pos(self, st, k):
        maps.facts(self.E, st, self.o, k)
        return self.o.pos(k)

    def has(self, st, k):
        return cmp_le(0, self.pos(st, k))

    def entry(self, st, k):
        """address of the Serie under a name that is known"""
        return self.p.elem(self.o.slot(self.pos(st, k))).add(32)


def store(E, st, p, k, s):
    """the map with the Serie s under the name k"""
    def known(t):
        m = Map(E, t, p)
        wser(t, m.entry(t, k), s.v, s.count, s.isz, s.dim)
        return [t]

    def new(t):
        m = Map(E, t, p)
        v, o, i = maps.inserted(E, t, m.v, m.o, NAME, k, Rec({0: k, 32: s.v, 56: s.count, 60: s.dim, 64: s.isz}))
        maps.put(t, p, v, o)
        return [t]
    return cases(st, (Map(E, st, p).has(st, k), known), (True, new))


def none(E):
    return Ser(Vec(0, Arr(fn=lambda m: E.dconst(0.0)), 'double', 8), 0, 0, 3)


def add_to(E, st, d, k, s):
    def go(t):
        return [x for x in store(E, t, d.add(8), k, s)]

    def first(t):
        t.write(d, s.count)
        return go(t)
    return [o for t in cases(st, (cmp_eq(st.read(d), 0), first), (True, go)) for o in ret(t)]


@contract('Dataframe::Dataframe', r'^df::Dataframe::Dataframe\(unsigned int\)$', inputs=lambda c: [Ptr(c.st.new_region('dataframe', 'sret', 56)), c.uint('count')],
          props=('C18',), unit='Dataframe')
def s_ctor(E, st, a):
    st.write(a[0], a[1])
    maps.put(st, a[0].add(8), *maps.empty(E, NAME, SERIE))
    return ret(st)


for _n in ('add', 'set'):
    @contract('Dataframe::%s' % _n, r'^df::Dataframe::%s\(' % _n, inputs=lambda c: [frame(c), string(c, 'k'), c.serie('s')], props=('C18',), unit='Dataframe')
    def s_add(E, st, a):
        return add_to(E, st, a[0], st.read(a[1]), ser(st, a[2]))


def its_own(c):
    d, s = an_entry(c)
    return [d, string(c, 'k'), s]


for _n in ('add', 'set'):
    @contract('Dataframe::%s of an entry' % _n, r'^df::Dataframe::%s\(' % _n, inputs=lambda c: its_own(c), props=('C18',), unit='Dataframe', site=False)
    def s_add_own(E, st, a):
        return add_to(E, st, a[0], st.read(a[1]), ser(st, a[2]))


@contract('Dataframe::create', r'^df::Dataframe::create\(', inputs=lambda c: [frame(c), string(c, 'k'), c.uint('z', 31), c.uint('count')],
          pre=lambda E, st, a: [('the Serie can be stored', cmp_lt(imul(a[2], a[3]), U32))], props=('C18',), unit='Dataframe')
def s_create(E, st, a):
    s = Ser(vec(E, imul(a[2], a[3]), lambda m: E.dconst(0.0)), a[3], a[2], 3)
    return add_to(E, st, a[0], st.read(a[1]), s)


@contract('Dataframe::del', r'^df::Dataframe::del\(', inputs=lambda c: [frame(c), string(c, 'k')], props=('C18',), unit='Dataframe')
def s_del(E, st, a):
    k = st.read(a[1])
    m = Map(E, st, a[0].add(8))

    def known(t):
        maps.put(t, m.p, *maps.removed(E, t, m.v, m.o, NAME, m.pos(t, k)))
        return ret(t)
    return cases(st, (m.has(st, k), known), (True, ret))


@contract('Dataframe::clear', r'^df::Dataframe::clear\(', inputs=lambda c: [frame(c)], props=('C18',), unit='Dataframe')
def s_clear(E, st, a):
    maps.put(st, a[0].add(8), *maps.empty(E, NAME, SERIE))
    return ret(st)


STRREF = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&|std::basic_string<char, std::char_traits<char>, A> const&|std::string const&'
for _n, _p in (('operator[]', r'operator\[\]'), ('get', 'get')):
    @contract('Dataframe::%s' % _n, r'^df::Dataframe::%s\([^)]*\)$' % _p, inputs=lambda c: [frame(c), string(c, 'k')], props=('C18',), unit='Dataframe')
    def s_at(E, st, a):
        k = st.read(a[1])
        m = Map(E, st, a[0].add(8))

        def new(t):
            return [x for u in store(E, t, m.p, k, none(E)) for x in ret(u, Map(E, u, m.p).entry(u, k))]
        return cases(st, (m.has(st, k), lambda t: ret(t, m.entry(t, k))), (True, new))

    @contract('Dataframe::%s const' % _n, r'^df::Dataframe::%s\([^)]*\) const$' % _p, inputs=lambda c: [frame(c), string(c, 'k')], props=('C18',), unit='Dataframe')
    def s_look(E, st, a):
        k = st.read(a[1])
        m = Map(E, st, a[0].add(8))
        return cases(st, (m.has(st, k), lambda t: ret(t, m.entry(t, k))), (True, lambda t: no_serie(E, t)))


def no_serie(E, t):
    """an invalid Serie that is not in the Dataframe"""
    p = Ptr(t.new_region('no serie', 'const', 40))
    s = none(E)
    wser(t, p, s.v, s.count, s.isz, s.dim)
    if not getattr(E, 'specmode', False):
        return ret(t, p)
    mine = set(t.regs) - {p.rid}

    def check(cs, o):
        if not isinstance(o.val, Ptr) or o.val.rid in mine and o.st.regs[o.val.rid].kind in ('param', 'sret', 'ghost'):
            return False
        s = ser(o.st, o.val)
        return all(E.prove_eq(cs, x, 0) for x in (s.v.n, s.count, s.isz))
    return ret(t, Opaque('check', check))


@contract('Dataframe::contains(name)', r'^df::Dataframe::contains\((?!df::Serie)', inputs=lambda c: [frame(c), string(c, 'k')], props=('C18',), unit='Dataframe')
def s_contains(E, st, a):
    return ret(st, Map(E, st, a[0].add(8)).has(st, st.read(a[1])))


@contract('Dataframe::series', r'^df::Dataframe::series(?:\[abi:cxx11\])?\(\) const$', inputs=lambda c: [frame(c)], props=('C18',), unit='nameOfSerie')
def s_series(E, st, a):
    return ret(st, a[0].add(8))


@contract('Dataframe::setCount', r'^df::Dataframe::setCount\(', inputs=lambda c: [frame(c), c.uint('c')], props=('C18',), unit='Dataframe',
          pre=lambda E, st, a: set_pre(E, st, a[0].add(8), a[1]))
def s_setcount(E, st, a):
    m = Map(E, st, a[0].add(8))
    c = a[1]

    def go(t):
        t.write(a[0], c)
        old = m.v.arr

        def el(k):
            f = dict(at(old, k).f)
            f[32] = const_vec(E, imul(c, f[64]), 'double', E.dconst(0.0))
            f[56] = c
            return Rec(f)
        t.write(m.p, Vec(m.v.n, Arr(fn=el), m.v.ety, m.v.es))
        return ret(t)
    return cases(st, (bor(cmp_eq(c, 0), cmp_eq(c, st.read(a[0]))), ret), (True, go))


def set_pre(E, st, p, c):
    v = st.read(p)
    k = E.fresh('k')
    z = at(v.arr, k).f[64]
    g = E.forall([k], z3.Implies(z3.And(0 <= k, k < ex(v.n)), ex(cmp_lt(imul(c, z), U32))))
    return [('every Serie can hold that count', g)]


# ------------------------------------------------------------------ the name of an entry
def entry_index(p, d):
    """index of the entry a Serie is, if it is one of this Dataframe"""
    if p.rid == d.rid and len(p.path) == 3 and p.path[0] == unint(d.path[0]) + 8 and p.path[2] == 32:
        return p.path[1]
    return None


def key_of(E, st, p, j):
    o = maps.get(E, st, p)[1]
    if o.slot(j) is not j:
        raise Fail('name of an entry after keys were added or removed')
    return o.keyat(j)


def an_entry(c):
    d = frame(c)
    j = c.uint('j')
    c.st.assume(cmp_lt(j, c.st.read(d.add(8)).n))
    return [d, d.add(8).elem(j).add(32)]


@contract('nameOfSerie', r'^df::nameOfSerie(?:\[abi:cxx11\])?\(', inputs=lambda c: [c.ret(32)] + an_entry(c), props=('C18',), unit='nameOfSerie')
def s_name(E, st, a):
    j = entry_index(a[2], a[1])
    st.write(a[0], strlit('') if j is None else key_of(E, st, a[1].add(8), j))
    return ret(st)


@contract('nameOfSerie of another Serie', r'^df::nameOfSerie(?:\[abi:cxx11\])?\(', inputs=lambda c: [c.ret(32), frame(c), c.serie('s')], props=('C18',), unit='nameOfSerie', site=False)
def s_noname(E, st, a):
    return s_name(E, st, a)


@contract('Dataframe::contains(Serie)', r'^df::Dataframe::contains\(df::Serie', inputs=an_entry, props=('C18',), unit='Dataframe')
def s_holds(E, st, a):
    j = entry_index(a[1], a[0])
    if j is None:
        return ret(st, False)
    k = key_of(E, st, a[0].add(8), j)
    st.assume(E.uf('strlen', STR, I)(k) >= 0)
    return ret(st, bnot(cmp_eq(E.uf('strlen', STR, I)(k), 0)))


@contract('Dataframe::contains(Serie) of another Serie', r'^df::Dataframe::contains\(df::Serie', inputs=lambda c: [frame(c), c.serie('s')], props=('C18',),
          unit='Dataframe', site=False)
def s_not_held(E, st, a):
    return ret(st, False)


# ------------------------------------------------------------------ lemmas
def lemma_map(E):
    st = State(E)
    v, o = maps.fresh_map(E, st, 'm', NAME, SERIE, lambda m: {24: E.uf('value', I, I)(ex(m))})
    return st, v, o


def well_formed(E, st, o):
    """keys and positions are inverse, elements of different positions are different"""
    i, j, x = E.fresh('i'), E.fresh('j'), E.fresh('x', STR)
    t = st.clone()
    t.assume(z3.And(0 <= i, i < ex(o.n), 0 <= j, j < ex(o.n)))
    yield 'the position of the key at a position', t.prove(ex(cmp_eq(o.pos(o.keyat(i)), i)))
    yield 'the key at the position of a key', st.prove(ex(bor(cmp_lt(o.pos(x), 0), o.keyat(o.pos(x)) == x)))
    yield 'positions are in range', st.prove(ex(band(cmp_le(-1, o.pos(x)), cmp_lt(o.pos(x), o.n))))
    t.assume(i != j)
    yield 'different positions have different elements', t.prove(bnot(cmp_eq(o.slot(i), o.slot(j))))


@lemma('adding and removing keys: a finite map from keys to elements', ('C18', 'C20'))
def l_map(E):
    k, x, y = z3.Const('k', STR), z3.Const('x', STR), z3.Int('y')
    val = lambda v, o, x: at(v.arr, o.slot(o.pos(x))).f[56]
    st, v, o = lemma_map(E)
    t = st.clone()
    maps.facts(E, t, o, k)
    maps.facts(E, t, o, x)
    a = t.clone()
    a.assume(cmp_lt(o.pos(k), 0))
    v2, o2, h = maps.inserted(E, a, v, o, NAME, k, Rec({0: k, 56: y}))
    yield 'the added key is known', a.prove(cmp_le(0, o2.pos(k)))
    yield 'with the added element', a.prove(cmp_eq(val(v2, o2, k), y))
    yield 'which is where the insertion says', a.prove(cmp_eq(o2.slot(o2.pos(k)), h))
    a.assume(x != k)
    yield 'other keys stay known or unknown', a.prove(ex(cmp_le(0, o2.pos(x))) == ex(cmp_le(0, o.pos(x))))
    a.assume(cmp_le(0, o.pos(x)))
    yield 'with their elements', a.prove(cmp_eq(val(v2, o2, x), val(v, o, x)))
    a = t.clone()
    a.assume(cmp_lt(o.pos(k), 0))
    v2, o2, h = maps.inserted(E, a, v, o, NAME, k, Rec({0: k, 56: y}))
    for lab, ok in well_formed(E, a, o2):
        yield 'after an insertion: ' + lab, ok
    a = t.clone()
    a.assume(cmp_le(0, o.pos(k)))
    v2, o2 = maps.removed(E, a, v, o, NAME, o.pos(k))
    yield 'the removed key is unknown', a.prove(cmp_lt(o2.pos(k), 0))
    b = a.clone()
    b.assume(x != k)
    yield 'the others stay known or unknown', b.prove(ex(cmp_le(0, o2.pos(x))) == ex(cmp_le(0, o.pos(x))))
    b.assume(cmp_le(0, o.pos(x)))
    yield 'with the same elements', b.prove(cmp_eq(o2.slot(o2.pos(x)), o.slot(o.pos(x))))
    for lab, ok in well_formed(E, a, o2):
        yield 'after a removal: ' + lab, ok


@lemma('two operations on a Dataframe: each name has what was last stored under it', ('C18',))
def l_frame(E):
    def start():
        c = Ctx(E)
        return c, frame(c), string(c, 'k'), string(c, 'x'), c.serie('s')

    def look(st, d, k):
        for o in s_look(E, st.clone(), [d, k]):
            if o.st.feasible():
                yield o
    for nm in ('add', 'create', 'del', 'setCount'):
        c, d, k, x, s = start()
        st = c.st
        kt, xt = st.read(k), st.read(x)
        n = c.uint('n')
        if nm == 'add':
            outs = s_add(E, st.clone(), [d, k, s])
        elif nm == 'create':
            outs = s_create(E, st.clone(), [d, k, n, n])
        elif nm == 'del':
            outs = s_del(E, st.clone(), [d, k])
        else:
            outs = s_setcount(E, st.clone(), [d, n])
        for o in outs:
            t = o.st
            m0, m1 = Map(E, st, d.add(8)), Map(E, t, d.add(8))
            for w in look(t, d, k):
                known = isinstance(w.val, Ptr) and w.val.rid == d.rid
                if nm == 'del':
                    yield 'a removed name is unknown', not known
                elif nm != 'setCount':
                    yield '%s: the name is known' % nm, known
                    if nm == 'add' and known:
                        r, q = ser(w.st, w.val), ser(st, s)
                        yield 'add: under the name is the Serie', all(E.prove_same(w.st, getattr(r, f), getattr(q, f)) for f in ('v', 'count', 'isz', 'dim'))
            t2 = t.clone()
            t2.assume(kt != xt)
            for w in look(t2, d, x):
                known = isinstance(w.val, Ptr) and w.val.rid == d.rid
                u = w.st
                had = m0.has(u, xt)
                yield '%s: another name stays known or unknown' % nm, u.prove(had if known else bnot(had))
                if known and nm != 'setCount':
                    u.assume(had)
                    r, q = ser(u, w.val), at(m0.v.arr, m0.o.pos(xt), u).f
                    yield '%s: and keeps its Serie' % nm, E.prove_same(u, r.v, q[32]) and all(E.prove_same(u, y, z) for y, z in ((r.count, q[56]), (r.isz, q[64]), (r.dim, q[60])))
                if known and nm == 'setCount':
                    r = ser(u, w.val)
                    u.assume(band(cmp_lt(0, n), bnot(cmp_eq(n, st.read(d)))))
                    yield 'a new common count is the count of every Serie', u.prove(cmp_eq(r.count, n)) and E.prove_eq(u, r.v.n, imul(n, r.isz))
