"""Contracts of the attributes: what each decomposer lists and resolves, over a Dataframe with any series."""
from spec import *
import maps
from c_frame import frame, string, Map, none, NAME, entry_index, key_of, an_entry
from c_alg import scalars, items, invalid, is_valid, choose, sqsum
from c_geo import normal_of, mesh_cases, fits_u32, vertex_number, mesh_pre
import c_eig
import fold as _f
from execu import Frame

D = r'^df::'
SIG = r'\(df::Dataframe const&, unsigned int, [^{$]*\) const$'


def number(E, s):
    return E.uf('strlen', STR, I)(s)


def char(E, s, i):
    return E.uf('strch', STR, I, I)(s, ex(i))


def texts(c, nm):
    """a vector of any number of strings"""
    E = c.E
    f = E.uf('text_' + nm, I, STR)
    n = c.uint('n_' + nm)
    return Vec(n, Arr(fn=lambda k: Rec({0: f(ex(k))})), NAME, 32)


def vtable(c, cls):
    """the object is of that class exactly"""
    name = '_ZTVN2df%d%sE' % (len(cls), cls)
    for m in c.E.prog.mods:
        if name in m.globals:
            return c.E.gval(c.st, Frame(None, m, 0), name).add(16)
    return Opaque('vtable')


def this(c, cls):
    """a decomposer: its own name, or the names of its coordinates"""
    p = Ptr(c.st.new_region(cls, 'param', 40))
    c.st.write(p, vtable(c, cls))
    if cls == 'Coordinates':
        c.st.write(p.add(8), texts(c, 'names'))
    elif cls in ('Normals', 'Area', 'Valence'):
        c.st.write(p.add(8), z3.Const('own_name', STR))
    return p


def resolve_in(cls):
    return lambda c: [c.ret(40), this(c, cls), frame(c), c.size('z'), string(c, 'name')]


def list_in(cls):
    return lambda c: [c.ret(24), this(c, cls), frame(c), c.uint('z'), c.serie('s'), string(c, 'name')]


def entry(E, st, df, name, f):
    """f(state, Serie) for the entry with that name, or an invalid Serie"""
    k = strlit(name) if isinstance(name, str) else name
    m = Map(E, st, df.add(8))
    return cases(st, (m.has(st, k), lambda t: f(t, ser(t, m.entry(t, k)))), (True, lambda t: f(t, none(E))))


def has(E, st, df, name):
    return Map(E, st, df.add(8)).has(st, strlit(name))


def strings(E, st, p, ts):
    st.write(p, Vec(len(ts), Arr(fn=list_fn([Rec({0: t}) for t in ts])), NAME, 32))
    return ret(st)


def same_text(E, st, x, lit):
    return E.lib.streq(E, st, x, strlit(lit))


# ------------------------------------------------------------------ the base: nothing
@contract('Decomposer::names', D + r'Decomposer::names(?:\[abi:cxx11\])?' + SIG, inputs=list_in('Decomposer'), props=('C19',), unit='attributes/Decomposer')
def s_base_names(E, st, a):
    return strings(E, st, a[0], [])


@contract('Decomposer::serie', D + r'Decomposer::serie' + SIG, inputs=resolve_in('Decomposer'), props=('C19',), unit='attributes/Decomposer')
def s_base(E, st, a):
    return invalid(E, a[0])(st)


# ------------------------------------------------------------------ coordinates
@contract('Coordinates::names', D + r'Coordinates::names(?:\[abi:cxx11\])?' + SIG, inputs=list_in('Coordinates'), props=('C19',), unit='attributes/Coordinates')
def s_coord_names(E, st, a):
    v = st.read(a[1].add(8))

    def all_names(t):
        t.write(a[0], v)
        return ret(t)
    return cases(st, (band(cmp_eq(a[3], 1), same_text(E, st, st.read(a[5]), 'positions')), all_names), (True, lambda t: strings(E, t, a[0], [])))


@contract('Coordinates::serie', D + r'Coordinates::serie' + SIG, inputs=resolve_in('Coordinates'), props=('C19',), unit='attributes/Coordinates')
def s_coord(E, st, a):
    v, x = st.read(a[1].add(8)), st.read(a[4])

    def go(t, s):
        i = E.folds.first_facts(t, ex(x == at(v.arr, K).f[0]), v.n)
        found = lambda u: scalars(E, u, a[0], s.count, lambda q: at(s.v.arr, iadd(imul(q, s.isz), i), u))
        return cases(t, (band(cmp_lt(i, v.n), cmp_lt(i, s.isz)), found), (True, invalid(E, a[0])))
    return cases(st, (cmp_eq(a[3], 1), lambda t: entry(E, t, a[2], 'positions', go)), (True, invalid(E, a[0])))


# ------------------------------------------------------------------ normals, areas, valence of the mesh of positions and indices
def mesh_names(E, st, a, z):
    ok = band(cmp_eq(a[3], z), has(E, st, a[2], 'positions'), has(E, st, a[2], 'indices'))
    return cases(st, (ok, lambda t: strings(E, t, a[0], [t.read(a[1].add(8))])), (True, lambda t: strings(E, t, a[0], [])))


for _n, _z, _u in (('Normals', 3, 'Normals'), ('Area', 1, 'Areas'), ('Valence', 1, 'Valence')):
    contract(_n + '::names', D + _n + r'::names(?:\[abi:cxx11\])?' + SIG, inputs=list_in(_n), props=('C19',), unit='attributes/' + _u)(
        lambda E, st, a, z=_z: mesh_names(E, st, a, z))


def mesh_in(cls):
    def inputs(c):
        a = resolve_in(cls)(c)
        E, st = c.E, c.st
        m = Map(E, st, a[2].add(8))
        k = strlit('indices')
        s = at(m.v.arr, m.pos(st, k)).f
        j = z3.Int('m!idx')
        x = at(s[32].arr, j)
        st.assume(z3.Implies(ex(m.has(st, k)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ex(imul(s[56], s[64]))), fits_u32(E, x)), patterns=[x])))
        return a
    return inputs


def mesh(E, st, a, f, none_):
    def go(t, p):
        def go2(u, i):
            return mesh_cases(E, u, p, i, none_, lambda w: f(w, p, i))
        return entry(E, t, a[2], 'indices', go2)
    mine = E.lib.streq(E, st, st.read(a[4]), st.read(a[1].add(8)))
    return cases(st, (mine, lambda t: entry(E, t, a[2], 'positions', go)), (True, invalid(E, a[0])))


@contract('Normals::serie', D + r'Normals::serie' + SIG, inputs=mesh_in('Normals'), props=('C19',), unit='attributes/Normals')
def s_normals(E, st, a):
    return mesh(E, st, a, lambda t, p, i: items(E, t, a[0], i.count, 3, normal_of(E, t, p, i)), invalid(E, a[0]))


@contract('Area::serie', D + r'Area::serie' + SIG, inputs=mesh_in('Area'), props=('C19',), unit='attributes/Areas')
def s_area(E, st, a):
    def f(t, p, i):
        el = normal_of(E, t, p, i)

        def area(q):
            xs = [el(q, r) for r in range(3)]
            t = E.dconst(0.0)
            for x in xs:
                t = E.fbin('fadd', t, E.fbin('fmul', x, x))
            return E.fbin('fdiv', E.ffun('sqrt', t), E.dconst(2.0))
        return scalars(E, t, a[0], i.count, area)
    return mesh(E, st, a, f, invalid(E, a[0]))


def vertex(E, t, x):
    E.quiet += 1
    i = E.d2i(t, x, 64, False)
    E.quiet -= 1
    return i


@contract('Valence::serie', D + r'Valence::serie' + SIG, inputs=resolve_in('Valence'), props=('C19',), mode='real', unit='attributes/Valence')
def s_valence(E, st, a):
    def go(t, p):
        def go2(u, i):
            x = [at(i.v.arr, iadd(imul(K, i.isz), j), u) for j in range(3)]
            ok = band(*[band(E.fcmp('oge', y, E.dconst(0.0)), E.fcmp('olt', y, E.i2d(p.count))) for y in x])
            b = E.folds.first_facts(u, ex(bnot(ok)), i.count)

            def count(w):
                idx = [vertex(E, w, y) for y in x]

                def el(j):
                    e = _f.accc(E.D)
                    for k in idx:
                        e = ite(cmp_eq(k, j), E.fbin('fadd', e, E.dconst(1.0)), e)
                    return E.folds.fold(E.dconst(0.0), e, i.count)
                return outserie(E, w, a[0], vec(E, p.count, el), p.count, 1)
            return cases(u, (bnot(band(is_valid(p), is_valid(i), cmp_eq(i.isz, 3))), invalid(E, a[0])), (cmp_lt(b, i.count), throw), (True, count))
        return entry(E, t, a[2], 'indices', go2)
    mine = E.lib.streq(E, st, st.read(a[4]), st.read(a[1].add(8)))
    return cases(st, (mine, lambda t: entry(E, t, a[2], 'positions', go)), (True, invalid(E, a[0])))


# ------------------------------------------------------------------ eigen values and vectors
def eigen_names(E, st, a, vectors):
    s, x = ser(st, a[4]), st.read(a[5])
    special = bor(same_text(E, st, x, 'positions'), same_text(E, st, x, 'indices'))
    nms = lambda n: lambda t: strings(E, t, a[0], [E.lib.concat(E, [x, strlit(str(i + 1))]) for i in range(n)])
    nothing = lambda t: strings(E, t, a[0], [])
    z = s.dim if vectors else 1
    return cases(st, (bor(special, bnot(cmp_eq(a[3], z))), nothing), (band(cmp_eq(s.dim, 2), cmp_eq(s.isz, 3)), nms(2)),
                 (band(cmp_eq(s.dim, 3), cmp_eq(s.isz, 6)), nms(3)), (True, nothing))


for _n, _v in (('EigenValues', False), ('EigenVectors', True)):
    contract(_n + '::names', D + _n + r'::names(?:\[abi:cxx11\])?' + SIG, inputs=list_in(_n), props=('C19',), unit='attributes/' + _n)(
        lambda E, st, a, v=_v: eigen_names(E, st, a, v))


def prefix(E, x, n):
    return E.uf('strsub', STR, I, I, STR)(x, z3.IntVal(0), ex(n))


def eigen_serie(E, st, a, vectors):
    x, z = st.read(a[4]), a[3]
    no = invalid(E, a[0])

    def go(t):
        n = number(E, x)
        k = isub(char(E, x, isub(n, 1)), ord('1'))

        def look(u, s):
            def res(n):
                def f(w):
                    if vectors:
                        el = lambda q, r: choose(iadd(imul(k, n), r), [c_eig.vector(E, n, j, c_eig.column(E, w, s, q, n)) for j in range(n * n)])
                        return items(E, w, a[0], s.count, n, el)
                    return scalars(E, w, a[0], s.count, lambda q: choose(k, [c_eig.value(E, n, j, c_eig.column(E, w, s, q, n)) for j in range(n)]))
                return lambda w: cases(w, (band(cmp_le(0, k), cmp_lt(k, n)), f), (True, no))
            return cases(u, (bnot(cmp_eq(z, s.dim if vectors else 1)), no), *c_eig.by_shape(s, res(2), res(3), no))
        return entry(E, t, a[2], prefix(E, x, isub(n, 1)), look)
    st.assume(number(E, x) >= 0)
    return cases(st, (cmp_eq(number(E, x), 0), no), (True, go))


for _n, _v in (('EigenValues', False), ('EigenVectors', True)):
    contract(_n + '::serie', D + _n + r'::serie' + SIG, inputs=resolve_in(_n), props=('C19',), unit='attributes/' + _n, sizes={'z': [2, 3]} if _v else {})(
        lambda E, st, a, v=_v: eigen_serie(E, st, a, v))


# ------------------------------------------------------------------ components
BLOCKS = {(2, 2): 'x y', (2, 3): 'xx xy yy', (2, 4): 'xx xy yx yy', (3, 3): 'x y z', (3, 6): 'xx xy xz yy yz zz', (3, 9): 'xx xy xz yx yy yz zx zy zz'}


def is_block(s, d, n):
    return band(cmp_eq(s.isz, n), cmp_eq(s.dim, 2) if d == 2 else bnot(cmp_eq(s.dim, 2)))


def component_names(E, st, a):
    s, x = ser(st, a[4]), st.read(a[5])
    j = entry_index(a[4], a[2])
    own = strlit('') if j is None else key_of(E, st, a[2].add(8), j)
    no = lambda t: strings(E, t, a[0], [])
    cs = [(bor(same_text(E, st, x, 'positions'), same_text(E, st, x, 'indices')), no),
          (band(E.lib.streq(E, st, x, own), cmp_eq(s.isz, 1)), no), (cmp_lt(1, a[3]), no)]
    for (d, n), ws in BLOCKS.items():
        cs.append((is_block(s, d, n), lambda t, ws=ws: strings(E, t, a[0], [E.lib.concat(E, [x, strlit(w)]) for w in ws.split()])))

    def numbered(t):
        t.write(a[0], Vec(s.isz, Arr(fn=lambda i: Rec({0: E.lib.concat(E, [x, E.uf('to_string_i', I, STR)(ex(i))])})), NAME, 32))
        return ret(t)
    return cases(st, *(cs + [(True, numbered)]))


def entry_list_in(cls):
    def inputs(c):
        d, s = an_entry(c)
        return [c.ret(24), this(c, cls), d, c.uint('z'), s, string(c, 'name')]
    return inputs


contract('Components::names', D + r'Components::names(?:\[abi:cxx11\])?' + SIG, inputs=list_in('Components'), props=('C19',), unit='attributes/Components')(component_names)
contract('Components::names of an entry', D + r'Components::names(?:\[abi:cxx11\])?' + SIG, inputs=entry_list_in('Components'), props=('C19',),
         unit='attributes/Components', site=False)(component_names)


def component(E, st, a):
    """the component that has this name: of the entry the name starts with, or else of the first entry that lists it"""
    x, z, df = st.read(a[4]), a[3], a[2].add(8)
    no = invalid(E, a[0])
    n = number(E, x)
    st.assume(n >= 0)
    val = lambda s, i: lambda t: scalars(E, t, a[0], s.count, lambda q: at(s.v.arr, iadd(imul(q, s.isz), i), t))
    cs = [(cmp_lt(1, z), no)]
    for l in (1, 2):
        k = prefix(E, x, isub(n, l))
        m = Map(E, st, df)
        m.pos(st, k)
        e = at(m.v.arr, m.o.pos(k)).f
        s = Ser(e[32], e[56], e[64], e[60])
        for (d, b), ws in BLOCKS.items():
            for i, w in enumerate(ws.split()):
                if len(w) == l:
                    end = [cmp_eq(char(E, x, iadd(isub(n, l), j)), ord(c)) for j, c in enumerate(w)]
                    cs.append((band(cmp_le(l, n), cmp_le(0, m.o.pos(k)), is_block(s, d, b), *end), val(s, i)))
    return cases(st, *(cs + [(True, lambda t: listed(E, t, a, x, val, no))]))


def listed(E, st, a, x, val, no):
    """the first entry, in the order of the names, with a name x in its list of components"""
    df = a[2].add(8)
    m = Map(E, st, df)
    eq = lambda t, y: ex(E.lib.streq(E, t, x, y))

    def names(t, j):
        """[(case of the entry, hits)] of the entry at j"""
        key, e = m.o.keyat(j), at(m.v.arr, j).f
        s = Ser(e[32], e[56], e[64], e[60])
        bad = bor(same_text(E, t, key, 'positions'), same_text(E, t, key, 'indices'), cmp_eq(s.isz, 1))
        cs, rest = [], bnot(bad)
        for (d, b), ws in BLOCKS.items():
            c = is_block(s, d, b)
            cs.append((band(bnot(bad), c), [eq(t, E.lib.concat(E, [key, strlit(w)])) for w in ws.split()]))
            rest = band(rest, bnot(c))
        num = lambda q: eq(t, E.lib.concat(E, [key, E.uf('to_string_i', I, STR)(q)]))
        return s, cs, rest, num
    J = z3.Int('m!entry')
    s, cs, rest, num = names(st, J)
    f, _, _ = E.folds.first(num(K), s.isz)
    some = bor(*([band(c, bor(*hits)) for c, hits in cs] + [band(rest, cmp_lt(f, s.isz))]))
    found = E.folds.first_facts(st, z3.substitute(ex(some), (J, K)), m.v.n)

    def hit(t):
        s, cs, rest, num = names(t, found)
        out = []
        for c, hits in cs:
            for i, h in enumerate(hits):
                out.append((band(c, h), val(s, i)))
        i = E.folds.first_facts(t, num(K), s.isz)
        return cases(t, *(out + [(True, val(s, i))]))
    return cases(st, (cmp_lt(found, m.v.n), hit), (True, no))


contract('Components::serie', D + r'Components::serie' + SIG, inputs=resolve_in('Components'), props=('C19',), unit='attributes/Components')(component)
