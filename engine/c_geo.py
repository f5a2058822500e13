"""Contracts of functional/geo: normals, areas, insar, fringes and the cartesian grids."""
from spec import *
import loops
import fold as _f
from c_math import item_of, TINY
from c_alg import items, scalars, choose, invalid, is_valid, sqsum, total

U = 'functional/geo/'
G = r'^df::geo::'
SC = r'df::Serie const&'
AC = r'std::vector<double, A> const&'


def fits_u32(E, x):
    if E.mode == 'real':
        return z3.And(x > -1, x < (1 << 32))
    return E.uf('fits_u32', E.D, z3.BoolSort())(x)


def vertex_number(E, t, x):
    E.quiet += 1
    i = E.d2i(t, x, 32, False)
    E.quiet -= 1
    return i


def mesh_inputs(c):
    a = [c.ret(40), c.serie('positions'), c.serie('indices')]
    E, st = c.E, c.st
    i = ser(st, a[2])
    m = z3.Int('m!idx')
    x = at(i.v.arr, m, st)
    st.assume(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < ex(imul(i.count, i.isz))), fits_u32(E, x)), patterns=[x]))
    return a


def mesh_pre(E, st, a):
    i = ser(st, a[2])
    t = st.clone()
    m = E.fresh('k')
    t.assume(z3.And(m >= 0, m < ex(imul(i.count, i.isz))))
    return [('vertex numbers are representable', z3.Implies(z3.And(m >= 0, m < ex(imul(i.count, i.isz))), fits_u32(E, at(i.v.arr, m, t))))]


def normal_of(E, t, p, i):
    """(q, r) -> component r of the normal of triangle q"""
    def el(q, r):
        v = [imul(vertex_number(E, t, at(i.v.arr, iadd(iscale(q, 3), j), t)), 3) for j in range(3)]
        x = lambda j, k: at(p.v.arr, iadd(v[j], k), t)
        e1 = [E.fbin('fsub', x(1, k), x(0, k)) for k in range(3)]
        e2 = [E.fbin('fsub', x(2, k), x(0, k)) for k in range(3)]
        mul = lambda a, b: E.fbin('fmul', a, b)
        cr = lambda a, b: E.fbin('fsub', mul(e1[a], e2[b]), mul(e1[b], e2[a]))
        return choose(r, [cr(1, 2), cr(2, 0), cr(0, 1)])
    return el


def bad_triangle(E, t, p, i):
    """number of the first triangle with a vertex outside the positions"""
    c = bor(*[bnot(cmp_lt(vertex_number(E, t, at(i.v.arr, iadd(iscale(K, 3), j), t)), p.count)) for j in range(3)])
    return E.folds.first_facts(t, ex(c), i.count)


def mesh_cases(E, st, p, i, none, f):
    def go(t):
        b = bad_triangle(E, t, p, i)
        return cases(t, (cmp_lt(b, i.count), throw), (True, f))
    return cases(st, (bnot(band(is_valid(p), is_valid(i))), none), (bnot(band(cmp_eq(p.isz, 3), cmp_eq(i.isz, 3))), none), (True, go))


@contract('geo::normals', G + r'normals\(%s, %s\)$' % (SC, SC), inputs=mesh_inputs, pre=mesh_pre, props=('C17',), unit=U + 'normals', sizes={'positions': [3], 'indices': [3]})
def s_normals(E, st, a):
    p, i = ser(st, a[1]), ser(st, a[2])
    return mesh_cases(E, st, p, i, invalid(E, a[0]), lambda t: items(E, t, a[0], i.count, 3, normal_of(E, t, p, i)))


@contract('geo::areas', G + r'areas\(%s, %s\)$' % (SC, SC), inputs=mesh_inputs, pre=mesh_pre, props=('C17',), unit=U + 'areas', sizes={'positions': [3], 'indices': [3]})
def s_areas(E, st, a):
    p, i = ser(st, a[1]), ser(st, a[2])

    def go(t):
        el = normal_of(E, t, p, i)

        def m_of(m):
            q, r = item_of(E, m, 3)
            return el(q, r)
        n = Ser(vec(E, imul(i.count, 3), m_of), i.count, 3, 3)
        return scalars(E, t, a[0], i.count, lambda q: E.fbin('fdiv', E.ffun('sqrt', sqsum(E, t, n, q)), E.dconst(2.0)))
    none = lambda t: outserie(E, t, a[0], empty_vec(E, 'double'), anyval(E, t), anyval(E, t))
    return mesh_cases(E, st, p, i, none, go)


@contract('geo::insar', G + r'insar\(%s, %s\)$' % (SC, AC), inputs=lambda c: [c.ret(40), c.serie('u'), c.array('los')], props=('C17',), unit=U + 'insar',
          sizes={'u': [3]})
def s_insar(E, st, a):
    u, w = ser(st, a[1]), st.read(a[2])
    return cases(st, (bnot(band(cmp_eq(u.isz, 3), cmp_eq(w.n, 3))), invalid(E, a[0])),
                 (True, lambda t: scalars(E, t, a[0], u.count, lambda q: total(E, 3, lambda k: E.fbin('fmul', at(u.v.arr, iadd(imul(q, 3), k), t), at(w.arr, k, t))))))


@contract('geo::fringes', G + r'fringes\(%s, double\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s'), c.dbl('spacing')], props=('C17',), unit=U + 'insar',
          sizes={'s': [1]})
def s_fringes(E, st, a):
    s, d = ser(st, a[1]), a[2]

    def el(t):
        def f(q):
            x = E.fbin('fdiv', at(s.v.arr, q, t), d)
            return E.ffun('fabs', E.fbin('fmul', d, E.fbin('fsub', x, E.ffun('floor', x))))
        return f
    return cases(st, (bnot(cmp_eq(s.isz, 1)), invalid(E, a[0])), (True, lambda t: scalars(E, t, a[0], s.count, el(t))))


# ------------------------------------------------------------------ grids
def grid_inputs(c):
    E, st = c.E, c.st
    rid = st.new_region('npts', 'param', 24)
    f = E.uf('npts', I, I)
    n = c.size('dims', 60)
    k = z3.Int('k!npts')
    st.assume(z3.ForAll([k], z3.And(f(k) >= 0, f(k) < (1 << 32)), patterns=[f(k)]))
    for i in range(3):
        set_stride(f(i), 2.9 - i * .1)
    for i in range(3):
        st.assume(z3.And(f(i) >= 0, f(i) < (1 << 32)))
    st.wreg(rid).cells[0] = Vec(n, Arr(fn=lambda m: f(ex(m))), 'unsigned int', 4)
    return [c.ret(40), Ptr(rid), c.array('a'), c.array('b')]


def grid_pre(E, st, a):
    v = st.read(a[1])
    if not isint(v.n) or v.n not in (1, 2, 3):
        return []
    p = at(v.arr, 0, st)
    out = []
    for i in range(1, v.n):
        out.append(('the points of a layer can be counted', cmp_lt(p, 1 << 32)))
        p = imul(p, at(v.arr, i, st))
    return out + [('the points can be stored', cmp_lt(imul(p, 3), 1 << 32))]


def grid_spec(coord):
    def spec(E, st, a):
        v, x, y = st.read(a[1]), st.read(a[2]), st.read(a[3])

        def go(t):
            d = v.n
            n = [at(v.arr, k, t) if k < d else 1 for k in range(3)]
            tot = imul(imul(n[0], n[1]), n[2])

            def el(q, r):
                i, j, k = q, 0, 0
                if d > 1:
                    j, i = item_of(E, q, n[0])
                if d > 2:
                    k, j = item_of(E, j, n[1])
                return choose(r, [coord(E, t, x, y, c, m, n[c] if c < d else None) for c, m in enumerate((i, j, k))])
            return items(E, t, a[0], tot, 3, el)
        return cases(st, (bor(cmp_eq(v.n, 0), cmp_lt(3, v.n)), throw), (bnot(band(cmp_eq(x.n, 3), cmp_eq(y.n, 3))), throw), (True, go))
    return spec


def spread(E, n, length):
    """distance of two neighbours among n points spread over a length"""
    return ite(cmp_lt(1, n), E.fbin('fdiv', length, E.i2d(isub(n, 1))), E.dconst(0.0)) if n is not None else E.dconst(0.0)


def around(E, t, x, y, c, m, n):
    x, y = at(x.arr, c, t), at(y.arr, c, t)
    return E.fbin('fadd', E.fbin('fsub', x, E.fbin('fdiv', y, E.dconst(2.0))), E.fbin('fmul', E.i2d(m), spread(E, n, y)))


def between(E, t, x, y, c, m, n):
    x, y = at(x.arr, c, t), at(y.arr, c, t)
    return E.fbin('fadd', x, E.fbin('fmul', E.i2d(m), spread(E, n, E.fbin('fsub', y, x))))


for _n, _f in (('from_dims', around), ('from_points', between)):
    contract('grid::cartesian::' + _n, r'^df::grid::cartesian::%s\(' % _n, inputs=grid_inputs, pre=grid_pre, props=('C17',), unit='u_grid',
             sizes={'dims': [0, 1, 2, 3]})(grid_spec(_f))


def valid(*a):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*a[:-1])
    s.add(z3.Not(a[-1]))
    return s.check() == z3.unsat


@lemma('a normal is perpendicular to both edges, and zero for a degenerate triangle', ('C17',))
def l_normal(E):
    a, b = z3.Reals('ax ay az'), z3.Reals('bx by bz')
    n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    dot = lambda x, y: sum(p * q for p, q in zip(x, y))
    yield 'perpendicular to the first edge', z3.simplify(dot(n, a), som=True).eq(z3.RealVal(0))
    yield 'perpendicular to the second edge', z3.simplify(dot(n, b), som=True).eq(z3.RealVal(0))
    k = z3.Real('k')
    yield 'zero when the edges are parallel', all(z3.simplify(z3.substitute(x, *[(b[i], k * a[i]) for i in range(3)]), som=True).eq(z3.RealVal(0)) for x in n)


@lemma('the grid points go regularly from one end to the other', ('C17',))
def l_grid(E):
    x, y, s = z3.Reals('x y s')
    n, i = z3.Ints('n i')
    h = [n > 1, s * z3.ToReal(n - 1) == y]
    yield 'from_dims starts half the size before the centre and ends half the size after it', valid(*h, x - y / 2 + z3.ToReal(n - 1) * s == x + y / 2)
    yield 'from_points ends at the second point', valid(*h, x + z3.ToReal(n - 1) * s == x + y)


@lemma('a fringe lies within the spacing', ('C17',))
def l_fringe(E):
    x, d = z3.Reals('x d')
    f = x - z3.ToReal(z3.ToInt(x))
    yield 'the fractional position is in [0,1)', valid(z3.And(f >= 0, f < 1))
    t = z3.Real('t')
    yield 'spacing times it is within the spacing', valid(t >= 0, t < 1, d > 0, z3.And(d * t >= 0, d * t < d))
