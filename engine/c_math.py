"""Contracts of the elementwise arithmetic (functional/math): add, sub, mult, div, scale, negate, weigthedSum."""
from spec import *
import loops

U = 'functional/math/'
M = r'^df::math::'
SC = r'df::Serie const&'
AC = r'std::vector<double, A> const&'
TINY = 1e-10


def item_of(E, m, z):
    q, r = loops.rowsplit(E, m, z)
    return ex(q), ex(r)


def shaped(E, st, p, s, f):
    """a Serie of the shape of s whose value at flat position m is f(m); without items its item size is left open,
    without components the count too"""
    n = imul(s.count, s.isz)

    def go(t):
        return outserie(E, t, p, vec(E, n, f), s.count, s.isz)

    def empty(t):
        return outserie(E, t, p, empty_vec(E, 'double'), 0, anyval(E, t))

    def flat(t):
        return outserie(E, t, p, empty_vec(E, 'double'), anyval(E, t), anyval(E, t))
    return cases(st, (cmp_eq(s.count, 0), empty), (cmp_eq(s.isz, 0), flat), (True, go))


def full(E, st, p, s, f):
    """the same with item size and count of s in every case"""
    return outserie(E, st, p, vec(E, imul(s.count, s.isz), f), s.count, s.isz)


def rowwise(E, st, p, s, f):
    """the same with the value of component r of item q given as f(q, r, v)"""
    def el(m):
        q, r = item_of(E, m, s.isz)
        return f(q, r, at(s.v.arr, m, st))
    return shaped(E, st, p, s, el)


def same_shape(s, o):
    return band(cmp_eq(s.count, o.count), cmp_eq(s.isz, o.isz))


def isz1(s):
    return cmp_eq(s.isz, 1)


# ------------------------------------------------------------------ lists of series
def slist(c, nm='series'):
    p, *_ = (c.series(nm), )
    o = c.obj('initializer_list', 16)
    c.st.write(o, Ptr(p.rid, (0, 0, 0)))
    c.st.write(o.add(8), c.st.read(p).n)
    return o


def lser(E, st, v, j):
    """element j of a vector of series"""
    e = at(v.arr, j, st)
    return Ser(e.f[0], e.f[24], e.f[32], e.f[28])


def list_of(E, st, p):
    return E.lib.init_list(E, st, st.read(p), st.read(p.add(8)), 'df::Serie')


def bad_shape(E, st, v, lo):
    """some Serie after the first has another count or item size"""
    s0 = lser(E, st, v, 0)
    sk = lser(E, st, v, iadd(K, lo))
    return ex(bor(bnot(cmp_eq(s0.count, sk.count)), bnot(cmp_eq(s0.isz, sk.isz))))


def sumlist_spec(op):
    def spec(E, st, a):
        v = list_of(E, st, a[1])

        def body(t):
            n1 = isub(v.n, 1)
            f = E.folds.first_facts(t, bad_shape(E, t, v, 1), n1)

            def good(u):
                s0 = lser(E, u, v, 0)
                acc = _f.accc(E.D)

                def el(q, r, x):
                    sk = lser(E, u, v, iadd(K, 1))
                    y = at(sk.v.arr, iadd(imul(q, sk.isz), r), u)
                    return E.folds.fold(x, E.fbin(op, acc, y), n1)
                return rowwise(E, u, a[0], s0, el)
            return cases(t, (cmp_eq(f, n1), good), (True, throw))
        return cases(st, (cmp_eq(v.n, 0), throw), (True, body))
    return spec


import fold as _f
for _n, _op in (('add', 'fadd'), ('sub', 'fsub')):
    contract('math::%s(list)' % _n, M + r'%s\(std::initializer_list<df::Serie> const&\)$' % _n, inputs=lambda c: [c.ret(40), slist(c)],
             props=('C11',), unit=U + _n)(sumlist_spec(_op))

    def _mk(n, op):
        @contract('math::%s(Serie,double)' % n, M + r'%s\(%s, double\)$' % (n, SC), inputs=lambda c: [c.ret(40), c.serie('s'), c.dbl('d')],
                  props=('C11',), unit=U + n)
        def _s(E, st, a):
            s = ser(st, a[1])
            return cases(st, (bnot(isz1(s)), throw), (True, lambda t: shaped(E, t, a[0], s, lambda m: E.fbin(op, at(s.v.arr, m, t), a[2]))))

        @contract('math::%s(Serie,Serie)' % n, M + r'%s\(%s, %s\)$' % (n, SC, SC), inputs=lambda c: [c.ret(40), c.serie('s'), c.serie('o')],
                  props=('C11',), unit='u_math')
        def _b(E, st, a):
            s, o = ser(st, a[1]), ser(st, a[2])
            return cases(st, (bnot(same_shape(s, o)), throw),
                         (True, lambda t: full(E, t, a[0], s, lambda m: E.fbin(op, at(s.v.arr, m, t), at(o.v.arr, m, t)))))
        for k in (3, 4):
            def many(E, st, a, k=k):
                ss = [ser(st, p) for p in a[1:]]

                def el(t, m):
                    x = at(ss[0].v.arr, m, t)
                    if op == 'fadd':
                        x = E.fbin('fadd', E.dconst(0.0), x)
                    for o in ss[1:]:
                        x = E.fbin(op, x, at(o.v.arr, m, t))
                    return x
                return cases(st, *([(bnot(same_shape(ss[0], o)), throw) for o in ss[1:]] +
                                   [(True, lambda t: full(E, t, a[0], ss[0], lambda m: el(t, m)))]))
            contract('drv::%s_%d' % (n, k), r'^drv::%s_%d\(' % (n, k), inputs=(lambda k: lambda c: [c.ret(40)] + [c.serie('s%d' % i) for i in range(k)])(k),
                     props=('C11',), unit='u_math', site=False)(many)
    _mk(_n, _op)


# ------------------------------------------------------------------ mult, div, scale, negate
@contract('math::mult(Serie,double)', M + r'mult\(%s, double\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s'), c.dbl('d')], props=('C11',),
          unit=U + 'mult')
def s_mult_d(E, st, a):
    s = ser(st, a[1])
    return shaped(E, st, a[0], s, lambda m: E.fbin('fmul', at(s.v.arr, m, st), a[2]))


contract('math::scale(Serie,double)', M + r'scale\(%s, double\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s'), c.dbl('d')], props=('C11',),
         unit=U + 'scale')(s_mult_d)


@contract('math::mult(Serie,Serie)', M + r'mult\(%s, %s\)$' % (SC, SC), inputs=lambda c: [c.ret(40), c.serie('s'), c.serie('o')], props=('C11',),
          unit=U + 'mult')
def s_mult_s(E, st, a):
    s, o = ser(st, a[1]), ser(st, a[2])

    def prod(t):
        return shaped(E, t, a[0], s, lambda m: E.fbin('fmul', at(s.v.arr, m, t), at(o.v.arr, m, t)))

    def byscalar(t):
        return rowwise(E, t, a[0], s, lambda q, r, x: E.fbin('fmul', x, at(o.v.arr, q, t)))
    return cases(st, (bnot(cmp_eq(s.count, o.count)), throw), (band(isz1(s), bnot(isz1(o))), throw),
                 (band(cmp_lt(0, s.count), bnot(isz1(o)), bnot(cmp_eq(s.isz, o.isz))), throw),
                 (isz1(s), prod), (isz1(o), byscalar), (True, prod))


@contract('math::div(double,Serie)', M + r'div\(double, %s\)$' % SC, inputs=lambda c: [c.ret(40), c.dbl('d'), c.serie('s')], props=('C11',),
          unit=U + 'div')
def s_div_d(E, st, a):
    s = ser(st, a[2])
    return shaped(E, st, a[0], s, lambda m: E.fbin('fdiv', at(s.v.arr, m, st), a[1]))


@contract('math::div(Serie,Serie)', M + r'div\(%s, %s\)$' % (SC, SC), inputs=lambda c: [c.ret(40), c.serie('divider'), c.serie('s')], props=('C11',),
          unit=U + 'div')
def s_div_s(E, st, a):
    d, s = ser(st, a[1]), ser(st, a[2])

    def el(q, r, x):
        w = at(d.v.arr, q, st)
        tiny = E.fcmp('olt', E.ffun('fabs', w), E.dconst(TINY))
        return ite(tiny, E.dconst(0.0), E.fbin('fdiv', x, w))
    return cases(st, (bor(cmp_eq(d.isz, 0), cmp_eq(s.isz, 0)), throw), (bnot(cmp_eq(d.count, s.count)), throw), (bnot(isz1(d)), throw),
                 (True, lambda t: rowwise(E, t, a[0], s, el)))


@contract('math::scale(Serie,Array)', M + r'scale\(%s, %s\)$' % (SC, AC), inputs=lambda c: [c.ret(40), c.serie('s'), c.array('scales')],
          props=('C11',), unit=U + 'scale')
def s_scale_a(E, st, a):
    s, w = ser(st, a[1]), st.read(a[2])
    return cases(st, (bnot(cmp_eq(s.isz, w.n)), throw),
                 (True, lambda t: rowwise(E, t, a[0], s, lambda q, r, x: E.fbin('fmul', x, at(w.arr, r, t)))))


@contract('math::negate', M + r'negate\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C11',), unit=U + 'negate')
def s_negate(E, st, a):
    s = ser(st, a[1])
    return shaped(E, st, a[0], s, lambda m: E.fneg(at(s.v.arr, m, st)))


# ------------------------------------------------------------------ weigthedSum
def ws_spec(E, st, a, w):
    v = list_of(E, st, a[1])

    def body(t):
        f = E.folds.first_facts(t, bad_shape(E, t, v, 0), v.n)

        def good(u):
            s0 = lser(E, u, v, 0)
            acc = _f.accc(E.D)

            def el(q, r, x):
                sk = lser(E, u, v, K)
                y = at(sk.v.arr, iadd(imul(q, sk.isz), r), u)
                return E.folds.fold(E.dconst(0.0), E.fbin('fadd', acc, E.fbin('fmul', y, at(w.arr, K, u))), v.n)
            return rowwise(E, u, a[0], s0, el)
        return cases(t, (cmp_eq(f, v.n), good), (True, throw))
    return cases(st, (cmp_eq(v.n, 0), throw), (bnot(cmp_eq(v.n, w.n)), throw), (True, body))


@contract('math::weigthedSum(list,Array)', M + r'weigthedSum\(std::initializer_list<df::Serie> const&, %s\)$' % AC,
          inputs=lambda c: [c.ret(40), slist(c), c.array('weights')], props=('C11',), unit=U + 'weightedSum')
def s_ws_a(E, st, a):
    return ws_spec(E, st, a, st.read(a[2]))


def ws_l_in(c):
    l = c.array('weights')
    o = c.obj('initializer_list of weights', 16)
    c.st.write(o, Ptr(l.rid, (0, 0, 0)))
    c.st.write(o.add(8), c.st.read(l).n)
    return [c.ret(40), slist(c), o]


@contract('math::weigthedSum(list,list)', M + r'weigthedSum\(std::initializer_list<df::Serie> const&, std::initializer_list<double> const&\)$',
          inputs=ws_l_in, props=('C11',), unit=U + 'weightedSum')
def s_ws_l(E, st, a):
    return ws_spec(E, st, a, E.lib.init_list(E, st, st.read(a[2]), st.read(a[2].add(8)), 'double'))
