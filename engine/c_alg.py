"""Contracts of functional/algebra: dot, cross, norm, norm2, transpose, det, inv."""
from spec import *
import loops
import fold as _f
from c_math import item_of

U = 'functional/algebra/'
M = r'^df::algebra::'
SC = r'df::Serie const&'
AC = r'std::vector<double, A> const&'


def scalars(E, st, p, count, f):
    """a scalar Serie of count values f(i); without items its item size is left open"""
    return items(E, st, p, count, 1, lambda q, r: f(q))


def items(E, st, p, count, k, f):
    """count items of k components: component r of item q is f(q, r)"""
    def el(m):
        q, r = item_of(E, m, k) if k != 1 else (ex(m), 0)
        return f(q, r)
    return cases(st, (cmp_eq(count, 0), lambda t: outserie(E, t, p, empty_vec(E, 'double'), 0, anyval(E, t))),
                 (True, lambda t: outserie(E, t, p, vec(E, imul(count, k), el), count, k)))


def choose(r, xs):
    """xs[r]"""
    e = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        e = ite(cmp_eq(r, i), xs[i], e)
    return e


def invalid(E, p):
    return lambda t: outserie(E, t, p, empty_vec(E, 'double'), 0, 0)


def total(E, n, f):
    """0 + f(0) + f(1) + ..., as a left fold"""
    return E.folds.fold(E.dconst(0.0), E.fbin('fadd', _f.accc(E.D), f(K)), n)


@contract('algebra::dot(Serie,Serie)', M + r'dot\(%s, %s\)$' % (SC, SC), inputs=lambda c: [c.ret(40), c.serie('a'), c.serie('b')], props=('C12',),
          unit=U + 'dot')
def s_dot(E, st, a):
    s, o = ser(st, a[1]), ser(st, a[2])

    def go(t):
        def el(q):
            b = imul(q, s.isz)
            return total(E, s.isz, lambda k: E.fbin('fmul', at(s.v.arr, iadd(b, k), t), at(o.v.arr, iadd(b, k), t)))
        return scalars(E, t, a[0], s.count, el)
    return cases(st, (bor(bnot(cmp_eq(s.count, o.count)), bnot(cmp_eq(s.isz, o.isz))), throw), (True, go))


@contract('algebra::dot(Serie,Array)', M + r'dot\(%s, %s\)$' % (SC, AC), inputs=lambda c: [c.ret(40), c.serie('a'), c.array('b')], props=('C12',),
          unit=U + 'dot')
def s_dot_a(E, st, a):
    s, w = ser(st, a[1]), st.read(a[2])

    def go(t):
        return scalars(E, t, a[0], s.count, lambda q: total(E, s.isz, lambda k: E.fbin('fmul', at(s.v.arr, iadd(imul(q, s.isz), k), t), at(w.arr, k, t))))
    return cases(st, (bnot(cmp_eq(s.isz, w.n)), invalid(E, a[0])), (True, go))


def is_valid(s):
    return cmp_lt(0, s.isz)


@contract('algebra::cross', M + r'cross\(%s, %s\)$' % (SC, SC), inputs=lambda c: [c.ret(40), c.serie('a'), c.serie('b')], props=('C12',), unit=U + 'cross',
          sizes={'a': [3], 'b': [3]})
def s_cross(E, st, a):
    s, o = ser(st, a[1]), ser(st, a[2])

    def go(t):
        def el(q, r):
            x = [at(s.v.arr, iadd(imul(q, 3), i), t) for i in range(3)]
            y = [at(o.v.arr, iadd(imul(q, 3), i), t) for i in range(3)]
            mul = lambda i, j: E.fbin('fmul', x[i], y[j])
            sub = lambda i, j: E.fbin('fsub', mul(i, j), mul(j, i))
            return choose(r, [sub(1, 2), sub(2, 0), sub(0, 1)])
        return items(E, t, a[0], s.count, 3, el)
    return cases(st, (bnot(band(cmp_eq(s.isz, 3), cmp_eq(o.isz, 3), cmp_eq(s.count, o.count), is_valid(s))), throw), (True, go))


def sqsum(E, t, s, q):
    def term(k):
        x = at(s.v.arr, iadd(imul(q, s.isz), k), t)
        return E.fbin('fmul', x, x)
    return total(E, s.isz, term)


@contract('algebra::norm2', M + r'norm2\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C12',), unit=U + 'norm')
def s_norm2(E, st, a):
    s = ser(st, a[1])
    return cases(st, (bnot(is_valid(s)), invalid(E, a[0])), (True, lambda t: scalars(E, t, a[0], s.count, lambda q: sqsum(E, t, s, q))))


@contract('algebra::norm', M + r'norm\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C12',), unit=U + 'norm')
def s_norm(E, st, a):
    s = ser(st, a[1])
    return cases(st, (bnot(is_valid(s)), lambda t: outserie(E, t, a[0], empty_vec(E, 'double'), 0, anyval(E, t))),
                 (True, lambda t: scalars(E, t, a[0], s.count, lambda q: E.ffun('sqrt', sqsum(E, t, s, q)))))


@contract('algebra::transpose', M + r'transpose\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C12',), unit=U + 'transpose',
          sizes={'s': [4, 9]})
def s_transpose(E, st, a):
    s = ser(st, a[1])

    def go(n):
        def f(t):
            def el(q, r):
                return choose(r, [at(s.v.arr, iadd(imul(q, n * n), (i % n) * n + i // n), t) for i in range(n * n)])
            return items(E, t, a[0], s.count, n * n, el)
        return f
    return cases(st, (cmp_eq(s.isz, 4), go(2)), (cmp_eq(s.isz, 9), go(3)), (True, throw))


# ------------------------------------------------------------------ det, inv
def mat(E, t, s, q, k):
    """the components of the full matrix of item q"""
    x = [at(s.v.arr, iadd(imul(q, k), i), t) for i in range(k)]
    if k == 3:
        return [[x[0], x[1]], [x[1], x[2]]]
    if k == 4:
        return [[x[0], x[1]], [x[2], x[3]]]
    if k == 6:
        return [[x[0], x[1], x[2]], [x[1], x[3], x[4]], [x[2], x[4], x[5]]]
    return [x[0:3], x[3:6], x[6:9]]


def det2(E, m):
    mul = lambda a, b: E.fbin('fmul', a, b)
    return E.fbin('fsub', mul(m[0][0], m[1][1]), mul(m[0][1], m[1][0]))


def det3(E, m):
    mul = lambda a, b: E.fbin('fmul', a, b)
    sub = lambda a, b: E.fbin('fsub', a, b)
    c = lambda i, j, k, l: sub(mul(m[i][j], m[k][l]), mul(m[i][l], m[k][j]))
    return E.fbin('fadd', sub(mul(m[0][0], c(1, 1, 2, 2)), mul(m[0][1], c(1, 0, 2, 2))), mul(m[0][2], c(1, 0, 2, 1)))


@contract('algebra::det', M + r'det\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C13',), unit=U + 'det', mode='real',
          sizes={'s': [3, 4, 6, 9]})
def s_det(E, st, a):
    s = ser(st, a[1])
    two, three = cmp_eq(s.dim, 2), cmp_eq(s.dim, 3)

    def go(k):
        return lambda t: scalars(E, t, a[0], s.count, lambda q: (det2 if k < 5 else det3)(E, mat(E, t, s, q, k)))
    return cases(st, (bnot(is_valid(s)), throw), (cmp_eq(s.count, 0), lambda t: outserie(E, t, a[0], empty_vec(E, 'double'), 0, anyval(E, t))),
                 (band(cmp_eq(s.isz, 3), two), go(3)), (band(cmp_eq(s.isz, 4), two), go(4)),
                 (band(cmp_eq(s.isz, 6), three), go(6)), (band(cmp_eq(s.isz, 9), three), go(9)), (True, throw))


def cof(E, m, k):
    """adjugate entries in layout order of k components"""
    mul = lambda a, b: E.fbin('fmul', a, b)
    c = lambda i, j, p, q: E.fbin('fsub', mul(m[i][j], m[p][q]), mul(m[i][q], m[p][j]))
    full = [c(1, 1, 2, 2), c(0, 2, 2, 1), c(0, 1, 1, 2), c(1, 2, 2, 0), c(0, 0, 2, 2), c(0, 2, 1, 0), c(1, 0, 2, 1), c(0, 1, 2, 0), c(0, 0, 1, 1)]
    return full if k == 9 else [full[i] for i in (0, 1, 2, 4, 5, 8)]


@contract('algebra::inv', M + r'inv\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C13',), unit=U + 'inv', mode='real',
          sizes={'s': [6, 9]})
def s_inv(E, st, a):
    s = ser(st, a[1])

    def go(k):
        def f(t):
            sing = lambda q: E.fcmp('olt', E.ffun('fabs', det3(E, mat(E, t, s, q, k))), E.dconst(1e-10))
            n = E.folds.first_facts(t, ex(sing(K)), s.count)

            def good(u):
                def el(q, r):
                    m = mat(E, u, s, q, k)
                    d = E.fbin('fdiv', E.dconst(1.0), det3(E, m))
                    return choose(r, [E.fbin('fmul', x, d) for x in cof(E, m, k)])
                return items(E, u, a[0], s.count, k, el)
            return cases(t, (cmp_eq(n, s.count), good), (True, lambda u: throw(u, '_ZTISt13runtime_error')))
        return f
    return cases(st, (bnot(cmp_eq(s.dim, 3)), invalid(E, a[0])), (cmp_eq(s.isz, 6), go(6)), (cmp_eq(s.isz, 9), go(9)), (True, invalid(E, a[0])))


# ------------------------------------------------------------------ what the formulas mean
def unknown(n, nm):
    return [z3.Real('%s%d' % (nm, i)) for i in range(n)]


def matrix_of(x):
    k = len(x)
    idx = {3: [[0, 1], [1, 2]], 4: [[0, 1], [2, 3]], 6: [[0, 1, 2], [1, 3, 4], [2, 4, 5]], 9: [[0, 1, 2], [3, 4, 5], [6, 7, 8]]}[k]
    return [[x[i] for i in r] for r in idx]


def zero(e):
    e = rnorm(e)
    return z3.is_rational_value(e) and e.as_fraction() == 0


@lemma('the cofactors of inv make the product with the matrix det * identity', ('C13',))
def l_inv(E):
    for k in (6, 9):
        x = unknown(k, 'x')
        m = matrix_of(x)
        c = cof(E, m, k)
        adj = matrix_of(c)
        d = det3(E, m)
        for i in range(3):
            for j in range(3):
                p = z3.Sum([m[i][t] * adj[t][j] for t in range(3)])
                q = z3.Sum([adj[i][t] * m[t][j] for t in range(3)])
                yield 'inverse of %d components, (M adj)[%d][%d]' % (k, i, j), zero(p - (d if i == j else 0))
                yield 'inverse of %d components, (adj M)[%d][%d]' % (k, i, j), zero(q - (d if i == j else 0))


@lemma('det is multiplicative, alternating and 1 for the identity', ('C13',))
def l_det(E):
    for n, det in ((2, det2), (3, det3)):
        a, b = matrix_of(unknown(n * n, 'a')), matrix_of(unknown(n * n, 'b'))
        ab = [[rnorm(z3.Sum([a[i][t] * b[t][j] for t in range(n)])) for j in range(n)] for i in range(n)]
        yield '%dx%d: det(AB) = det A det B' % (n, n), zero(det(E, ab) - det(E, a) * det(E, b))
        yield '%dx%d: det of two equal rows is 0' % (n, n), zero(det(E, [a[0]] + [a[0]] + a[2:]))
        one = [[z3.RealVal(int(i == j)) for j in range(n)] for i in range(n)]
        yield '%dx%d: det(1) = 1' % (n, n), zero(det(E, one) - 1)


@lemma('cross is orthogonal to its operands and has the length of the Lagrange identity', ('C12',))
def l_cross(E):
    a, b = unknown(3, 'a'), unknown(3, 'b')
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    dot = lambda u, v: z3.Sum([x * y for x, y in zip(u, v)])
    yield 'a . (a x b) = 0', zero(dot(a, c))
    yield 'b . (a x b) = 0', zero(dot(b, c))
    yield '|a x b|^2 = |a|^2 |b|^2 - (a.b)^2', zero(dot(c, c) - dot(a, a) * dot(b, b) + dot(a, b) * dot(a, b))
