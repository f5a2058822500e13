"""Contracts of the vector and matrix views (src/view)."""
from spec import *
import loops
import fold as _f
from c_math import item_of
from c_alg import total, choose

UV, UM = 'view/Vector', 'view/Matrix'
AC = r'std::vector<double, A> const&'
PV, PM = ('C13',), ('C13',)


def vvec(st, p):
    v = st.read(p)
    if not isinstance(v, Vec):
        st.E.oblig(st, False, 'memory', 'use of a destroyed or uninitialised Vector')
        raise Fail('Vector')
    return v


def vin(c, nm='v', n=None):
    return c.array(nm, n)


def ctor_any(kind):
    return r'(\(C[12]\))?'


for _sig, _sp in ((r'\(\)', None), (r'\(%s\)' % AC, 1)):
    def _mk(sig, sp):
        @contract('Vector::Vector%s' % ('(Array)' if sp else '()'), r'^df::Vector::Vector%s$' % sig,
                  inputs=(lambda c: [c.ret(24), c.array('a')]) if sp else (lambda c: [c.ret(24)]), props=PV, unit=UV, internal=True)
        def _s(E, st, a):
            st.write(a[0], vvec(st, a[1]) if sp else empty_vec(E, 'double'))
            return ret(st)
    _mk(_sig, _sp)


def in_range(E, st, a):
    yield 'index inside the vector', band(cmp_le(0, a[1]), cmp_lt(a[1], vvec(st, a[0]).n))


for _n, _p in (('operator[]', r'operator\[\]'), ('at', 'at')):
    @contract('Vector::%s' % _n, r'^df::Vector::%s\(unsigned int\) const$' % _p, inputs=lambda c: [c.array('v'), c.uint('i')], props=PV, unit=UV,
              pre=in_range, internal=True)
    def s_vat(E, st, a):
        return ret(st, at(vvec(st, a[0]).arr, a[1], st))


def small(E, st, a):
    yield 'fewer than 2^32 components', cmp_lt(vvec(st, a[0]).n, 1 << 32)


@contract('Vector::length', r'^df::Vector::length\(\) const$', inputs=lambda c: [c.array('v')], props=PV, unit=UV, pre=small, internal=True)
def s_vlen(E, st, a):
    return ret(st, vvec(st, a[0]).n)


@contract('Vector::array', r'^df::Vector::array\(\) const$', inputs=lambda c: [c.array('v')], props=PV, unit=UV, internal=True)
def s_varr(E, st, a):
    return ret(st, a[0])


def vnorm(E, st, v):
    return E.ffun('sqrt', total(E, v.n, lambda k: E.fbin('fmul', at(v.arr, k, st), at(v.arr, k, st))))


@contract('Vector::norm', r'^df::Vector::norm\(\) const$', inputs=lambda c: [c.array('v')], props=PV, unit=UV, pre=small)
def s_vnorm(E, st, a):
    return ret(st, vnorm(E, st, vvec(st, a[0])))


@contract('Vector::dot', r'^df::Vector::dot\(df::Vector const&\) const$', inputs=lambda c: [c.array('v'), c.array('w')], props=PV, unit=UV,
          pre=lambda E, st, a: [('the vectors have the same length', cmp_eq(vvec(st, a[0]).n, vvec(st, a[1]).n)), ('fewer than 2^32 components', cmp_lt(vvec(st, a[0]).n, 1 << 32))])
def s_vdot(E, st, a):
    v, w = vvec(st, a[0]), vvec(st, a[1])
    return ret(st, total(E, v.n, lambda k: E.fbin('fmul', at(v.arr, k, st), at(w.arr, k, st))))


def inplace(E, st, a, f):
    v = vvec(st, a[0])
    st.write(a[0], vec(E, v.n, lambda m: f(at(v.arr, m, st), m)))
    return ret(st, a[0])


@contract('Vector::normalize', r'^df::Vector::normalize\(\)$', inputs=lambda c: [c.array('v')], props=PV, unit=UV, pre=small)
def s_vnormalize(E, st, a):
    n = vnorm(E, st, vvec(st, a[0]))
    return inplace(E, st, a, lambda x, m: E.fbin('fdiv', x, n))


@contract('Vector::mult(double)', r'^df::Vector::mult\(double\)$', inputs=lambda c: [c.array('v'), c.dbl('s')], props=PV, unit=UV, pre=small)
def s_vmul(E, st, a):
    return inplace(E, st, a, lambda x, m: E.fbin('fmul', x, a[1]))


for _n, _op in (('mult', 'fmul'), ('add', 'fadd'), ('sub', 'fsub')):
    def _mk2(n, op):
        @contract('Vector::%s(Vector)' % n, r'^df::Vector::%s\(df::Vector const&\)$' % n, inputs=lambda c: [c.array('v'), c.array('w')], props=PV, unit=UV,
                  pre=lambda E, st, a: [('the vectors have the same length', cmp_eq(vvec(st, a[0]).n, vvec(st, a[1]).n)), ('fewer than 2^32 components', cmp_lt(vvec(st, a[0]).n, 1 << 32))])
        def _s(E, st, a):
            w = vvec(st, a[1])
            return inplace(E, st, a, lambda x, m: E.fbin(op, x, at(w.arr, m, st)))
    _mk2(_n, _op)


# ------------------------------------------------------------------ Matrix
class Mat:
    def __init__(self, v, m):
        self.v = v
        self.m = m


def mat(st, p):
    return Mat(vvec(st, p), st.read(p.add(24)))


def min_(c, nm='M', m=None):
    m = c.size('m') if m is None else m
    n = imul(m, m)
    if not isint(m):
        set_stride(m)
    c.st.assume(cmp_lt(n, 1 << 32))
    c.st.assume(cmp_le(0, n))
    c.st.assume(cmp_lt(m, 1 << 16))         # its square is below 2^32
    p = c.array(nm, n)
    c.st.wreg(p.rid).cells[24] = m
    c.st.wreg(p.rid).size = 32
    return p


def square(E, st, a):
    M = mat(st, a[0])
    yield 'the view holds a square matrix', cmp_eq(M.v.n, imul(M.m, M.m))
    yield 'fewer than 2^32 components', cmp_lt(M.v.n, 1 << 32)


def wmat(st, p, v, m):
    st.write(p, v)
    st.write(p.add(24), m)


@contract('Matrix::Matrix', r'^df::Matrix::Matrix\(%s, unsigned int\)$' % AC, inputs=lambda c: [c.ret(32), c.array('a'), c.uint('m')], props=PM, unit=UM,
          internal=True)
def s_mctor(E, st, a):
    v = vvec(st, a[1])
    wmat(st, a[0], v, a[2])
    return ret(st)


@contract('Matrix::length', r'^df::Matrix::length\(\) const$', inputs=lambda c: [min_(c)], props=PM, unit=UM, pre=square, internal=True)
def s_mlen(E, st, a):
    return ret(st, mat(st, a[0]).v.n)


def ij(E, st, a):
    yield from square(E, st, a)
    m = mat(st, a[0]).m
    yield 'row and column inside the matrix', band(cmp_le(0, a[1]), cmp_lt(a[1], m), cmp_le(0, a[2]), cmp_lt(a[2], m))


def el(E, st, M, i, j):
    return at(M.v.arr, iadd(imul(i, M.m), j), st)


@contract('Matrix::at', r'^df::Matrix::at\(unsigned int, unsigned int\) const$', inputs=lambda c: [min_(c), c.uint('i'), c.uint('j')], props=PM, unit=UM, pre=ij,
          sizes={'m': [2, 3]})
def s_mat(E, st, a):
    return ret(st, el(E, st, mat(st, a[0]), a[1], a[2]))


@contract('Matrix::trace', r'^df::Matrix::trace\(\) const$', inputs=lambda c: [min_(c)], props=PM, unit=UM, pre=square)
def s_mtrace(E, st, a):
    M = mat(st, a[0])
    return ret(st, E.folds.fold(E.dconst(0.0), E.fbin('fadd', _f.accc(E.D), el(E, st, M, K, K)), M.m))


@contract('Matrix::transpose', r'^df::Matrix::transpose\(\) const$', inputs=lambda c: [c.ret(32), min_(c)], props=PM, unit=UM,
          pre=lambda E, st, a: square(E, st, a[1:]))
def s_mtr(E, st, a):
    M = mat(st, a[1])

    def f(x):
        q, r = item_of(E, x, M.m)
        return el(E, st, M, r, q)
    wmat(st, a[0], vec(E, M.v.n, f), M.m)
    return ret(st)


@contract('Matrix::multVec', r'^df::Matrix::multVec\(df::Vector const&\) const$', inputs=lambda c: [c.ret(24), min_(c), c.array('v', small=True)], props=PM, unit=UM,
          pre=lambda E, st, a: square(E, st, a[1:]))
def s_mv(E, st, a):
    M, v = mat(st, a[1]), vvec(st, a[2])

    def go(t):
        t.write(a[0], vec(E, M.m, lambda i: total(E, M.m, lambda k: E.fbin('fmul', el(E, t, M, i, k), at(v.arr, k, t)))))
        return ret(t)
    return cases(st, (bnot(cmp_eq(v.n, M.m)), throw), (True, go))


@contract('Matrix::multMat', r'^df::Matrix::multMat\(df::Matrix const&\) const$', inputs=lambda c: [c.ret(32), min_(c), min_(c, 'N', c.size('m2'))], props=PM, unit=UM,
          pre=lambda E, st, a: list(square(E, st, a[1:])) + list(square(E, st, a[2:])), sizes={'m': [2, 3], 'm2': [2, 3]})
def s_mm(E, st, a):
    M, N = mat(st, a[1]), mat(st, a[2])

    def go(t):
        def f(x):
            q, r = item_of(E, x, M.m)
            return total(E, M.m, lambda k: E.fbin('fmul', el(E, t, M, q, k), el(E, t, N, k, r)))
        wmat(t, a[0], vec(E, M.v.n, f), M.m)
        return ret(t)
    return cases(st, (bnot(cmp_eq(M.m, N.m)), throw), (True, go))


def small_square(E, st, a):
    yield from square(E, st, a)
    m = mat(st, a[0]).m
    yield 'the matrix is 2x2 or 3x3', bor(cmp_eq(m, 2), cmp_eq(m, 3))


def sym(E, st, M):
    return ex(band(*[E.fcmp('oeq', el(E, st, M, i, j), el(E, st, M, j, i)) for i in range(M.m) for j in range(i, M.m)]))


@contract('Matrix::isSymmetric', r'^df::Matrix::isSymmetric\(\) const$', inputs=lambda c: [min_(c)], props=PM, unit=UM, pre=small_square, sizes={'m': [2, 3]})
def s_sym(E, st, a):
    return by_m(E, st, mat(st, a[0]), lambda t, M: ret(t, sym(E, t, M)))


def by_m(E, st, M, f):
    return cases(st, (cmp_eq(M.m, 2), lambda t: f(t, Mat(M.v, 2))), (True, lambda t: f(t, Mat(M.v, 3))))


@contract('Matrix::array', r'^df::Matrix::array\(\) const$', inputs=lambda c: [c.ret(24), min_(c)], props=PM, unit=UM,
          pre=lambda E, st, a: small_square(E, st, a[1:]), sizes={'m': [2, 3]})
def s_marr(E, st, a):
    def f(t, M):
        m = M.m
        tri = [(i, j) for i in range(m) for j in range(i, m)]

        def yes(u):
            u.write(a[0], vec(E, len(tri), lambda x: choose(x, [el(E, u, M, i, j) for i, j in tri])))
            return ret(u)

        def no(u):
            u.write(a[0], M.v)
            return ret(u)
        return cases(t, (sym(E, t, M), yes), (True, no))
    return by_m(E, st, mat(st, a[1]), f)


def full_size(E, st, a):
    n = vvec(st, a[1]).n
    yield '4 or 9 components', bor(cmp_eq(n, 4), cmp_eq(n, 9))


def sym_size(E, st, a):
    n = vvec(st, a[1]).n
    yield '3 or 6 components', bor(cmp_eq(n, 3), cmp_eq(n, 6))


@contract('squaredMatrix', r'^df::squaredMatrix\(%s\)$' % AC, inputs=lambda c: [c.ret(32), c.array('v', c.size('n'))], props=PM, unit=UM, pre=full_size, sizes={'n': [4, 9]})
def s_sq(E, st, a):
    v = vvec(st, a[1])

    def go(m):
        def f(t):
            wmat(t, a[0], vec(E, m * m, lambda x: at(v.arr, x, t)), m)
            return ret(t)
        return f
    return cases(st, (cmp_eq(v.n, 4), go(2)), (True, go(3)))


@contract('symSquaredMatrix', r'^df::symSquaredMatrix\(%s\)$' % AC, inputs=lambda c: [c.ret(32), c.array('v', c.size('n'))], props=PM, unit=UM, pre=sym_size,
          sizes={'n': [3, 6]})
def s_ssq(E, st, a):
    v = vvec(st, a[1])

    def go(m, ix):
        def f(t):
            wmat(t, a[0], vec(E, m * m, lambda x: choose(x, [at(v.arr, i, t) for i in ix])), m)
            return ret(t)
        return f
    return cases(st, (cmp_eq(v.n, 3), go(2, [0, 1, 1, 2])), (True, go(3, [0, 1, 2, 1, 3, 4, 2, 4, 5])))
