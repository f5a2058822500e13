"""Contracts of minMax, normalize and the equality tests (functional/math)."""
from spec import *
import loops
import fold as _f
from c_math import shaped, item_of
from c_alg import scalars, total, is_valid

U = 'functional/math/'
M = r'^df::math::'
SC = r'df::Serie const&'
INF = float('inf')


def least(E, acc, x):
    return ite(E.fcmp('olt', x, acc), x, acc)


def greatest(E, acc, x):
    return ite(E.fcmp('olt', acc, x), x, acc)


def extreme(E, st, s, j, pick):
    """extreme value of component j over all items, as a fold"""
    acc = _f.accc(E.D)
    x = lambda k: at(s.v.arr, iadd(imul(k, s.isz), j), st)
    return E.folds.fold(x(0), pick(E, acc, x(iadd(K, 1))), isub(s.count, 1))


def extreme1(E, st, s, pick, start):
    return E.folds.fold(E.dconst(start), pick(E, _f.accc(E.D), at(s.v.arr, K, st)), s.count)


@contract('math::minMax', M + r'minMax\(%s\)$' % SC, inputs=lambda c: [c.ret(48), c.serie('s')], props=('C16',), unit=U + 'minMax', sizes={'s': [1]})
def s_minmax(E, st, a):
    s = ser(st, a[1])

    def put(t, n, lo, hi):
        t.write(a[0], vec(E, n, lo) if not isint(n) or n else empty_vec(E, 'double'))
        t.write(a[0].add(24), vec(E, n, hi) if not isint(n) or n else empty_vec(E, 'double'))
        return ret(t)
    return cases(st, (bnot(is_valid(s)), throw), (cmp_eq(s.count, 0), lambda t: put(t, 0, None, None)),
                 (cmp_eq(s.isz, 1), lambda t: put(t, 1, lambda j: extreme1(E, t, s, least, INF), lambda j: extreme1(E, t, s, greatest, -INF))),
                 (True, lambda t: put(t, s.isz, lambda j: extreme(E, t, s, j, least), lambda j: extreme(E, t, s, j, greatest))))


@contract('math::normalize', M + r'normalize\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C16',), unit=U + 'normalize', sizes={'s': [1]})
def s_normalize(E, st, a):
    s = ser(st, a[1])

    def scalar(t):
        lo, hi = extreme1(E, t, s, least, INF), extreme1(E, t, s, greatest, -INF)
        l = E.fbin('fdiv', E.dconst(1.0), E.fbin('fsub', hi, lo))
        return scalars(E, t, a[0], s.count, lambda q: E.fbin('fmul', l, E.fbin('fsub', at(s.v.arr, q, t), lo)))

    def vector(t):
        def el(m):
            q, r = item_of(E, m, s.isz)
            x = lambda k: at(s.v.arr, iadd(imul(q, s.isz), k), t)
            n2 = total(E, s.isz, lambda k: E.fbin('fmul', x(k), x(k)))
            return E.fbin('fmul', x(r), E.fbin('fdiv', E.dconst(1.0), E.ffun('sqrt', n2)))
        return outserie(E, t, a[0], vec(E, imul(s.count, s.isz), el), s.count, s.isz)
    return cases(st, (bnot(is_valid(s)), throw), (cmp_eq(s.count, 0), lambda t: outserie(E, t, a[0], empty_vec(E, 'double'), 0, anyval(E, t))),
                 (cmp_eq(s.isz, 1), scalar), (True, vector))


# ------------------------------------------------------------------ equality
def all_values(E, t, s, o, good):
    """every value of s agrees with the value of o at the same position"""
    n = imul(s.count, s.isz)
    f = E.folds.first_facts(t, ex(bnot(good(at(s.v.arr, K, t), at(o.v.arr, K, t)))), n)
    return cmp_eq(f, n)


def exact(E):
    return lambda x, y: E.fcmp('oeq', x, y)


def approx(E, eps):
    return lambda x, y: E.fcmp('ole', E.ffun('fabs', E.fbin('fsub', x, y)), eps)


def comparable(s, o):
    return band(is_valid(s), is_valid(o), cmp_eq(s.isz, o.isz), cmp_eq(s.count, o.count))


def equal_series(E, t, s, o, good):
    return cases(t, (bnot(band(comparable(s, o), cmp_eq(s.dim, o.dim))), lambda u: ret(u, False)), (True, lambda u: ret(u, all_values(E, u, s, o, good))))


@contract('math::equals', M + r'equals\(%s, %s\)$' % (SC, SC), inputs=lambda c: [c.serie('s'), c.serie('o')], props=('C16',), unit='u_cmp')
def s_equals(E, st, a):
    return equal_series(E, st, ser(st, a[0]), ser(st, a[1]), exact(E))


@contract('math::approximatelyEquals', M + r'approximatelyEquals\(%s, %s, double\)$' % (SC, SC), inputs=lambda c: [c.serie('s'), c.serie('o'), c.dbl('eps')], props=('C16',),
          unit='u_cmp')
def s_approx(E, st, a):
    return equal_series(E, st, ser(st, a[0]), ser(st, a[1]), approx(E, a[2]))


def mask(E, st, a, good):
    s, o = ser(st, a[1]), ser(st, a[2])

    def go(t):
        def el(q):
            b = imul(q, s.isz)
            if isint(s.isz) and s.isz == 1:
                return ite(good(at(s.v.arr, q, t), at(o.v.arr, q, t)), E.dconst(1.0), E.dconst(0.0))
            f, _, _ = E.folds.first(ex(bnot(good(at(s.v.arr, iadd(b, K), t), at(o.v.arr, iadd(b, K), t)))), s.isz)
            return ite(cmp_eq(f, s.isz), E.dconst(1.0), E.dconst(0.0))
        return scalars(E, t, a[0], s.count, el)
    return cases(st, (bnot(comparable(s, o)), throw), (True, go))


@contract('math::equalityMask', M + r'equalityMask\(%s, %s\)$' % (SC, SC), inputs=lambda c: [c.ret(40), c.serie('s'), c.serie('o')], props=('C16',), unit='u_cmp', sizes={'s': [1]})
def s_mask(E, st, a):
    return mask(E, st, a, exact(E))


@contract('math::approximateEqualityMask', M + r'approximateEqualityMask\(%s, %s, double\)$' % (SC, SC), inputs=lambda c: [c.ret(40), c.serie('s'), c.serie('o'), c.dbl('eps')],
          props=('C16',), unit='u_cmp', sizes={'s': [1]})
def s_amask(E, st, a):
    return mask(E, st, a, approx(E, a[3]))


def chain(E, st, ss, good):
    """each Serie equals the next"""
    if len(ss) == 1:
        return ret(st, True)
    outs = []
    for o in equal_series(E, st, ss[0], ss[1], good):
        outs += cases(o.st, (o.val, lambda u: chain(E, u, ss[1:], good)), (True, lambda u: ret(u, False)))
    return outs


for _k in (2, 3, 4):
    def _mk(k):
        @contract('drv::equalsAll_%d' % k, r'^drv::equalsAll_%d\(' % k, inputs=lambda c: [c.serie('s%d' % i) for i in range(k)], props=('C16',), unit='u_cmp', site=False)
        def _s(E, st, a):
            return chain(E, st, [ser(st, p) for p in a], exact(E))
    _mk(_k)


@contract('drv::approxAll_2', r'^drv::approxAll_2\(', inputs=lambda c: [c.serie('s'), c.serie('o'), c.dbl('eps')], props=('C16',), unit='u_cmp', site=False)
def s_aall(E, st, a):
    return chain(E, st, [ser(st, a[0]), ser(st, a[1])], approx(E, a[2]))


# ------------------------------------------------------------------ what the formulas mean, in the reals
def valid(*fs):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(z3.Not(z3.Implies(z3.And(*fs[:-1]), fs[-1])))
    return s.check() == z3.unsat


@lemma('the folds of minMax are the bounds of the values', ('C16',))
def l_bounds(E):
    acc, x, y = z3.Reals('acc x y')
    for nm, pick, le in (('least', least, lambda a, b: a <= b), ('greatest', greatest, lambda a, b: a >= b)):
        m = pick(E, acc, x)
        yield nm + ': bounds the new value', valid(z3.BoolVal(True), le(m, x))
        yield nm + ': still bounds the earlier values', valid(le(acc, y), le(m, y))
        yield nm + ': is one of the values', valid(z3.BoolVal(True), z3.Or(m == acc, m == x))


@lemma('normalize maps the bounds to 0 and 1 and gives unit vectors', ('C16',))
def l_unit(E):
    lo, hi, x, y, l, s, t, r, n2 = z3.Reals('lo hi x y l s t r n2')
    f = lambda v: (1 / (hi - lo)) * (v - lo)
    yield 'the least value becomes 0', valid(lo < hi, f(lo) == 0)
    yield 'the greatest value becomes 1', valid(lo < hi, f(hi) == 1)
    yield 'every value ends up between 0 and 1', valid(lo < hi, lo <= x, x <= hi, z3.And(f(x) >= 0, f(x) <= 1))
    yield 'affine: the order is kept', valid(lo < hi, x <= y, f(x) <= f(y))
    yield 'square length after scaling, one more component', valid(t == l * l * s, t + (x * l) * (x * l) == l * l * (s + x * x))
    yield 'unit length', valid(r * r == n2, n2 > 0, (1 / r) * (1 / r) * n2 == 1)
