"""Contracts of functional/stats: mean, covariance, quantile and its family, bins."""
from spec import *
import loops
import fold as _f
from c_math import shaped, item_of
from c_alg import scalars, total, is_valid
from c_sort import by_value
from c_core import selection

U = 'functional/stats/'
M = r'^df::stats::'
SC = r'df::Serie const&'


def nonneg_product(E, st, a, b, hi):
    """0 <= a and 0 <= b <= 1 imply 0 <= a*b <= a: a fact of the reals the linear prover is told"""
    if E.mode == 'real':
        p = rnorm(ex(a) * ex(b))
        st.assume(z3.Implies(z3.And(a >= 0, b >= 0, b <= 1), z3.And(p >= 0, p <= a)))


def mean_of(E, st, s, j):
    """average of component j"""
    return E.fbin('fdiv', total(E, s.count, lambda k: at(s.v.arr, iadd(imul(k, s.isz), j), st)), E.i2d(s.count))


@contract('stats::mean', M + r'mean\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C15',), unit=U + 'mean', sizes={'s': [1]})
def s_mean(E, st, a):
    s = ser(st, a[1])

    def number(t):
        t.write(a[0], True)
        t.write(a[0].add(8), mean_of(E, t, s, 0))
        t.write(a[0].add(16), empty_vec(E, 'double'))
        return ret(t)

    def array(t):
        t.write(a[0], False)
        t.write(a[0].add(16), vec(E, s.isz, lambda j: mean_of(E, t, s, j)))
        return ret(t)
    return cases(st, (cmp_eq(s.count, 0), throw), (cmp_eq(s.isz, 1), number), (True, array))


@contract('stats::covariance', M + r'covariance\(%s, %s\)$' % (SC, SC), inputs=lambda c: [c.serie('x'), c.serie('y')], props=('C15',), unit=U + 'covariance')
def s_cov(E, st, a):
    x, y = ser(st, a[0]), ser(st, a[1])

    def value(t):
        mx, my = mean_of(E, t, x, 0), mean_of(E, t, y, 0)
        dev = lambda s, m: E.fbin('fsub', at(s.v.arr, K, t), m)
        term = E.fbin('fdiv', E.fbin('fmul', dev(x, mx), dev(y, my)), E.i2d(x.count))
        return ret(t, total(E, x.count, lambda k: z3.substitute(term, (K, ex(k)))))
    return cases(st, (bnot(cmp_eq(x.count, y.count)), throw), (bnot(cmp_eq(x.isz, 1)), throw), (bnot(cmp_eq(y.isz, 1)), throw),
                 (cmp_eq(x.count, 0), throw), (True, value))


# ------------------------------------------------------------------ quantiles
def quantile_of(E, t, s, q):
    """linear interpolation between the two sorted values around rank q*(n-1)"""
    n = s.count
    t2 = t.clone()
    pm = E.folds.perm(by_value(E, Ser(s.v, s.count, 1, s.dim))(t2), n)
    x = lambda k: at(s.v.arr, pm(k), t)
    pos = E.fbin('fmul', E.i2d(isub(n, 1)), q)
    base = E.ffun('floor', pos)
    rest = E.fbin('fsub', pos, base)
    E.quiet += 1
    b0 = E.d2i(t, base, 32, False)
    b1 = E.d2i(t, E.fbin('fadd', base, E.dconst(1.0)), 32, False)
    E.quiet -= 1
    r = ite(cmp_lt(b1, n), E.fbin('fadd', x(b0), E.fbin('fmul', rest, E.fbin('fsub', x(b1), x(b0)))), x(b0))
    return named(E, t, r, 'stats::quantile')


def quantile_cases(E, st, s, f):
    return cases(st, (bnot(is_valid(s)), throw), (bnot(cmp_eq(s.isz, 1)), throw), (cmp_eq(s.count, 0), throw), (True, f))


def quantile_inputs(c):
    s, q = c.serie('s'), c.dbl('q')
    n = ser(c.st, s).count
    nonneg_product(c.E, c.st, c.E.i2d(isub(n, 1)), q, None)
    return [s, q]


@contract('stats::quantile', M + r'quantile\(%s, double\)$' % SC, inputs=quantile_inputs, props=('C15',), unit=U + 'quantile', mode='real')
def s_quantile(E, st, a):
    s, q = ser(st, a[0]), a[1]
    return quantile_cases(E, st, s, lambda t: cases(t, (bor(E.fcmp('olt', q, E.dconst(0.0)), E.fcmp('olt', E.dconst(1.0), q)), throw),
                                                    (True, lambda u: ret(u, quantile_of(E, u, s, q)))))


for _nm, _q in (('q25', 0.25), ('q50', 0.5), ('q75', 0.75)):
    def _mk(nm, q):
        @contract('stats::' + nm, M + nm + r'\(%s\)$' % SC, inputs=lambda c: [c.serie('s')], props=('C15',), unit=U + 'quantile', mode='real')
        def _s(E, st, a):
            s = ser(st, a[0])
            return quantile_cases(E, st, s, lambda t: ret(t, quantile_of(E, t, s, E.dconst(q))))
    _mk(_nm, _q)


@contract('stats::IQR', M + r'IQR\(%s\)$' % SC, inputs=lambda c: [c.serie('s')], props=('C15',), unit=U + 'quantile', mode='real')
def s_iqr(E, st, a):
    s = ser(st, a[0])
    return quantile_cases(E, st, s, lambda t: ret(t, E.fbin('fsub', quantile_of(E, t, s, E.dconst(0.75)), quantile_of(E, t, s, E.dconst(0.25)))))


def fences(E, t, s, w):
    q1, q3 = quantile_of(E, t, s, E.dconst(0.25)), quantile_of(E, t, s, E.dconst(0.75))
    d = E.fbin('fmul', w, E.fbin('fsub', q3, q1))
    return E.fbin('fsub', q1, d), E.fbin('fadd', q3, d)


def outlying(E, t, s, w, inside):
    lo, hi = fences(E, t, s, w)
    v = at(s.v.arr, K, t)
    if inside:
        return ex(band(E.fcmp('oge', v, lo), E.fcmp('ole', v, hi)))
    return ex(bor(E.fcmp('olt', v, lo), E.fcmp('ogt', v, hi)))


def pick_spec(inside):
    def spec(E, st, a):
        s, w = ser(st, a[1]), a[2]

        def go(t):
            cnt, sel = E.folds.rank(outlying(E, t, s, w, inside))
            m = cnt(s.count)
            v = Vec(m, Arr(fn=lambda r: at(s.v.arr, sel(r), t)), 'double', 8)
            return cases(t, (cmp_eq(m, 0), lambda u: outserie(E, u, a[0], v, m, anyval(E, u))), (True, lambda u: outserie(E, u, a[0], v, m, 1)))
        return quantile_cases(E, st, s, go)
    return spec


contract('stats::outliers', M + r'outliers\(%s, double\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s'), c.dbl('mustache')], props=('C15',), unit=U + 'quantile', mode='real')(pick_spec(False))
contract('stats::notOutliers', M + r'notOutliers\(%s, double\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s'), c.dbl('mustache')], props=('C15',), unit=U + 'quantile', mode='real')(pick_spec(True))


@contract('stats::isOutliers', M + r'isOutliers\(%s, double\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s'), c.dbl('mustache')], props=('C15',), unit=U + 'quantile', mode='real')
def s_isout(E, st, a):
    s, w = ser(st, a[1]), a[2]

    def go(t):
        c = outlying(E, t, s, w, False)
        return outserie(E, t, a[0], vec(E, s.count, lambda m: ite(z3.substitute(c, (K, ex(m))), E.dconst(1.0), E.dconst(0.0))), s.count, 1)
    return quantile_cases(E, st, s, go)


# ------------------------------------------------------------------ histogram
def bin_of(E, t, v, nb, start, size):
    """number of the bin of a value not below start"""
    pos = E.ffun('trunc', E.fbin('fdiv', E.fbin('fsub', v, start), size))
    E.quiet += 1
    i = E.d2i(t, pos, 32, False)
    E.quiet -= 1
    return ite(E.fcmp('oge', pos, E.i2d(nb)), isub(nb, 1), ite(E.fcmp('ogt', pos, E.dconst(0.0)), i, 0))


def bins_spec(E, st, p, s, nb, start, stop):
    def go(t):
        size = E.fbin('fdiv', E.fbin('fsub', stop, start), E.i2d(nb))
        below = lambda k: ex(bnot(E.fcmp('oge', at(s.v.arr, k, t), start)))
        f = E.folds.first_facts(t, below(K), s.count)

        def count(u):
            idx = bin_of(E, u, at(s.v.arr, K, u), nb, start, size)
            acc = _f.accc(E.D)

            def el(j):
                return E.folds.fold(E.dconst(0.0), ite(cmp_eq(idx, j), E.fbin('fadd', acc, E.dconst(1.0)), acc), s.count)
            return outserie(E, u, p, vec(E, nb, el), nb, 1)
        return cases(t, (cmp_lt(f, s.count), throw), (True, count))
    return cases(st, (bnot(cmp_eq(s.isz, 1)), throw), (cmp_eq(nb, 0), lambda t: outserie(E, t, p, empty_vec(E, 'double'), 0, anyval(E, t))), (True, go))


@contract('stats::bins(range)', M + r'bins\(%s, unsigned int, double, double\)$' % SC,
          inputs=lambda c: [c.ret(40), c.serie('s'), c.uint('nb'), c.dbl('start'), c.dbl('stop')], props=('C15',), unit=U + 'bins', mode='real')
def s_bins(E, st, a):
    return bins_spec(E, st, a[0], ser(st, a[1]), a[2], a[3], a[4])


@contract('stats::bins', M + r'bins\(%s, unsigned int\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s'), c.uint('nb')], props=('C15',), unit=U + 'bins', mode='real')
def s_bins0(E, st, a):
    from c_cmp import extreme1, least, greatest, INF
    s = ser(st, a[1])
    lo, hi = extreme1(E, st, s, least, INF), extreme1(E, st, s, greatest, -INF)
    return cases(st, (bor(bnot(is_valid(s)), cmp_eq(s.count, 0)), throw), (True, lambda t: bins_spec(E, t, a[0], s, a[2], lo, hi)))


@lemma('the bin of a value between start and stop is the one whose interval holds it', ('C15',))
def l_bin(E):
    v, start, stop, size, t = z3.Reals('v start stop size t')
    nb, i = z3.Ints('nb i')
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(nb >= 1, start <= v, v < stop, start < stop)
    # size = (stop-start)/nb, t = (v-start)/size, i = trunc(t)
    s.add(size > 0, size * z3.ToReal(nb) == stop - start, t * size == v - start, i == z3.ToInt(t))

    def ok(c, *hyps):
        s.push()
        s.add(*hyps)
        s.add(z3.Not(c))
        r = s.check() == z3.unsat
        s.pop()
        return r
    yield 'size is positive', ok(stop - start > 0)
    yield 't is not negative', ok(t >= 0)
    lt = [t >= 0, i <= t, t < i + 1, z3.ToReal(i) * size <= t * size, t * size < (z3.ToReal(i) + 1) * size]
    yield 'monotonicity of the product (reals a <= b < c, d > 0)', all(
        z3_valid(z3.Implies(z3.And(a <= b, b < c, d > 0), z3.And(a * d <= b * d, b * d < c * d))) for a, b, c, d in [z3.Reals('a b c d')])
    yield 'start + i*size <= v < start + (i+1)*size', ok(z3.And(start + z3.ToReal(i) * size <= v, v < start + (z3.ToReal(i) + 1) * size), *lt)
    yield 'i < nb', ok(i < nb, *lt, z3.Implies(i >= nb, z3.ToReal(i) * size >= z3.ToReal(nb) * size))


def z3_valid(g):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


@lemma('a quantile lies between the two sorted values around its rank', ('C15',))
def l_quantile(E):
    a, b, r = z3.Reals('a b r')
    q = a + r * (b - a)
    yield 'between', z3_valid(z3.Implies(z3.And(a <= b, 0 <= r, r <= 1), z3.And(a <= q, q <= b)))
    yield 'at an integer rank', z3_valid(z3.Implies(r == 0, q == a))
