"""Contract of sort (functional/utils): a permutation of the items, ordered by the comparison."""
from spec import *
import loops
import fold as _f
from c_math import item_of

SC = r'df::Serie const&'
II, JJ = _f.K, _f.RR


def sorted_items(E, t, p, s, less):
    """items of s in the order of `less`, a comparison of the items number K and RR"""
    n = s.count
    t2 = t.clone()
    t2.assume(z3.And(II >= 0, JJ >= 0, II < ex(n), JJ < ex(n)))
    pm = E.folds.perm(less(t2), n)

    def el(m):
        if isint(s.isz) and s.isz == 1:
            return at(s.v.arr, pm(m), t)
        q, r = item_of(E, m, s.isz)
        return at(s.v.arr, iadd(imul(pm(q), s.isz), r), t)
    return outserie(E, t, p, vec(E, imul(n, s.isz), el), n, s.isz)


def by_value(E, s):
    """smaller first difference first"""
    def less(t):
        x = lambda i, k: at(s.v.arr, iadd(imul(i, s.isz), k), t)
        if isint(s.isz) and s.isz == 1:
            return E.fcmp('olt', x(II, 0), x(JJ, 0))
        i, j = E.fresh('k'), E.fresh('k')
        f, _, _ = E.folds.first(ex(z3.Not(E.fcmp('oeq', x(i, K), x(j, K)))), s.isz)
        return z3.substitute(ex(band(cmp_lt(f, s.isz), E.fcmp('olt', x(i, f), x(j, f)))), (i, II), (j, JJ))
    return less


def by_callback(E, s, name):
    def less(t):
        if CALLBACKS[name][1][0] == 'd':
            return cb(E, t, name, at(s.v.arr, II, t), at(s.v.arr, JJ, t))
        return cb(E, t, name, rowt(E, t, s, II), rowt(E, t, s, JJ))
    return less


def sort_spec(E, st, ret_, s, less):
    return cases(st, (cmp_eq(s.isz, 0), lambda t: outserie(E, t, ret_, empty_vec(E, 'double'), anyval(E, t), anyval(E, t))),
                 (cmp_eq(s.count, 0), lambda t: outserie(E, t, ret_, empty_vec(E, 'double'), 0, anyval(E, t))),
                 (True, lambda t: sorted_items(E, t, ret_, s, less)))


@contract('utils::sort', r'^df::utils::sort\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C22',), unit='u_sort', sizes={'s': [1]})
def s_sort(E, st, a):
    s = ser(st, a[1])
    one = Ser(s.v, s.count, 1, s.dim)
    return cases(st, (bnot(cmp_eq(s.isz, 1)), lambda t: sort_spec(E, t, a[0], s, by_value(E, s))),
                 (True, lambda t: sort_spec(E, t, a[0], one, by_value(E, one))))


@contract('drv::sort_v', r'^drv::sort_v\(', inputs=lambda c: [c.ret(40), c.obj('f', 1), c.serie('s')], props=('C22',), unit='u_sort', site=False, sizes={'s': [1]})
def s_sortv(E, st, a):
    s = ser(st, a[2])
    return sort_spec(E, st, a[0], s, by_callback(E, s, 'VCmp'))


@contract('drv::sort_g', r'^drv::sort_g\(', inputs=lambda c: [c.ret(40), c.obj('f', 1), c.serie('s')], props=('C22',), unit='u_sort', site=False, sizes={'s': [1]},
          pre=lambda E, st, a: [('scalar items', cmp_eq(ser(st, a[2]).isz, 1))])
def s_sortg(E, st, a):
    s = ser(st, a[2])
    return sort_spec(E, st, a[0], s, by_callback(E, s, 'GCmp'))


@contract('drv::sort_greater', r'^drv::sort_greater\(', inputs=lambda c: [c.ret(40), c.serie('s')], props=('C22',), unit='u_sort', site=False, sizes={'s': [1]},
          pre=lambda E, st, a: [('scalar items', cmp_eq(ser(st, a[1]).isz, 1))])
def s_sortgt(E, st, a):
    s = ser(st, a[1])
    return sort_spec(E, st, a[0], s, lambda t: E.fcmp('olt', at(s.v.arr, JJ, t), at(s.v.arr, II, t)))


@lemma('the default comparison (first difference decides) is a strict weak order', ('C22',))
def l_swo(E):
    x, y, z = (z3.Function('item_' + n, z3.IntSort(), z3.RealSort()) for n in 'xyz')
    n, m = z3.Ints('n m')
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(n >= 0)

    def less(a, b, nm):
        f = z3.Int('first_' + nm)
        s.add(f >= 0, f <= n, z3.Implies(f < n, a(f) != b(f)))
        s.add(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < f), a(m) == b(m)), patterns=[a(m), b(m)]))
        return z3.And(f < n, a(f) < b(f))
    xy, yx, yz, zy, xz, zx, xx = less(x, y, 'xy'), less(y, x, 'yx'), less(y, z, 'yz'), less(z, y, 'zy'), less(x, z, 'xz'), less(z, x, 'zx'), less(x, x, 'xx')

    def ok(c):
        s.push()
        s.add(z3.Not(c))
        r = s.check() == z3.unsat
        s.pop()
        return r
    yield 'irreflexive', ok(z3.Not(xx))
    yield 'asymmetric', ok(z3.Not(z3.And(xy, yx)))
    yield 'transitive', ok(z3.Implies(z3.And(xy, yz), xz))
    yield 'incomparability is transitive', ok(z3.Implies(z3.And(z3.Not(xy), z3.Not(yx), z3.Not(yz), z3.Not(zy)), z3.And(z3.Not(xz), z3.Not(zx))))
