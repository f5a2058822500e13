"""Contracts of partition_n and parallel_execute."""
from spec import *
import fold as _f
import c_join
from c_math import item_of
from c_cmp import valid

U32 = 1 << 32


def division(E, st, count, n):
    """quotient and remainder, n >= 1; multiplication written in the order the verifier uses"""
    base, rem = E.idiv(None, count, n), E.irem(None, count, n)
    set_stride(base)
    st.assume(z3.Implies(ex(n) >= 1, z3.And(ex(cmp_eq(count, iadd(imul(n, base), rem))), ex(cmp_le(0, base)), ex(cmp_le(0, rem)), ex(cmp_lt(rem, n)))))
    if not isint(base):
        k = E.fresh('k')
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k + 2 <= ex(n), ex(base) >= 0), MUL(k, ex(base)) + 2 * ex(base) <= ex(imul(n, base))), patterns=[MUL(k, ex(base))]))
    return base, rem


def shares(E, st, count, n):
    """(start, size) of part k when count items are shared among n parts"""
    base, rem = division(E, st, count, n)
    start = lambda k: iadd(imul(k, base), ite(cmp_lt(k, rem), k, rem))
    size = lambda k: iadd(base, ite(cmp_lt(k, rem), 1, 0))
    return start, size


def parts(count, n):
    some = ite(cmp_lt(0, count), count, 1)
    return ite(cmp_lt(some, n), some, n)


def part_of(E, st, s, start, size, dim):
    def part(k):
        n, lo = size(k), start(k)
        return Rec({0: vec(E, imul(n, s.isz), lambda m: at(s.v.arr, iadd(imul(lo, s.isz), m), st), stride=s.isz), 24: n, 28: dim, 32: s.isz})
    return part


def part_inputs(k):
    def f(c):
        n = c.uint('n')
        ss = [c.serie('s%d' % i) for i in range(k)]
        division(c.E, c.st, ser(c.st, ss[0]).count, n)
        return [c.ret(24), n] + ss
    return f


@contract('utils::partition_n(n,serie)', r'^df::utils::partition_n\(unsigned int, df::Serie const&\)$', inputs=part_inputs(1),
          props=('C10',), unit='u_part')
def s_partition(E, st, a):
    n, s = a[1], ser(st, a[2])

    def go(t):
        start, size = shares(E, t, s.count, n)
        t.write(a[0], vec(E, parts(s.count, n), part_of(E, t, s, start, size, anyval(E, t)), ety='df::Serie'))
        return ret(t)
    return cases(st, (cmp_eq(n, 0), throw), (True, go))


for _k in (2, 3, 4):
    @contract('drv::part_%d' % _k, r'^drv::part_%d\(' % _k, inputs=part_inputs(_k), props=('C10',), unit='u_part', site=False)
    def s_partitions(E, st, a):
        n, ss = a[1], [ser(st, p) for p in a[2:]]

        def go(t):
            start, size = shares(E, t, ss[0].count, n)
            dims = [anyval(E, t) for s in ss]
            lists = [vec(E, n, part_of(E, t, s, start, size, d), ety='df::Serie') for s, d in zip(ss, dims)]
            t.write(a[0], Vec(len(ss), Arr(fn=list_fn([Rec({0: l}) for l in lists])), 'std::vector<df::Serie, A>', 24))
            return ret(t)
        return cases(st, *([(cmp_eq(n, 0), throw)] + [(bnot(cmp_eq(s.count, ss[0].count)), throw) for s in ss[1:]] + [(True, go)]))


# ------------------------------------------------------------------ parallel_execute
FN = 'SerieFnT'


def call_fn(E, st, p, s):
    def go(t):
        r = apply_seriefn(E, t, FN, s)
        wser(t, p, r.v, r.count, r.isz, r.dim)
        return ret(t)
    return cases(st, (fails(E, FN, st, s), lambda t: throw(t, None)), (True, go))


@contract('utils::parallel_execute', r'^df::Serie df::utils::parallel_execute<vf::SerieFnT const&>\(', inputs=lambda c: [c.ret(40), c.obj('f')] + par_inputs(c), props=('C10',),
          unit='u_part', pre=lambda E, st, a: par_pre(E, st, ser(st, a[2]), a[3]))
def s_parallel(E, st, a):
    s, n = ser(st, a[2]), a[3]

    def go(t):
        start, size = shares(E, t, s.count, n)
        p = parts(s.count, n)
        part = part_of(E, t, s, start, size, 3)
        pk = part(K)
        sk = Ser(pk.f[0], pk.f[24], pk.f[32], 3)
        t2 = t.clone()
        t2.assume(z3.And(K >= 0, K < ex(p)))
        r = apply_seriefn(E, t2, FN, sk)
        bad = bor(fails(E, FN, t2, sk), bnot(cmp_eq(r.count, sk.count)))
        f = E.folds.first_facts(t, ex(bad), p)

        def results(u):
            def el(k):
                pk = part(k)
                r = apply_seriefn(E, u, FN, Ser(pk.f[0], pk.f[24], pk.f[32], 3))
                n = pk.f[24]
                return Rec({0: Vec(imul(n, r.isz), r.v.arr, 'double', 8), 24: n, 28: r.dim, 32: r.isz})
            l = Ptr(u.new_region('results', 'local', 24))
            u.write(l, vec(E, p, el, ety='df::Serie'))
            return c_join.s_concat(E, u, [a[0], l])
        return cases(t, (cmp_lt(f, p), lambda u: throw(u, None)), (True, results))
    return cases(st, (cmp_eq(n, 0), throw), (bor(cmp_eq(n, 1), cmp_eq(s.count, 0)), lambda t: call_fn(E, t, a[0], s)), (True, go))


def par_pre(E, st, s, n):
    """the joined result has fewer than 2^32 values; the parts' counts add up to the count of the Serie (a lemma)"""
    t = st.clone()
    start, size = shares(E, t, s.count, n)
    p = parts(s.count, n)
    p0 = part_of(E, t, s, start, size, 3)(0)
    r = apply_seriefn(E, t, FN, Ser(p0.f[0], p0.f[24], p0.f[32], 3))
    return [('the result can be stored', bor(cmp_le(n, 1), cmp_eq(s.count, 0), cmp_lt(imul(start(p), r.isz), U32)))]


def par_inputs(c):
    n = c.uint('n')
    s = c.serie('s0')
    division(c.E, c.st, ser(c.st, s).count, n)
    return [s, n]


# ------------------------------------------------------------------ lemmas
def symbolic_shares():
    """start and size as written in the contracts, over a quotient and a remainder"""
    count, n, base, rem, k = z3.Ints('count n base rem k')
    h = [count >= 0, n >= 1, base >= 0, rem >= 0, rem < n, count == n * base + rem]
    start = lambda k: k * base + z3.If(k < rem, k, rem)
    size = lambda k: base + z3.If(k < rem, 1, 0)
    some = z3.If(count > 0, count, 1)
    p = z3.If(some < n, some, n)
    return count, n, base, rem, k, h, start, size, p


@lemma('the parts are consecutive, cover the Serie and are balanced', ('C10',))
def l_shares(E):
    count, n, base, rem, k, h, start, size, p = symbolic_shares()
    yield 'the first part starts at the first item', valid(*h, start(z3.IntVal(0)) == 0)
    yield 'each part starts where the previous one ends', valid(*h, k >= 0, (k + 1) * base == k * base + base, start(k + 1) == start(k) + size(k))
    # n > count: the quotient is 0
    yield 'more parts than items: one item each', valid(*h, n > count, z3.Implies(base >= 1, n * base >= n), z3.And(base == 0, rem == count))
    zero = z3.Implies(n > count, z3.And(base == 0, rem == count))
    yield 'the last part ends at the last item', valid(*h, zero, z3.Implies(base == 0, p * base == 0), z3.Implies(p == n, p * base == n * base), start(p) == count)
    yield 'so does the last of the parts of the variadic form', valid(*h, start(n) == count)
    j = z3.Int('j')
    yield 'sizes differ by at most one, larger ones first', valid(*h, 0 <= k, k < j, z3.And(size(k) >= size(j), size(k) <= size(j) + 1))
    yield 'no part of a Serie with items is empty (single form)', valid(*h, z3.Implies(base == 0, n * base == 0), count > 0, 0 <= k, k < p, size(k) >= 1)


@lemma('an item-wise function gives the same items on the parts, joined, as on the whole', ('C10',))
def l_parallel(E):
    start, size = z3.Function('start', I, I), z3.Function('size', I, I)
    item, g = z3.Function('item', I, V), z3.Function('g', V, V)
    part, res = z3.Function('part', I, I, V), z3.Function('res', I, I, V)
    j, i, k, q, r, m, z = z3.Ints('j i k q r m z')
    parts = z3.ForAll([j, i], z3.Implies(z3.And(0 <= i, i < size(j)), part(j, i) == item(start(j) + i)), patterns=[part(j, i)])
    itemwise = z3.ForAll([j, i], z3.Implies(z3.And(0 <= i, i < size(j)), res(j, i) == g(part(j, i))), patterns=[res(j, i)])
    yield 'item q of the whole is item q - start(k) of the part that holds it', valid(parts, itemwise, start(k) <= q, q < start(k) + size(k), res(k, q - start(k)) == g(item(q)))
    lo, ln = z3.Ints('lo ln')
    yield 'position q*z + r is in the values of the part that holds item q', valid(
        0 <= r, r < z, lo <= q, q < lo + ln, (q - lo) * z >= 0, (lo + ln - 1 - q) * z >= 0, (q - lo) * z == q * z - lo * z, (lo + ln - 1 - q) * z == lo * z + ln * z - z - q * z,
        z3.And(lo * z <= q * z + r, q * z + r < lo * z + ln * z))
    yield 'and in no other part', valid(0 <= r, r < z, z3.Or(q < lo, q >= lo + ln), z3.Implies(q < lo, (lo - 1 - q) * z >= 0), z3.Implies(q >= lo + ln, (q - lo - ln) * z >= 0),
                                        (lo - 1 - q) * z == lo * z - z - q * z, (q - lo - ln) * z == q * z - lo * z - ln * z,
                                        z3.Not(z3.And(lo * z <= q * z + r, q * z + r < lo * z + ln * z)))
