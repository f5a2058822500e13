"""Contracts of zip, zipVector, unzip, concat and merge."""
from spec import *
import loops
import fold as _f
from c_math import item_of, lser
from c_cmp import valid

SC = r'df::Serie const&'
LC = r'std::vector<df::Serie, A> const&'
ACC = _f.accc(I)
U32 = 1 << 32


def sums(E, f, n):
    """f(0) + ... + f(n-1)"""
    if isint(n):
        x = 0
        for k in range(n):
            x = iadd(x, f(k))
        return x
    g = loops.threshold_sum(f(K), K, lambda x: not isint(x) and z3.is_app(x) and x.decl().name() in ('MD', 'DV'))
    if g is not None:
        return g(n)
    return E.folds.fold(0, ACC + ex(f(K)), n)


def no_wrap(E, st, f, n):
    """the partial sums are 32-bit numbers"""
    E.folds.monotone(st, sums(E, f, n))
    k = E.fresh('k')
    s = sums(E, f, k)
    st.assume(E.forall([k], z3.Implies(z3.And(0 <= k, k < ex(n)), ex(band(cmp_le(0, s), cmp_lt(iadd(s, f(k)), U32))))))
    st.assume(cmp_le(0, sums(E, f, n)))
    st.assume(cmp_lt(sums(E, f, n), U32))


def sums_ok(E, st, f, n):
    if isint(n):
        return [('the sum is a 32-bit number', cmp_lt(sums(E, f, n), U32))]
    k = E.fresh('k')
    return [('the partial sums are 32-bit numbers', z3.Implies(z3.And(0 <= k, k < ex(n)), ex(band(cmp_le(0, sums(E, f, k)), cmp_lt(iadd(sums(E, f, k), f(k)), U32))))),
            ('the sum is a 32-bit number', band(cmp_le(0, sums(E, f, n)), cmp_lt(sums(E, f, n), U32)))]


# ------------------------------------------------------------------ zip
def zip_spec(E, st, p, ss):
    tot = 0
    los = []
    for s in ss:
        los.append(tot)
        tot = iadd(tot, s.isz)

    def go(t):
        def el(m):
            q, r = item_of(E, m, tot)
            x = None
            for s, lo in reversed(list(zip(ss, los))):
                v = at(s.v.arr, iadd(imul(q, s.isz), isub(r, lo)), t)
                x = v if x is None else ite(cmp_lt(r, iadd(lo, s.isz)), v, x)
            return x
        n = ss[0].count
        return outserie(E, t, p, vec(E, imul(n, tot), el, stride=tot), n, tot)
    return cases(st, *([(cmp_eq(s.isz, 0), throw) for s in ss] + [(bnot(cmp_eq(s.count, ss[0].count)), throw) for s in ss[1:]] + [(True, go)]))


def zip_pre(ss):
    tot = 0
    for s in ss:
        tot = iadd(tot, s.isz)
    return [('an item has fewer than 2^31 components', cmp_lt(tot, 1 << 31)), ('the items can be stored', cmp_lt(imul(ss[0].count, tot), U32))]


for _n in (1, 2, 3):
    contract('drv::zip_%d' % _n, r'^drv::zip_%d\(' % _n, inputs=(lambda n: lambda c: [c.ret(40)] + [c.serie('s%d' % i) for i in range(n)])(_n),
             props=('C08',), unit='u_join', site=False, pre=lambda E, st, a: zip_pre([ser(st, p) for p in a[1:]]), sizes={'s%d' % i: [1] for i in range(_n)})(
        lambda E, st, a: zip_spec(E, st, a[0], [ser(st, p) for p in a[1:]]))


def size_of(E, st, v):
    return lambda k: lser(E, st, v, k).isz


def zipv_inputs(c):
    p = c.series('l')
    v = c.st.read(p)
    no_wrap(c.E, c.st, size_of(c.E, c.st, v), v.n)
    set_stride(sums(c.E, size_of(c.E, c.st, v), v.n))
    return [c.ret(40), p]


def zipv_pre(E, st, v):
    f = size_of(E, st, v)
    tot = sums(E, f, v.n)
    return sums_ok(E, st, f, v.n) + [('an item has fewer than 2^31 components', cmp_lt(tot, 1 << 31)),
                                     ('the items can be stored', bor(cmp_eq(v.n, 0), cmp_lt(imul(lser(E, st, v, 0).count, tot), U32)))]


@contract('utils::zipVector', r'^df::utils::zipVector\(', inputs=zipv_inputs, props=('C08',), unit='u_join', pre=lambda E, st, a: zipv_pre(E, st, st.read(a[1])))
def s_zipv(E, st, a):
    v = st.read(a[1])
    f = size_of(E, st, v)
    s0 = lser(E, st, v, 0)

    def go(t):
        sk = lser(E, t, v, K)
        tot = sums(E, f, v.n)
        lo = sums(E, f, K)

        def el(m):
            q, r = item_of(E, m, tot)
            inside = band(cmp_le(lo, r), cmp_lt(r, iadd(lo, sk.isz)))
            return E.folds.fold(E.dconst(0.0), ite(inside, at(sk.v.arr, iadd(imul(q, sk.isz), isub(r, lo)), t), _f.accc(E.D)), v.n)
        return outserie(E, t, a[0], vec(E, imul(s0.count, tot), el, stride=tot), s0.count, tot)

    def checked(t):
        sk = lser(E, t, v, K)
        bad = E.folds.first_facts(t, ex(bor(cmp_eq(sk.isz, 0), bnot(cmp_eq(sk.count, s0.count)))), v.n)
        return cases(t, (cmp_lt(bad, v.n), throw), (True, go))
    return cases(st, (cmp_eq(v.n, 0), throw), (True, checked))


# ------------------------------------------------------------------ concat
def count_of(E, st, v):
    return lambda k: lser(E, st, v, k).count


def concat_inputs(c):
    p = c.series('l')
    v = c.st.read(p)
    no_wrap(c.E, c.st, count_of(c.E, c.st, v), v.n)
    return [c.ret(40), p]


def concat_pre(E, st, v):
    f = count_of(E, st, v)
    return sums_ok(E, st, f, v.n) + [('the items can be stored', bor(cmp_eq(v.n, 0), cmp_lt(imul(sums(E, f, v.n), lser(E, st, v, 0).isz), U32)))]


def joined(E, st, p, v, z):
    """the items of the series of a list, one Serie after the other"""
    f = count_of(E, st, v)
    n = v.n
    if isint(n):
        return glued(E, st, p, [lser(E, st, v, k) for k in range(n)], z)
    sk = lser(E, st, v, K)
    lo = imul(sums(E, f, K), z)

    def el(m):
        inside = band(cmp_le(lo, m), cmp_lt(m, iadd(lo, imul(sk.count, z))))
        return E.folds.fold(E.dconst(0.0), ite(inside, at(sk.v.arr, isub(m, lo), st), _f.accc(E.D)), n)
    tot = sums(E, f, n)
    return outserie(E, st, p, vec(E, imul(tot, z), el, stride=z), tot, z)


@contract('utils::concat(list)', r'^df::utils::concat\(%s\)$' % LC, inputs=concat_inputs, props=('C09',), unit='u_join',
          pre=lambda E, st, a: concat_pre(E, st, st.read(a[1])))
def s_concat(E, st, a):
    v = st.read(a[1])
    z = lser(E, st, v, 0).isz
    if isint(v.n) and v.n:
        ss = [lser(E, st, v, k) for k in range(v.n)]
        return cases(st, *([(bor(cmp_eq(s.isz, 0), bnot(cmp_eq(s.isz, z))), throw) for s in ss] + [(True, lambda t: joined(E, t, a[0], v, z))]))

    def go(t):
        zk = lser(E, t, v, K).isz
        bad = E.folds.first_facts(t, ex(bor(cmp_eq(zk, 0), bnot(cmp_eq(zk, z)))), v.n)
        return cases(t, (cmp_lt(bad, v.n), throw), (True, lambda u: joined(E, u, a[0], v, z)))
    return cases(st, (cmp_eq(v.n, 0), throw), (True, go))


# ------------------------------------------------------------------ merge
def glued(E, t, p, ss, z):
    tot = 0
    los = []
    for s in ss:
        los.append(imul(tot, z))
        tot = iadd(tot, s.count)

    def el(m):
        r = at(ss[-1].v.arr, isub(m, los[-1]), t)
        for s, lo, hi in reversed(list(zip(ss, los, los[1:]))):
            r = ite(cmp_lt(m, hi), at(s.v.arr, isub(m, lo), t), r)
        return r
    return outserie(E, t, p, vec(E, imul(tot, z), el, stride=z), tot, z)


def woven(E, t, p, ss, z):
    """first items, second items, ..., passing over the series that have no more"""
    tot = 0
    for s in ss:
        tot = iadd(tot, s.count)

    def rounds(u, live, done, at0, pieces):
        """live: series with more than `done` items; at0: items placed so far"""
        if not live:
            def el(m):
                q, r = item_of(E, m, z)
                x = E.dconst(0.0)
                for d0, a0, d1, a1, lv in reversed(pieces):
                    i, k = E.idiv(None, isub(q, a0), len(lv)), E.irem(None, isub(q, a0), len(lv))
                    v = at(lv[-1].v.arr, iadd(imul(iadd(d0, i), z), r), u)
                    for j in range(len(lv) - 1):
                        v = ite(cmp_eq(k, j), at(lv[j].v.arr, iadd(imul(iadd(d0, i), z), r), u), v)
                    x = ite(band(cmp_le(a0, q), cmp_lt(q, a1)), v, x)
                return x
            return outserie(E, u, p, vec(E, imul(tot, z), el, stride=z), tot, z)

        def ends(k):
            """the k-th live series is the first of the shortest"""
            def f(w):
                d1 = live[k].count
                a1 = iadd(at0, iscale(isub(d1, done), len(live)))
                return rounds(w, [s for i, s in enumerate(live) if i != k], d1, a1, pieces + [(done, at0, d1, a1, live)])
            return f
        cs = []
        for k, s in enumerate(live[:-1]):
            cs.append((band(*[cmp_le(s.count, o.count) for o in live[k + 1:]]), ends(k)))
        return cases(u, *(cs + [(True, ends(len(live) - 1))]))
    return rounds(t, ss, 0, 0, [])


def merge_spec(ss, cat, sret):
    def spec(E, st):
        cs = [(bnot(cmp_eq(s.isz, ss[0].isz)), throw) for s in ss[1:]]
        z = ss[0].isz
        return cases(st, *(cs + [(cat, lambda t: glued(E, t, sret, ss, z)), (True, lambda t: woven(E, t, sret, ss, z))]))
    return spec


def total_fits(ss):
    n = 0
    for s in ss:
        n = iadd(n, s.count)
    return [('the number of items is a 32-bit number', cmp_lt(n, U32)),
            ('the items can be stored', cmp_lt(imul(n, ss[0].isz), U32))]


for _n in (1, 2, 3, 4, 5):
    @contract('drv::concat_%d' % _n, r'^drv::concat_%d\(' % _n, inputs=(lambda n: lambda c: [c.ret(40)] + [c.serie('s%d' % i) for i in range(n)])(_n),
              props=('C09',), unit='u_join', site=False, pre=lambda E, st, a: total_fits([ser(st, p) for p in a[1:]]))
    def s_concatn(E, st, a):
        ss = [ser(st, p) for p in a[1:]]
        z = ss[0].isz
        return cases(st, *([(bor(cmp_eq(s.isz, 0), bnot(cmp_eq(s.isz, z))), throw) for s in ss] + [(True, lambda t: glued(E, t, a[0], ss, z))]))


def truth(x):
    return x if isinstance(x, bool) or z3.is_expr(x) and z3.is_bool(x) else cmp_eq(x, 1)


def flag(c):
    x = c.uint('cat', 1)
    return x


contract('merge(a,b,cat)', r'^df::merge\(%s, %s, bool\)$' % (SC, SC), inputs=lambda c: [c.ret(40), c.serie('a'), c.serie('b'), flag(c)], props=('C09',), unit='u_join',
         pre=lambda E, st, a: total_fits([ser(st, p) for p in a[1:3]]))(
    lambda E, st, a: merge_spec([ser(st, p) for p in a[1:3]], truth(a[3]), a[0])(E, st))
contract('drv::merge_d', r'^drv::merge_d\(', inputs=lambda c: [c.ret(40), c.serie('a'), c.serie('b')], props=('C09',), unit='u_join', site=False,
         pre=lambda E, st, a: total_fits([ser(st, p) for p in a[1:3]]))(
    lambda E, st, a: merge_spec([ser(st, p) for p in a[1:3]], True, a[0])(E, st))
for _n in (1, 2, 3):
    contract('drv::merge_v%d' % _n, r'^drv::merge_v%d\(' % _n, inputs=(lambda n: lambda c: [c.ret(40), flag(c)] + [c.serie('s%d' % i) for i in range(n)])(_n),
             props=('C09',), unit='u_join', site=False, pre=lambda E, st, a: total_fits([ser(st, p) for p in a[2:]]))(
        lambda E, st, a: merge_spec([ser(st, p) for p in a[2:]], truth(a[1]), a[0])(E, st))


# ------------------------------------------------------------------ unzip
def unzip_inputs(c):
    E, st = c.E, c.st
    s = c.serie('s')
    rid = st.new_region('item sizes', 'param', 24)
    f = E.uf('zsize', I, I)
    n = c.size('parts', 60)
    k = z3.Int('k!zsize')
    st.assume(z3.ForAll([k], z3.And(f(k) >= 0, f(k) < (1 << 31)), patterns=[f(k)]))
    v = Vec(n, Arr(fn=lambda m: f(ex(m))), 'unsigned int', 4)
    st.wreg(rid).cells[0] = v
    no_wrap(E, st, lambda m: at(v.arr, m, st), n)
    w = ser(st, s)
    # a term is at most the sum (the sum up to it is not negative)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ex(n)), ex(cmp_le(f(k), sums(E, lambda m: at(v.arr, m, st), n)))), patterns=[f(k)]))
    # multiplication is monotone (a fact of arithmetic, not a precondition)
    st.assume(z3.ForAll([k], z3.Implies(f(k) <= ex(w.isz), z3.And(*[x <= ex(imul(w.count, w.isz)) for x in (MUL(ex(w.count), f(k)), MUL(f(k), ex(w.count)))])), patterns=[f(k)]))
    return [c.ret(24), s, Ptr(rid)]


@contract('utils::unzip', r'^df::utils::unzip\(', inputs=unzip_inputs, props=('C08',), unit='u_join',
          pre=lambda E, st, a: sums_ok(E, st, lambda m: at(st.read(a[2]).arr, m, st), st.read(a[2]).n))
def s_unzip(E, st, a):
    s, v = ser(st, a[1]), st.read(a[2])
    f = lambda m: at(v.arr, m, st)

    def go(t):
        dim = anyval(E, t)

        def part(k):
            z, lo = f(k), sums(E, f, k)

            def el(m):
                q, r = item_of(E, m, z)
                return at(s.v.arr, iadd(imul(q, s.isz), iadd(lo, r)), st)
            return Rec({0: vec(E, imul(s.count, z), el, stride=z), 24: s.count, 28: dim, 32: z})
        t.write(a[0], vec(E, v.n, part, ety='df::Serie'))
        return ret(t)
    return cases(st, (cmp_eq(v.n, 0), throw), (bnot(cmp_eq(sums(E, f, v.n), s.isz)), throw), (True, go))


# ------------------------------------------------------------------ what the contracts say together
def inductive(base, step):
    return valid(*base) and valid(*step)


@lemma('the item sizes of a list cut every item into consecutive pieces: each position lies in exactly one', ('C08', 'C09', 'C10'))
def l_cut(E):
    S, z = z3.Function('S', I, I), z3.Function('z', I, I)
    n, k, j, r = z3.Ints('n k j r')
    i = z3.Int('i')
    ax = [z3.ForAll([i], z3.Implies(i >= 0, z3.And(S(i + 1) == S(i) + z(i), z(i) >= 0)), patterns=[S(i + 1)]), S(0) == 0]
    ins = lambda k: z3.And(S(k) <= r, r < S(k) + z(k))
    some = lambda n: z3.Exists([k], z3.And(0 <= k, k < n, ins(k)))
    yield 'none before the first', valid(*ax, z3.Not(z3.And(0 <= r, r < S(0))))
    yield 'one more piece: a position is in an earlier piece or in it', valid(*ax, n >= 0, S(n + 1) == S(n) + z(n), z3.Implies(r < S(n), some(n)), 0 <= r, r < S(n + 1),
                                                                            z3.Or(some(n), ins(n)))
    grow = lambda n: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), S(k) + z(k) <= S(n)))
    yield 'later pieces start after the end of the earlier ones', valid(*ax, n >= 0, S(n + 1) == S(n) + z(n), z(n) >= 0, S(n) >= 0, grow(n), grow(n + 1))
    yield 'so no position is in two', valid(*ax, 0 <= j, j < k, S(j) + z(j) <= S(k), ins(k), z3.Not(ins(j)))


@lemma('the value of a joined position is the one of its piece', ('C08', 'C09', 'C10'))
def l_pick(E):
    F, x = z3.Function('F', I, E.D), z3.Function('x', I, E.D)
    ins = z3.Function('inside', I, z3.BoolSort())
    n, k, j, i = z3.Ints('n k j i')
    z = E.dconst(0.0)
    own = [0 <= k, ins(k), z3.ForAll([j], z3.Implies(ins(j), j == k))]
    step = F(n + 1) == z3.If(ins(n), x(n), F(n))
    good = lambda n: F(n) == z3.If(k < n, x(k), z)
    yield 'no piece', valid(*own, F(0) == z, good(z3.IntVal(0)))
    yield 'one more piece', valid(*own, step, n >= 0, good(n), good(n + 1))


@lemma('unzipping a zipped Serie gives the parts', ('C08',))
def l_unzip(E):
    q, r, q2, r2, tot, lo, z = z3.Ints('q r q2 r2 tot lo z')
    h = [0 <= lo, 0 <= r, r < z, lo + z <= tot, 0 <= r2, r2 < tot, q >= 0, q2 >= 0]
    d = z3.Int('d')
    yield 'different items are a whole item apart', valid(tot > 0, d != 0, z3.Or(d * tot >= tot, d * tot <= -tot))
    yield 'position q*total + lo + r is component lo + r of item q', valid(*h, q * tot + lo + r == q2 * tot + r2, z3.Implies(q != q2, z3.Or((q - q2) * tot >= tot, (q - q2) * tot <= -tot)),
                                                                           (q - q2) * tot == q * tot - q2 * tot, z3.And(q == q2, r2 == lo + r))
    yield 'which lies in the piece that starts at lo', valid(*h, r2 == lo + r, z3.And(lo <= r2, r2 < lo + z, r2 - lo == r))


@lemma('interleaving: item i of input j is preceded by the items of smaller number and the items i of the inputs before it', ('C09',))
def l_woven(E):
    for n in (1, 2, 3):
        st = State(E)
        cs = [z3.Int('count%d' % k) for k in range(n)]
        fs = [z3.Function('item%d' % k, I, E.D) for k in range(n)]
        for c in cs:
            st.assume(c >= 0)
        ss = [Ser(vec(E, c, (lambda f: lambda m: f(ex(m)))(f), stride=1), c, 1, 1) for c, f in zip(cs, fs)]
        p = Ptr(st.new_region('merged', 'param', 40))
        E.specmode = True
        outs = woven(E, st, p, ss, 1)
        E.specmode = False
        i = z3.Int('i')
        least = lambda a, b: z3.If(a < b, a, b)
        total = z3.Sum(cs)
        yield '%d inputs: some outcome' % n, bool(outs)
        for o in outs:
            s = ser(o.st, p)
            yield '%d inputs: as many items as the inputs have' % n, o.st.prove(ex(s.count) == total)
            for j in range(n):
                pos = z3.Sum([least(i + 1, cs[k]) if k < j else least(i, cs[k]) for k in range(n)])
                t = o.st.clone()
                t.assume(z3.And(i >= 0, i < cs[j]))
                if not t.feasible():
                    continue
                m = E.fresh('pos')
                t.assume(m == pos)
                yield '%d inputs: item i of input %d' % (n, j + 1), t.prove(z3.And(m >= 0, m < ex(s.count))) and E.prove_eq(t, at(s.v.arr, m, t), fs[j](i))
