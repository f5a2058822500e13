"""Contracts of memoize. The layout of the keys is not specified: the key of a Serie is what the code itself makes of
it on an empty cache, and two lemmas about those keys (made by running the code on two series) say that equal keys
come from equal series only, and equal series get equal keys."""
from spec import *
import maps

FN = 'SerieFnM'
OP = r'^df::utils::Memoized<vf::SerieFnM>::operator\(\)\(df::Serie const&\) const$'
CACHE = 8
SERIE = 'df::Serie'


def memo_fn(E):
    fs = [f for f in E.prog.where if re.search(OP, E.prog.dem[f])]
    if not fs:
        raise Fail('no memoized operator()')
    return fs[0]


def keys(E, st, s):
    """[(state, key vector, its type)]: what the code files a Serie under"""
    memo, res = Ptr(st.new_region('an empty cache', 'ghost', 56)), Ptr(st.new_region('result', 'ghost', 40))
    K = key_type(E)
    maps.put(st, memo.add(CACHE), *maps.empty(E, K, SERIE))
    st.write(memo, 0)
    tr = st.regs[st.ghost['trace']].cells[0]
    old, E.nofail = getattr(E, 'nofail', False), True
    try:
        outs = E.run_function(memo_fn(E), [res, memo, s], st)
    finally:
        E.nofail = old
    r = []
    for o in outs:
        if o.kind != 'ret':
            raise Fail('the memoized call on an empty cache raises an exception of its own')
        v, od = maps.get(E, o.st, memo.add(CACHE))
        if not isint(od.n) or od.n != 1:
            raise Fail('one call on an empty cache does not add one entry')
        o.st.wreg(o.st.ghost['trace']).cells[0] = tr
        r.append((o.st, at(v.arr, od.slot(0)).f[0]))
    return r


def key_type(E):
    if 'memokey' not in E.prog.__dict__:
        E.prog.memokey = None
        for f in E.prog.where:
            m = re.match(r'(std::map<.*, df::Serie, .*>)::(?:map|~map|clear|find|operator\[\])\(', E.prog.dem[f])
            if m and not maps.is_str(maps.map_types(m.group(1))[0]):
                E.prog.memokey = maps.map_types(m.group(1))[0]
    if E.prog.memokey is None:
        raise Fail('no std::map to Serie')
    return E.prog.memokey


def memo(c):
    """a memoized function after any history: a cache with any keys and well-formed series"""
    E, st = c.E, c.st
    K = key_type(E)
    v = st.read(c.series('in_cache'))
    m, o = maps.fresh_map(E, st, 'cache', K, SERIE, lambda k: at(v.arr, k).f, n=v.n)
    p = Ptr(st.new_region('memoized', 'param', 56))
    st.write(p, 0)
    maps.put(st, p.add(CACHE), m, o)
    c.events(FN)
    return p


@contract('Memoized::operator()', OP, inputs=lambda c: [c.ret(40), memo(c), c.serie('s')], props=('C20',), unit='u_memo', site=False)
def s_memo(E, st, a):
    out = []
    K = key_type(E)
    off, es = maps.layout(E, K, SERIE)
    for t, kv in keys(E, st, a[2]):
        k = maps.keyterm(E, t, {0: kv}, K)
        s = ser(t, a[2])
        v, o = maps.get(E, t, a[1].add(CACHE))
        for u, p in maps.where(E, t, v, o, K, k):
            if p is not None:
                r = ser(u, a[1].add(CACHE).elem(o.slot(p)).add(off))
                wser(u, a[0], r.v, r.count, r.isz, r.dim)
                out += ret(u)
                continue

            def go(w):
                r = apply_seriefn(E, w, FN, s)
                wser(w, a[0], r.v, r.count, r.isz, r.dim)
                v2, o2, h = maps.inserted(E, w, v, o, K, k, Rec({0: kv, off: r.v, off + 24: r.count, off + 28: r.dim, off + 32: r.isz}))
                maps.put(w, a[1].add(CACHE), v2, o2)
                return ret(w)
            trace_serie(E, u, s)
            out += cases(u, (fails(E, FN, u, s), lambda w: throw(w, None)), (True, go))
    return out


@contract('utils::memoize', r'^drv::memoized\(', inputs=lambda c: [c.ret(56), c.obj('f')], props=('C20',), unit='u_memo', site=False)
def s_new(E, st, a):
    maps.put(st, a[0].add(CACHE), *maps.empty(E, key_type(E), SERIE))
    return ret(st)


@contract('Memoized::clear_cache', r'^df::utils::Memoized<vf::SerieFnM>::clear_cache\(', inputs=lambda c: [memo(c)], props=('C20',), unit='u_memo', site=False)
def s_forget(E, st, a):
    maps.put(st, a[0].add(CACHE), *maps.empty(E, key_type(E), SERIE))
    return ret(st)


# ------------------------------------------------------------------ lemmas
def equal_keys(E, st, a, b, m):
    """what equal keys say about some places: the first and the last ones, and those around m"""
    st.assume(cmp_eq(a.n, b.n))
    js = list(range(8)) + [isub(a.n, 1 + i) for i in range(4)] + [iadd(m, i) for i in range(8)]
    for j in js:
        st.assume(z3.Implies(ex(band(cmp_le(0, j), cmp_lt(j, a.n))), ex(cmp_eq(at(a.arr, j, st), at(b.arr, j, st)))))


@lemma('keys: series with equal keys are equal', ('C20',), mode='exact')
def l_separate(E):
    c = Ctx(E)
    x, y = c.serie('x'), c.serie('y')
    for t, a in keys(E, c.st.clone(), x):
        for u, b in keys(E, t.clone(), y):
            p, q = ser(u, x), ser(u, y)
            m = E.fresh('m')
            w = u.clone()
            equal_keys(E, w, a, b, m)
            if not w.feasible():
                continue
            for f, nm in (('isz', 'item size'), ('count', 'count'), ('dim', 'dimension')):
                yield 'the same ' + nm, w.prove(cmp_eq(getattr(p, f), getattr(q, f)))
            w.assume(band(cmp_le(0, m), cmp_lt(m, p.v.n)))
            w.assume(cmp_eq(p.isz, q.isz))
            w.assume(cmp_eq(p.v.n, q.v.n))
            yield 'the same values', w.prove(at(p.v.arr, m, w) == at(q.v.arr, m, w))


@lemma('keys: equal series have equal keys', ('C20',), mode='exact')
def l_same(E):
    c = Ctx(E)
    x, y = c.serie('x'), c.serie('y')
    s = ser(c.st, x)
    wser(c.st, y, s.v, s.count, s.isz, s.dim)
    for t, a in keys(E, c.st.clone(), x):
        for u, b in keys(E, t.clone(), y):
            if u.feasible():
                yield 'the same key', E.prove_same(u, a, b)


@lemma('a memoized function: what is stored stays the result of the function', ('C20',))
def l_history(E):
    st = State(E)
    KT = 'std::vector<unsigned long, A>'
    key, fv = E.uf('key_of', V, I, I, I, V), E.uf('result_of', V, I, I, I, I)
    mk = lambda n: [z3.Const('v_' + n, V)] + [z3.Int('%s_%s' % (f, n)) for f in ('count', 'isz', 'dim')]
    x, y = mk('x'), mk('y')
    # the lemma above, for these two
    st.assume(z3.Implies(key(*x) == key(*y), z3.And(*[a == b for a, b in zip(x, y)])))
    v, o = maps.fresh_map(E, st, 'm', KT, SERIE, lambda m: {24: E.uf('value', I, I)(ex(m))})
    val = lambda v, o, k: at(v.arr, o.slot(o.pos(k))).f[48]
    holds = lambda t, v, o, z: z3.Implies(ex(cmp_le(0, o.pos(key(*z)))), ex(cmp_eq(val(v, o, key(*z)), fv(*z))))
    kx, ky = key(*x), key(*y)
    maps.facts(E, st, o, kx)
    maps.facts(E, st, o, ky)
    st.assume(holds(st, v, o, x))
    st.assume(holds(st, v, o, y))
    a = st.clone()
    a.assume(cmp_le(0, o.pos(kx)))
    yield 'a known argument gives the result of the function', a.prove(cmp_eq(val(v, o, kx), fv(*x)))
    a = st.clone()
    a.assume(cmp_lt(o.pos(kx), 0))
    v2, o2, h = maps.inserted(E, a, v, o, KT, kx, Rec({0: maps.ints_of(E, kx, KT), 48: fv(*x)}))
    yield 'after a call the argument is known', a.prove(cmp_le(0, o2.pos(kx)))
    yield 'with the result of the function', a.prove(holds(a, v2, o2, x))
    yield 'and what is stored for any other argument is still its result', a.prove(holds(a, v2, o2, y))
    a.assume(cmp_le(0, o.pos(ky)))
    yield 'which stays known', a.prove(cmp_le(0, o2.pos(ky)))
