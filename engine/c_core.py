"""Contracts of the higher-order functions: map, apply, filter, reject, cut, partition, find, findAll, check, forEach, reduce, pipe."""
from spec import *
import fold as _f

P = lambda n: r'vf::%s const&' % n
S = r'df::Serie'
SC = r'df::Serie const&'


# ------------------------------------------------------------------ map
def empty_serie(E, st, p, isz):
    return outserie(E, st, p, empty_vec(E, 'double'), 0, isz)


def map_spec(cbname, multi, sig=None, fn=None, first=2):
    """map: item i of the result is cb(item i of every input, i), in order"""
    res, ps = sig or CALLBACKS[cbname]
    def number(E, st, *xs):
        r = cb(E, st, cbname, *xs)
        if res == 'i':
            return E.i2d(E.sview(st, r, 32))
        return z3.If(r, E.dconst(1.0), E.dconst(0.0)) if res == 'b' else r
    fn = fn or (lambda E, st, ss: lambda *xs: number(E, st, *xs))
    isnum = res in 'dib'

    def spec(E, st, a):
        ss = [ser(st, p) for p in a[first:]]
        n = ss[0].count
        call = lambda t, *xs: fn(E, t, ss)(*xs)

        def arg(t, i):
            if ps[0] == 'd':
                return [at(ss[0].v.arr, i, t), i]
            return [rowt(E, t, s, i) for s in ss] + [i]

        def called(t, n):
            if cbname in TRACED:
                w = t.wreg(t.ghost['trace'])
                v = w.cells[0]
                w.cells[0] = Opaque('any') if n is None else \
                    Vec(iadd(v.n, n), Arr(parent=v.arr, lo=v.n, n=n, lf=lambda i: Rec({8 * j: x for j, x in enumerate(arg(t, i))})), 'ev', 16)

        def failed(t):
            called(t, None)         # how many calls were made before the exception is left open
            return throw(t, '_ZTISt13runtime_error')

        def body(t):
            if isnum:
                v = vec(E, n, lambda i: call(t, *arg(t, i)))
                called(t, n)
                return outserie(E, t, a[0], v, n, 1)
            r0 = call(t, *arg(t, 0))
            t.assume(z3.And(vlen(r0) >= 0, vlen(r0) < (1 << 31)))
            z = vlen(r0)
            set_stride(z)
            rk = ex(call(t, *arg(t, K)))
            f = E.folds.first_facts(t, ex(bnot(cmp_eq(vlen(rk), z))), n)

            def good(u):
                called(u, n)

                def el(m):
                    q, r = loops.rowsplit(E, m, z)
                    return E.vat(call(u, *arg(u, q)), ex(r))
                # an item size of zero yields no items
                return cases(u, (cmp_eq(z, 0), lambda w: outserie(E, w, a[0], Vec(imul(n, z), Arr(fn=el, stride=z), 'double', 8), 0, z)),
                             (True, lambda w: outserie(E, w, a[0], Vec(imul(n, z), Arr(fn=el, stride=z), 'double', 8), n, z)))
            return cases(t, (cmp_eq(f, n), good), (True, failed))

        cs = []
        for s in ss[1:]:
            cs.append((bnot(cmp_eq(s.count, n)), throw))
        # a scalar callback needs one scalar per item
        if ps[0] == 'd':
            cs.append((band(cmp_lt(0, n), cmp_eq(ss[0].isz, 0)), throw))
        if isnum:
            cs.append((cmp_eq(n, 0), lambda t: empty_serie(E, t, a[0], 1)))
        else:
            cs.append((cmp_eq(n, 0), lambda t: empty_serie(E, t, a[0], 0)))
        cs.append((True, body))
        return cases(st, *cs)
    return spec


import loops


def cb_in(n, cbname, **kw):
    def f(c):
        c.events(cbname)
        return [c.ret(40), c.obj('callback')] + [c.serie('s%d' % i, **kw) for i in range(n)]
    return f


def map_pre(ps):
    def pre(E, st, a):
        return []
    return pre


for _c, _n in (('SMap', 1), ('SVMap', 1), ('VMap', 1), ('VVMap', 1), ('VVSMap2', 2), ('VVVMap2', 2), ('VVVVMap3', 3),
               ('IMap', 1), ('BMap', 1), ('VVIMap2', 2), ('VVVSMap3', 3)):
    _sl = ', '.join([S] * _n)
    _al = ', '.join([SC] * _n)
    for _nm in ('map', 'utils::apply')[:2 if _c not in ('IMap', 'BMap', 'VVIMap2', 'VVVSMap3') else 1]:
        contract('%s<%s>' % (_nm, _c), r'df::%s<vf::%s const&, %s>\(vf::%s const&, %s\)$' % (_nm, _c, _sl, _c, _al),
                 inputs=cb_in(_n, _c), props=('C04',), unit='u_core')(map_spec(_c, _n > 1))


# ------------------------------------------------------------------ selection
def cbargs(E, t, ps, ss, i, index=True):
    if ps[0] == 'd':
        a = [at(ss[0].v.arr, i, t)]
    else:
        a = [rowt(E, t, s, i) for s in ss]
    return a + ([i] if index else [])


def selection(E, t, cbname, ss, neg):
    """(count, sel): the selected item numbers in increasing order"""
    res, ps = CALLBACKS[cbname]
    n = ss[0].count
    st2 = t.clone()
    st2.assume(z3.And(K >= 0, K < ex(n)))
    c = holds(E, st2, cbname, *cbargs(E, st2, ps, ss, K, index='i' in ps))
    cnt, sel = E.folds.rank(z3.Not(c) if neg else c)
    return cnt(n), sel


def sel_items(E, t, s, m, sel, scalar):
    if scalar:
        return Vec(m, Arr(fn=lambda r: at(s.v.arr, sel(r), t)), 'double', 8)

    def el(rel):
        q, r = loops.rowsplit(E, rel, s.isz)
        return at(s.v.arr, iadd(imul(sel(q), s.isz), r), t)
    return Vec(imul(m, s.isz), Arr(fn=el, stride=s.isz), 'double', 8)


def sel_result(E, t, p, s, m, sel, scalar):
    wser(t, p, sel_items(E, t, s, m, sel, scalar), m, 1 if scalar else s.isz, anyval(E, t))


def isz1_pre(E, st, a):
    return [('a scalar callback is used with scalar items', cmp_eq(ser(st, a[2]).isz, 1))]


def select_spec(cbname, neg, off=None):
    """the items of every input at the selected positions, in order, aligned across the inputs"""
    res, ps = CALLBACKS[cbname]

    def spec(E, st, a):
        ss = [ser(st, p) for p in a[2:]]

        def body(t):
            m, sel = selection(E, t, cbname, ss, neg)
            k = len(ss)
            for i, s in enumerate(ss):
                sel_result(E, t, a[0].add(40 * (k - 1 - i)), s, m, sel, ps[0] == 'd')
            return ret(t)
        return cases(st, *([(bnot(cmp_eq(s.count, ss[0].count)), throw) for s in ss[1:]] + [(True, body)]))
    return spec


def selall_spec(cbname, neg):
    res, ps = CALLBACKS[cbname]

    def spec(E, st, a):
        ss = [ser(st, p) for p in a[2:]]

        def body(t):
            m, sel = selection(E, t, cbname, ss, neg)
            els = [Rec({0: sel_items(E, t, s, m, sel, False), 24: m, 28: anyval(E, t), 32: s.isz}) for s in ss]
            t.write(a[0], Vec(len(ss), Arr(fn=list_fn(els)), 'df::Serie', 40))
            return ret(t)
        return cases(st, *([(bnot(cmp_eq(s.count, ss[0].count)), throw) for s in ss[1:]] + [(True, body)]))
    return spec


def multi_in(n, size):
    def f(c):
        ps = [c.serie('s%d' % i) for i in range(n)]
        for p in ps:
            s = ser(c.st, p)
            c.st.assume(bor(cmp_lt(0, s.isz), cmp_eq(s.count, 0)))
        return [c.ret(size), c.obj('callback')] + ps
    return f


for _fn, _neg in (('filter', False), ('utils::reject', True)):
    for _c, _n in (('SPred', 1), ('VPred', 1), ('VVPred', 2), ('VVVPred', 3)):
        contract('%s<%s>' % (_fn, _c), r'df::%s<vf::%s const&, %s>\(vf::%s const&, %s\)$' % (_fn, _c, ', '.join([S] * _n), _c, ', '.join([SC] * _n)),
                 inputs=multi_in(_n, 40 * _n), props=('C05',), unit='u_core', pre=isz1_pre if _c in ('SPred', 'SPredI') else None)(select_spec(_c, _neg))
for _fn, _neg in (('filterAll', False), ('utils::rejectAll', True)):
    for _c, _n in (('VVPredN', 2), ('VVVPredN', 3)):
        contract('%s<%s>' % (_fn, _c), r'df::%s<vf::%s const&, %s>\(' % (_fn, _c, ', '.join([S] * _n)), inputs=multi_in(_n, 24), props=('C05',),
                 unit='u_core')(selall_spec(_c, _neg))
for _c in ('SPred', 'VPred', 'SPredI', 'VPredI'):
    if _c[-1] != 'I':
        contract('utils::cut<%s>' % _c, r'df::utils::cut<vf::%s const&>\(' % _c, inputs=multi_in(1, 40), props=('C05',), unit='u_core',
                 pre=isz1_pre if _c in ('SPred', 'SPredI') else None)(select_spec(_c, False))
    contract('findAll<%s>' % _c, r'df::findAll<vf::%s const&>\(' % _c, inputs=multi_in(1, 40), props=('C05', 'C07'), unit='u_core',
             pre=isz1_pre if _c in ('SPred', 'SPredI') else None)(select_spec(_c, False))

    def _mkp(cbname):
        scal = cbname in ('SPred', 'SPredI')

        @contract('utils::partition<%s>' % cbname, r'df::utils::partition<vf::%s const&>\(' % cbname, inputs=multi_in(1, 80), props=('C05',),
                  unit='u_core')
        def _sp(E, st, a):
            s = ser(st, a[2])

            def body(t):
                m, sel = selection(E, t, cbname, [s], False)
                m2, sel2 = selection(E, t, cbname, [s], True)
                sel_result(E, t, a[0].add(40), s, m, sel, scal)
                sel_result(E, t, a[0], s, m2, sel2, scal)
                return ret(t)
            if scal:
                return cases(st, (bnot(cmp_eq(s.isz, 1)), throw), (True, body))
            return body(st)
    _mkp(_c)


# ------------------------------------------------------------------ find and check
def first_of(E, t, cbname, s):
    res, ps = CALLBACKS[cbname]
    st2 = t.clone()
    st2.assume(z3.And(K >= 0, K < ex(s.count)))
    c = holds(E, st2, cbname, *cbargs(E, st2, ps, [s], K))
    return E.folds.first_facts(t, c, s.count)


def find_spec_s(cbname):
    def spec(E, st, a):
        s = ser(st, a[1])

        def body(t):
            f = first_of(E, t, cbname, s)
            return cases(t, (cmp_lt(f, s.count), lambda u: ret(u, Agg([at(s.v.arr, f, u), Pack([(0, 4, f), (4, 1, True)], 8)]))),
                         (True, lambda u: ret(u, Agg([E.dconst(0.0), Pack([(0, 4, 0), (4, 1, False)], 8)]))))
        return cases(st, (bnot(cmp_eq(s.isz, 1)), throw), (True, body))
    return spec


def find_spec_v(cbname):
    def spec(E, st, a):
        s = ser(st, a[2])

        def res(u, v, i, b):
            u.write(a[0], v)
            u.write(a[0].add(24), i)
            u.write(a[0].add(28), b)
            return ret(u)

        def body(t):
            f = first_of(E, t, cbname, s)
            return cases(t, (cmp_lt(f, s.count), lambda u: res(u, row(E, u, s, f), f, True)),
                         (True, lambda u: res(u, empty_vec(E, 'double'), 0, False)))
        return cases(st, (cmp_eq(s.isz, 1), throw), (True, body))
    return spec


for _c in ('SPred', 'SPredI'):
    contract('find<%s>' % _c, r'df::find<vf::%s const&>\(' % _c, inputs=lambda c: [c.obj('callback'), c.serie('s0')], props=('C07',),
             unit='u_core')(find_spec_s(_c))
for _c in ('VPred', 'VPredI'):
    contract('find<%s>' % _c, r'df::find<vf::%s const&>\(' % _c, inputs=lambda c: [c.ret(32), c.obj('callback'), c.serie('s0')], props=('C07',),
             unit='u_core')(find_spec_v(_c))


def check_spec(cbname):
    res, ps = CALLBACKS[cbname]

    def spec(E, st, a):
        s = ser(st, a[1])
        one, zero = E.dconst(1.0), E.dconst(0.0)
        v = vec(E, s.count, lambda i: z3.If(holds(E, st, cbname, *cbargs(E, st, ps, [s], i)), one, zero))
        return outserie(E, st, a[0], v, s.count, 1)
    return spec


for _c in ('SPred', 'VPred', 'SPredI', 'VPredI'):
    contract('cond::check<%s>' % _c, r'df::cond::check<vf::%s const&>\(' % _c,
             inputs=lambda c: [c.ret(40), c.serie('s0'), c.obj('callback')], props=('C07',), unit='u_core',
             pre=(lambda E, st, a: [('a scalar callback is used with scalar items', cmp_eq(ser(st, a[1]).isz, 1))]) if _c in ('SPred', 'SPredI') else None)(check_spec(_c))


# ------------------------------------------------------------------ forEach
def foreach_spec(cbname):
    res, ps = CALLBACKS[cbname]

    def spec(E, st, a):
        ss = [ser(st, p) for p in a[1:]]
        n = ss[0].count

        def body(t):
            g = t.ghost['trace']
            w = t.wreg(g)
            v = w.cells[0]
            w.cells[0] = Vec(iadd(v.n, n), Arr(parent=v.arr, lo=v.n, n=n, lf=lambda i: Rec(
                {8 * j: x for j, x in enumerate(cbargs(E, t, ps, ss, i))})), 'ev', 16)
            return ret(t)
        cs = [(bnot(cmp_eq(s.count, n)), throw) for s in ss[1:]]
        if len(ss) == 1:
            cs.append((bnot(cmp_eq(ss[0].isz, 1)) if ps[0] == 'd' else cmp_eq(ss[0].isz, 1), throw))
        return cases(st, *(cs + [(True, body)]))
    return spec


for _c, _n in (('SEach', 1), ('VEach', 1), ('VVEach', 2), ('VVVEach', 3), ('VVVVEach', 4)):
    contract('forEach<%s>' % _c, r'df::forEach<vf::%s const&, %s>\(' % (_c, ', '.join([S] * _n)),
             inputs=with_events(_c, (lambda n: lambda c: [c.obj('callback')] + [c.serie('s%d' % i) for i in range(n)])(_n)), props=('C06',), unit='u_core')(foreach_spec(_c))


# ------------------------------------------------------------------ reduce
@contract('reduce<SFold>', r'df::reduce<vf::SFold const&>\(vf::SFold const&, df::Serie const&, double\)$|_ZN2df6reduceIRKN2vf5SFoldE',
          inputs=lambda c: [c.obj('callback'), c.serie('s0'), c.dbl('init')], props=('C06',), unit='u_core',
          pre=lambda E, st, a: [('a scalar callback is used with scalar items', cmp_eq(ser(st, a[1]).isz, 1))])
def s_reduce_s(E, st, a):
    s = ser(st, a[1])
    acc = _f.accc(E.D)
    return ret(st, E.folds.fold(a[2], cb(E, st, 'SFold', acc, at(s.v.arr, K, st), K), s.count))


@contract('reduce<VFold>', r'df::reduce<vf::VFold const&>\(vf::VFold const&, df::Serie const&, std::vector<double, A> const&\)$|_ZN2df6reduceIRKN2vf5VFoldE',
          inputs=lambda c: [c.ret(40), c.obj('callback'), c.serie('s0'), c.array('init', small=True)], props=('C06',), unit='u_core')
def s_reduce_v(E, st, a):
    s = ser(st, a[2])
    acc = _f.accc(V)
    st2 = st.clone()
    st2.assume(z3.And(K >= 0, K < ex(s.count)))
    v0 = E.reify(st, st.read(a[3]))
    r = E.folds.fold(v0, cb(E, st, 'VFold', acc, rowt(E, st2, s, K), K), s.count)
    v = E.vec_of(r)
    return cases(st, (cmp_eq(v.n, 0), lambda t: outserie(E, t, a[0], v, 0, v.n)), (True, lambda t: outserie(E, t, a[0], v, 1, v.n)))


# ------------------------------------------------------------------ pipe
def pipe_spec(names, si):
    def spec(E, st, a):
        s = ser(st, a[si])
        for n in names:
            s = apply_seriefn(E, st, n, s)
        wser(st, a[0], s.v, s.count, s.isz, s.dim)
        return ret(st)
    return spec


FNS = ['SerieFn'] + ['SerieFn%d' % i for i in range(2, 7)]
for _k in range(1, 7):
    _ns = FNS[:_k]
    _cs = ', '.join('vf::%s const&' % x for x in _ns)
    contract('pipe/%d' % _k, r'df::pipe<df::Serie, %s>\(' % _cs,
             inputs=(lambda k: lambda c: [c.ret(40), c.serie('s')] + [c.obj('f%d' % i) for i in range(k)])(_k), props=('C21',), unit='u_core')(pipe_spec(_ns, 1))
    contract('Serie::pipe/%d' % _k, r'df::Serie::pipe<%s>\(' % _cs,
             inputs=(lambda k: lambda c: [c.ret(40), c.serie('s')] + [c.obj('f%d' % i) for i in range(k)])(_k), props=('C21',), unit='u_core')(pipe_spec(_ns, 1))


# ------------------------------------------------------------------ member functions and make_* wrappers
def drv(name, params, spec, props, inputs, pre=None):
    contract('drv::' + name, r'^drv::%s\(' % name, inputs=inputs, props=props, unit='u_core', site=False, pre=pre)(spec)


for _n, _c, _f0 in (('mem_map_s', 'SMap', map_spec('SMap', False)), ('mem_map_vv', 'VVMap', map_spec('VVMap', False)),
                    ('mk_map_s', 'SMap', map_spec('SMap', False)), ('apply_s', 'SMap', map_spec('SMap', False)),
                    ('map_s', 'SMap', map_spec('SMap', False)), ('mem_map_sv', 'SVMap', map_spec('SVMap', False)),
                    ('mem_map_v', 'VMap', map_spec('VMap', False)), ('mk_map_vv', 'VVMap', map_spec('VVMap', False)),
                    ('mk_apply_s', 'SMap', map_spec('SMap', False))):
    drv(_n, None, _f0, ('C04',), cb_in(1, _c))
for _n, _c, _neg in (('mem_filter_s', 'SPred', False), ('mem_filter_v', 'VPred', False), ('mk_filter_v', 'VPred', False), ('mk_reject_v', 'VPred', True),
                    ('mk_filter_s', 'SPred', False), ('mk_reject_s', 'SPred', True), ('mk_cut_v', 'VPred', False)):
    drv(_n, None, select_spec(_c, _neg), ('C05',), multi_in(1, 40), pre=isz1_pre if _c in ('SPred', 'SPredI') else None)
drv('mem_forEach_s', None, foreach_spec('SEach'), ('C06',), with_events('SEach', lambda c: [c.obj('callback'), c.serie('s0')]))
drv('mk_reject_m2', None, select_spec('VVPred', True), ('C05',), multi_in(2, 80))
drv('mem_forEach_v', None, foreach_spec('VEach'), ('C06',), with_events('VEach', lambda c: [c.obj('callback'), c.serie('s0')]))
drv('mk_forEach_s', None, foreach_spec('SEach'), ('C06',), with_events('SEach', lambda c: [c.obj('callback'), c.serie('s0')]))


def generic(cbname):
    """a callback of both kinds gets scalars when the items are scalars, and items otherwise"""
    def inputs(c):
        p = c.serie('s0')
        one = cmp_eq(ser(c.st, p).isz, 1)
        c.st.assume(one if cbname == 'SEach' else bnot(one))
        return [c.obj('callback'), p]
    return with_events(cbname, inputs)


for _c in ('SEach', 'VEach'):
    contract('forEach<GEach> on %s' % ('scalars' if _c == 'SEach' else 'items'), r'df::forEach<vf::GEach const&, df::Serie>\(', inputs=generic(_c), props=('C06',), unit='u_core',
             site=False)(foreach_spec(_c))
    contract('drv::mem_forEach_g on %s' % ('scalars' if _c == 'SEach' else 'items'), r'^drv::mem_forEach_g\(', inputs=generic(_c), props=('C06',), unit='u_core',
             site=False)(foreach_spec(_c))
drv('mem_reduce_s', None, s_reduce_s, ('C06',), lambda c: [c.obj('callback'), c.serie('s0'), c.dbl('init')],
    pre=lambda E, st, a: [('a scalar callback is used with scalar items', cmp_eq(ser(st, a[1]).isz, 1))])
drv('mk_reduce_s', None, s_reduce_s, ('C06',), lambda c: [c.obj('callback'), c.serie('s0'), c.dbl('init')],
    pre=lambda E, st, a: [('a scalar callback is used with scalar items', cmp_eq(ser(st, a[1]).isz, 1))])
drv('mem_reduce_v', None, s_reduce_v, ('C06',), lambda c: [c.ret(40), c.obj('callback'), c.serie('s0'), c.array('init', small=True)])
drv('mk_reduce_v', None, s_reduce_v, ('C06',), lambda c: [c.ret(40), c.obj('callback'), c.serie('s0'), c.array('init', small=True)])
for _k in range(1, 7):
    drv('mk_pipe_%d' % _k, None, pipe_spec(FNS[:_k], _k + 1), ('C21',), (lambda k: lambda c: [c.ret(40)] + [c.obj('f%d' % i) for i in range(k)] + [c.serie('s')])(_k))


# ------------------------------------------------------------------ compose and if_then_else
for _k in range(2, 7):
    drv('compose_%d' % _k, None, pipe_spec(FNS[:_k][::-1], _k + 1), ('C21',), (lambda k: lambda c: [c.ret(40)] + [c.obj('f%d' % i) for i in range(k)] + [c.serie('s')])(_k))


def branches(check, yes, no):
    def fn(E, st, ss):
        whole = serie_terms(E, st, ss[0])
        return lambda x, i: ite(cb(E, st, check, x), cb(E, st, yes, x, i, *whole), cb(E, st, no, x, i, *whole))
    return fn


for _n, _sig, _cs in (('if_s', ('d', 'di'), ('ISCheck', 'ISTrue', 'ISFalse')), ('if_v', ('v', 'vi'), ('IVCheck', 'IVTrue', 'IVFalse')),
                      ('if_vs', ('d', 'vi'), ('IVCheck', 'IVSTrue', 'IVSFalse'))):
    drv(_n, None, (lambda sp: lambda E, st, a: sp(E, st, [a[0], None, a[1]]))(map_spec(None, False, _sig, branches(*_cs))), ('C21',),
        lambda c: [c.ret(40), c.serie('s'), c.obj('check'), c.obj('yes'), c.obj('no')])
