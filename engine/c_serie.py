"""Contracts of df::Serie (src/Serie.cxx, include/dataframe/inline/Serie.hxx)."""
from spec import *

ARR = r'std::vector<double, A>'


# ---- constructors -----------------------------------------------------------------------------
def ctor_n_in(c):
    p = c.ret(40, 'this')
    isz = z3.Int('isz_n')
    cnt = z3.Int('count_n')
    dim = z3.Int('dim_n')
    set_stride(isz)
    c.st.assume(z3.And(isz >= 0, isz < (1 << 31), cnt >= 0, cnt < (1 << 32), dim >= 0, dim < (1 << 32)))
    return [p, isz, cnt, dim]


def ctor_n_pre(E, st, a):
    return [('item size is not negative', cmp_lt(a[1], 1 << 31)), ('count * itemSize fits 32 bits', cmp_lt(imul(a[2], a[1]), 1 << 32))]


@contract('Serie(itemSize,count,dimension)', r'^df::Serie::Serie\(int, unsigned int, unsigned int\)$', inputs=ctor_n_in, pre=ctor_n_pre,
          props=('C01',), unit='Serie')
def s_ctor_n(E, st, a):
    p, isz, cnt, dim = a
    set_stride(isz) if not isint(isz) else None
    wser(st, p, const_vec(E, imul(cnt, isz), 'double', E.dconst(0.0)), cnt, isz, dim)
    return ret(st)


def ctor_a_in(c):
    p = c.ret(40, 'this')
    isz = z3.Int('isz_n')
    set_stride(isz)
    c.st.assume(z3.And(isz >= 0, isz < (1 << 31)))
    a = c.array('values')
    c.st.assume(cmp_lt(c.st.read(a).n, 1 << 32))
    return [p, isz, a, c.uint('dim_n')]


def ctor_a_pre(E, st, a):
    return [('item size is not negative', cmp_lt(a[1], 1 << 31))]


def ctor_a_post(E, st, p, isz, v, dim):
    """count = number of whole items (none when the item size is 0); the values are taken as they are"""
    if not isint(isz):
        set_stride(isz)

    def go(t, cnt):
        wser(t, p, v, cnt, isz, dim)
        return ret(t)
    return cases(st, (cmp_eq(isz, 0), lambda t: go(t, 0)), (True, lambda t: go(t, E.wrap(t, E.idiv(t, v.n, isz), 32))))


@contract('Serie(itemSize,values,dimension)', r'^df::Serie::Serie\(int, std::vector<double, A> const&, unsigned int\)$', inputs=ctor_a_in,
          pre=ctor_a_pre, props=('C01',), unit='Serie')
def s_ctor_a(E, st, a):
    p, isz, ap, dim = a
    return ctor_a_post(E, st, p, isz, st.read(ap), dim)


def ctor_l_in(c):
    p, isz, a, dim = ctor_a_in(c)
    l = c.obj('initializer_list', 16)
    c.st.write(l, Ptr(a.rid, (0, 0, 0)))
    c.st.write(l.add(8), c.st.read(a).n)
    return [p, isz, l, dim]


@contract('Serie(itemSize,{values},dimension)', r'^df::Serie::Serie\(int, std::initializer_list<double> const&, unsigned int\)$',
          inputs=ctor_l_in, pre=ctor_a_pre, props=('C01',), unit='Serie')
def s_ctor_l(E, st, a):
    p, isz, ip, dim = a
    return ctor_a_post(E, st, p, isz, E.lib.init_list(E, st, st.read(ip), st.read(ip.add(8)), 'double'), dim)


# ---- copy, assignment, clone -------------------------------------------------------------------
def cp_in(c):
    return [c.ret(40, 'this'), c.serie('s', tail=True)]


@contract('Serie(const Serie&)', r'^df::Serie::Serie\(df::Serie const&\)$', inputs=cp_in, props=('C03',), unit='Serie')
def s_copy(E, st, a):
    s = ser(st, a[1])
    wser(st, a[0], s.v, s.count, s.isz, s.dim)
    return ret(st)


@contract('Serie::operator=', r'^df::Serie::operator=\(df::Serie const&\)$', inputs=lambda c: [c.serie('lhs', tail=True), c.serie('s', tail=True)],
          props=('C03',), unit='Serie')
def s_assign(E, st, a):
    s = ser(st, a[1])
    wser(st, a[0], s.v, s.count, s.isz, s.dim)
    return ret(st, a[0])


def self_in(c):
    p = c.serie('s', tail=True)
    return [p, p]


@contract('Serie::operator= (self)', r'^df::Serie::operator=\(df::Serie const&\)$', inputs=self_in, site=False, props=('C03',), unit='Serie')
def s_assign_self(E, st, a):
    return ret(st, a[0])


contract('Serie::clone', r'^df::Serie::clone\(\) const$', inputs=cp_in, props=('C03',), unit='Serie')(s_copy)


@contract('toSerie', r'^df::toSerie\(unsigned int, std::vector<double, A> const&, unsigned int\)$', inputs=ctor_a_in,
          props=('C03',), unit='Serie', pre=ctor_a_pre)
def s_toserie(E, st, a):
    return ctor_a_post(E, st, a[0], a[1], st.read(a[2]), a[3])


# ---- observers -----------------------------------------------------------------------------------
for _n, _f in (('count', lambda s: s.count), ('itemSize', lambda s: s.isz), ('dimension', lambda s: s.dim),
               ('size', lambda s: imul(s.count, s.isz)), ('isValid', lambda s: cmp_lt(0, s.isz))):
    def _mk(n, f):
        @contract('Serie::' + n, r'^df::Serie::%s\(\) const$' % n, inputs=lambda c: [c.serie('s', tail=True)], props=('C01',), unit='Serie')
        def _spec(E, st, a):
            return ret(st, f(ser(st, a[0])))
    _mk(_n, _f)


@contract('Serie::asArray const', r'^df::Serie::asArray\(\) const$', inputs=lambda c: [c.serie('s', tail=True)], props=('C01',), unit='u_core')
def s_asarray(E, st, a):
    return ret(st, a[0])


# ---- reCount -----------------------------------------------------------------------------------
def rc_pre(E, st, a):
    s = ser(st, a[0])
    return [('count * itemSize fits 32 bits', cmp_lt(imul(a[1], s.isz), 1 << 32))]


@contract('Serie::reCount', r'^df::Serie::reCount\(unsigned int\)$', inputs=lambda c: [c.serie('s', tail=True), c.uint('c')], pre=rc_pre,
          props=('C01',), unit='Serie')
def s_recount(E, st, a):
    s = ser(st, a[0])
    wser(st, a[0], const_vec(E, imul(a[1], s.isz), 'double', E.dconst(0.0)), a[1], s.isz, s.dim)
    return ret(st)


# ---- item and scalar access -------------------------------------------------------------------------
def item_in(c):
    return [c.ret(24), c.serie('s', tail=True), c.uint('i')]


def item_spec(E, st, a):
    s = ser(st, a[1])
    def ok(t):
        t.write(a[0], row(E, t, s, a[2]))
        return ret(t)
    return cases(st, (cmp_lt(a[2], s.count), ok), (True, throw))


contract('Serie::value', r'^df::Serie::value\(unsigned int\) const$', inputs=item_in, props=('C01', 'C02'), unit='Serie')(item_spec)
contract('Serie::get<Array>', r'df::Serie::get<%s>\(unsigned int\) const$' % ARR, inputs=item_in, props=('C01', 'C02'), unit='u_core')(item_spec)


def scal_spec(E, st, a):
    s = ser(st, a[0])
    return cases(st, (cmp_lt(a[1], imul(s.count, s.isz)), lambda t: ret(t, at(s.v.arr, a[1], t))), (True, throw))


for _n, _p, _u in (('scalar', r'^df::Serie::scalar\(unsigned int\) const$', 'Serie'),
                   ('get<double>', r'df::Serie::get<double>\(unsigned int\) const$', 'u_core')):
    contract('Serie::' + _n, _p, inputs=lambda c: [c.serie('s'), c.uint('i')], props=('C01', 'C02'), unit=_u)(scal_spec)


def setrow(E, st, a, v):
    s = ser(st, a[0])

    def ok(t):
        arr = Arr(parent=s.v.arr, lo=imul(a[1], s.isz), n=s.isz, lf=lambda r: at(v.arr, r, t))
        wser(t, a[0], Vec(s.v.n, arr, 'double', 8), s.count, s.isz, s.dim)
        return ret(t)
    return cases(st, (bnot(cmp_lt(a[1], s.count)), throw), (bnot(cmp_eq(v.n, s.isz)), throw), (True, ok))


def setv_spec(E, st, a):
    return setrow(E, st, a, st.read(a[2]))


for _n, _p, _u in (('setValue', r'^df::Serie::setValue\(unsigned int, %s const&\)$' % ARR, 'Serie'),
                   ('set<Array>', r'df::Serie::set<%s>\(unsigned int, %s const&\)$' % (ARR, ARR), 'u_core')):
    contract('Serie::' + _n, _p, inputs=lambda c: [c.serie('s', tail=True), c.uint('i'), c.array('v')], props=('C01', 'C02'), unit=_u)(setv_spec)


def sets(E, st, a, x):
    s = ser(st, a[0])

    def ok(t):
        arr = Arr(parent=s.v.arr, lo=a[1], n=1, lf=lambda r: x)
        wser(t, a[0], Vec(s.v.n, arr, 'double', 8), s.count, s.isz, s.dim)
        return ret(t)
    return cases(st, (cmp_lt(a[1], imul(s.count, s.isz)), ok), (True, throw))


contract('Serie::setScalar', r'^df::Serie::setScalar\(unsigned int, double\)$', inputs=lambda c: [c.serie('s'), c.uint('i'), c.dbl('v')],
         props=('C01', 'C02'), unit='Serie')(lambda E, st, a: sets(E, st, a, a[2]))
contract('Serie::set<double>', r'df::Serie::set<double>\(unsigned int, double const&\)$',
         inputs=lambda c: [c.serie('s'), c.uint('i'), c.dref('v')],
         props=('C01', 'C02'), unit='u_core')(lambda E, st, a: sets(E, st, a, st.read(a[2])))
