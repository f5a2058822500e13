"""std::map: its elements in iteration order, and the order itself: position of a key (-1: absent), key at a position.

A map is two cells: at byte 0 a vector with its elements (std::pair<const K, T>), which never move, and at byte 8 its
Order, which tells the element at each position. The comparison of the keys is left open: a new key may come at any
position, the same one each time it is inserted into the same map. An iterator is a pointer with a position and the
number of the Order it belongs to; one that is kept while keys are added or removed is not followed."""
import itertools
import re
import z3
from core import *
from execu import Out
import lib as _lib

PAIR = 'std::pair'


_uid = itertools.count(1)


class Order:
    def __init__(self, n, keyat, pos, slot=None):
        self.n = n               # number of keys
        self.keyat = keyat       # Int term -> key term
        self.pos = pos           # key term -> Int term
        self.slot = slot or (lambda i: i)       # position -> index of the element
        self.uid = next(_uid)


def map_types(q1):
    """key and mapped type of 'map<K, T, ...>'"""
    a = _lib.split_top(q1[q1.index('<') + 1:q1.rindex('>')], ',')
    return a[0].strip(), a[1].strip()


def is_str(K):
    return K.startswith('std::basic_string') or K == 'std::string'


def layout(E, K, T):
    """byte offset of the mapped value and size of an element"""
    ks, ts = _lib.sz_of(E, K), _lib.sz_of(E, T)
    ks = ks if _lib.is_scalar(K) else (ks + 7) // 8 * 8
    off = ks if not (_lib.is_scalar(K) and not _lib.is_scalar(T)) else (ks + 7) // 8 * 8
    return off, (off + ts + 7) // 8 * 8


def keyterm(E, st, cells, K):
    x = cells[0]
    if isinstance(x, Vec):
        if x.ety not in ('unsigned long', 'unsigned int', 'long', 'int'):
            raise Fail('map with keys vector<%s>' % x.ety)      # doubles are not ordered by < when there is a NaN
        return reify_int(E, st, x)
    if ex(x).sort().eq(E.D):
        raise Fail('map with keys double')
    return ex(x)


def reify_int(E, st, v):
    """a term for a vector of integers: equal terms are equal vectors"""
    n = unint(v.n)
    j = z3.Int('m!reify')
    t = E.uf('mkints', I, z3.ArraySort(I, I), V)(ex(n), z3.Lambda([j], ex(at(v.arr, j))))
    st.assume(vlen(t) == ex(n))
    return t


def ints_of(E, t, K):
    """the vector of integers behind a key"""
    ety = _lib.split_top(K[K.index('<') + 1:K.rindex('>')], ',')[0].strip()
    f = E.uf('intat', V, I, I)
    return Vec(vlen(t), Arr(fn=lambda j: f(t, ex(j))), ety, _lib.sz_of(E, ety))


def key_eq(E, st, K, a, b):
    if is_str(K):
        return E.lib.streq(E, st, a, b)
    return cmp_eq(a, b) if a.sort() == I else (True if a.eq(b) else a == b)


def facts(E, st, o, k):
    """what holds for one key"""
    p = o.pos(k)
    st.assume(band(cmp_le(-1, p), cmp_lt(p, o.n)))
    st.assume(z3.Implies(ex(cmp_le(0, p)), ex(o.keyat(p)) == k))


def fresh_map(E, st, name, K, T, el, n=None):
    """an arbitrary map: el(m) gives the cells of the mapped value at position m"""
    ks = STR if is_str(K) else (I if _lib.is_scalar(K) else V)
    kf, pf = E.uf('key_' + name, I, ks), E.uf('pos_' + name, ks, I)
    n = z3.Int('n_' + name) if n is None else n
    st.assume(band(cmp_le(0, n), cmp_lt(n, 1 << 31)))
    i, x = z3.Int('i!map'), z3.Const('x!map', ks)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ex(n)), pf(kf(i)) == i), patterns=[kf(i)]))
    st.assume(z3.ForAll([x], z3.And(-1 <= pf(x), pf(x) < ex(n), z3.Implies(pf(x) >= 0, kf(pf(x)) == x)), patterns=[pf(x)]))
    off, es = layout(E, K, T)

    def rec(m):
        c = {0: kf(ex(m)) if ks != V else ints_of(E, kf(ex(m)), K)}
        for k, v in el(m).items():
            c[off + k] = v
        return Rec(c)
    return Vec(n, Arr(fn=rec), 'std::pair<%s const, %s>' % (K, T), es), Order(n, lambda m: kf(ex(m)), lambda k: pf(k))


def empty(E, K, T):
    ks = STR if is_str(K) else (I if _lib.is_scalar(K) else V)
    off, es = layout(E, K, T)
    z = E.uf('nokey', I, ks)
    return Vec(0, Arr(fn=lambda m: Rec({})), 'std::pair<%s const, %s>' % (K, T), es), Order(0, lambda m: z(ex(m)), lambda k: -1)


def inserted(E, st, v, o, K, k, rec):
    """the map with one more key, which was absent, and the index of its element"""
    n = o.n
    if isint(n) and n == 0:
        p = 0
    else:
        tab = E.__dict__.setdefault('ranktab', {})
        key = (o.uid, k.get_id())
        if key not in tab:
            tab[key] = (E.fresh('rank'), o, k)
        p = tab[key][0]
        st.assume(band(cmp_le(0, p), cmp_le(p, n)))
    st0 = st
    eq = lambda a, b: key_eq(E, st0, K, a, b)
    h = v.n
    arr = Arr(parent=v.arr, lo=h, n=1, lf=lambda rel: rec)
    pick = lambda m, f, x: ite(unint(cmp_lt(m, p)), f(m), ite(unint(cmp_eq(m, p)), x, f(isub(m, 1))))
    o2 = Order(iadd(n, 1), lambda m: pick(m, o.keyat, k), lambda x: ite(eq(x, k), p, ite(unint(cmp_le(p, o.pos(x))), iadd(o.pos(x), 1), o.pos(x))),
               lambda m: pick(m, o.slot, h))
    return Vec(iadd(h, 1), arr, v.ety, v.es), o2, h


def removed(E, st, v, o, K, p):
    """the map without the key at position p"""
    k = ex(o.keyat(p))
    st0 = st
    eq = lambda a, b: key_eq(E, st0, K, a, b)
    arr = Arr(parent=v.arr, lo=o.slot(p), n=1, lf=lambda rel: Rec({0: DEAD}))
    skip = lambda m, f: ite(unint(cmp_lt(m, p)), f(m), f(iadd(m, 1)))
    o2 = Order(isub(o.n, 1), lambda m: skip(m, o.keyat), lambda x: ite(eq(x, k), -1, ite(unint(cmp_lt(p, o.pos(x))), isub(o.pos(x), 1), o.pos(x))),
               lambda m: skip(m, o.slot))
    return Vec(v.n, arr, v.ety, v.es), o2


def get(E, st, p):
    v, o = st.read(p), st.read(p.add(8))
    if v is DEAD or not isinstance(v, Vec) or not isinstance(o, Order):
        E.oblig(st, False, 'memory', 'use of an uninitialised or destroyed map')
        raise Fail('map')
    return v, o


def put(st, p, v, o):
    st.write(p, v)
    st.write(p.add(8), o)


def default_cells(E, st, T, fr):
    if _lib.is_scalar(T) or T.startswith('std::'):
        x = E.lib.default_elem(E, fr, st, T)
        return x.f if isinstance(x, Rec) else {0: x}
    # the constructor call the library's std::pair<const K, T> makes, with the default arguments of the declaration
    tab = E.prog.__dict__.setdefault('defcalls', {})
    if T not in tab:
        tab[T] = None
        for f, mod in E.prog.where.items():
            d = E.prog.demangle(f)
            if not re.match(r'std::pair<.* const, %s>::pair<' % re.escape(T), d) or 'tuple<>' not in d:
                continue
            fn = mod.fns[f]
            for bl in list(fn.raw):
                for i in fn.block(bl):
                    if i.op in ('call', 'invoke') and i.a['callee'][0] == 'glob' and E.prog.demangle(i.a['callee'][1]).startswith('%s::%s(' % (T, T.split('::')[-1])):
                        vals = i.a['args'][1:]
                        if all(v[0] == 'int' for _, v, _ in vals):
                            tab[T] = (i.a['callee'][1], [(t, v) for t, v, _ in vals])
    if tab[T] is None:
        raise Fail('default construction of ' + T)
    name, vals = tab[T]
    p = Ptr(st.new_region('default', 'local', _lib.sz_of(E, T)))
    outs = E.call_name(fr, st, name, [p] + [E.val(st, fr, {}, t, v) for t, v in vals], ('void',))
    if len(outs) != 1 or outs[0].kind != 'ret' or outs[0].st is not st:
        raise Fail('default construction of %s has several outcomes' % T)
    return obj(E, st, p, T)


def where(E, st, v, o, K, k):
    """[(state, position or None)] for a key: present or absent"""
    facts(E, st, o, k)
    p = o.pos(k)
    has = cmp_le(0, p)
    out = []
    s2 = st.clone()
    if s2.feasible(has):
        s2.assume(has, 'br')
        out.append((s2, p))
    if st.feasible(bnot(has)):
        st.assume(bnot(has), 'br')
        out.append((st, None))
    return out


def obj(E, st, p, T):
    x = _lib.elem_from(E, st, p, T)
    return x.f if isinstance(x, Rec) else {0: x}


def call(E, fr, st, q, params, targs, args, rt):
    m = q[2].split('[abi')[0]
    K, T = map_types(q[1])
    off, es = layout(E, K, T)
    this = args[0]
    R = lambda s, v=None: [Out('ret', v, s)]
    node = lambda h: this.elem(h)
    iter_ = lambda i, o: Ptr(this.rid, this.path + (i, -o.uid))
    p0 = params[0] if params else ''
    if m == 'map':
        if not params or p0 == '':
            put(st, this, *empty(E, K, T))
        elif p0.startswith('std::map<'):
            put(st, this, *get(E, st, args[1]))
            if p0.endswith('&&'):
                put(st, args[1], *empty(E, K, T))
        else:
            return NotImplemented
        return R(st)
    if m == '~map':
        get(E, st, this)
        put(st, this, DEAD, DEAD)
        return R(st)
    if m == 'operator=':
        v, o = get(E, st, args[1])
        get(E, st, this)
        if p0.endswith('&&'):
            put(st, args[1], *empty(E, K, T))
        put(st, this, v, o)
        return R(st, this)
    v, o = get(E, st, this)
    key = lambda p: keyterm(E, st, obj(E, st, p, K), K)
    if m == 'size':
        return R(st, o.n)
    if m == 'empty':
        return R(st, cmp_eq(o.n, 0))
    if m == 'clear':
        put(st, this, *empty(E, K, T))
        return R(st)
    if m in ('begin', 'cbegin'):
        return R(st, iter_(0, o))
    if m in ('end', 'cend'):
        return R(st, iter_(o.n, o))
    if m in ('find', 'count', 'contains', 'at', 'lower_bound_'):
        k = key(args[1])
        out = []
        for s, p in where(E, st, v, o, K, k):
            if m == 'find':
                out += R(s, iter_(o.n if p is None else p, o))
            elif m == 'at':
                out += [Out('throw', '_ZTISt12out_of_range', s)] if p is None else R(s, node(o.slot(p)).add(off))
            else:
                out += R(s, (0 if p is None else 1) if m == 'count' else p is not None)
        return out
    if m == 'operator[]':
        kc = obj(E, st, args[1], K)
        k = key(args[1])
        out = []
        for s, p in where(E, st, v, o, K, k):
            if p is None:
                c = dict(kc)
                for a, x in default_cells(E, s, T, fr).items():
                    c[off + a] = x
                v2, o2, h = inserted(E, s, v, o, K, k, Rec(c))
                put(s, this, v2, o2)
            else:
                h = o.slot(p)
            out += R(s, node(h).add(off))
        return out
    if m in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        if m == 'insert' and len(args) == 2 and p0.startswith('std::pair<'):
            c = pair_cells(E, st, args[1], K, T, off)
        elif len(args) == 3:
            pv = (split_targs(targs) or params)[-1].rstrip('&').replace(' const', '').strip()
            if pv != T:
                raise Fail('map::%s from %s' % (m, pv))
            c = dict(obj(E, st, args[1], K))
            for a, x in obj(E, st, args[2], T).items():
                c[off + a] = x
        else:
            return NotImplemented
        k = keyterm(E, st, c, K)
        out = []
        for s, p in where(E, st, v, o, K, k):
            o2 = o
            new = p is None
            if new:
                v2, o2, h = inserted(E, s, v, o, K, k, Rec(c))
                put(s, this, v2, o2)
                p = o2.pos(k)
            elif m == 'insert_or_assign':
                for a, x in c.items():
                    if a >= off:
                        s.write(node(o.slot(p)).add(a), x)
            out += R(s, Agg([iter_(p, o2), 1 if new else 0]))
        return out
    if m == 'erase':
        if 'iterator' in p0:
            it = args[1]
            check(st, it, o)
            p = it.path[-2]
            E.oblig(st, band(cmp_le(0, p), cmp_lt(p, o.n)), 'bounds', 'erase of an element of the map')
            v2, o2 = removed(E, st, v, o, K, p)
            put(st, this, v2, o2)
            return R(st, iter_(p, o2))
        if len(args) == 2:
            k = key(args[1])
            out = []
            for s, p in where(E, st, v, o, K, k):
                if p is not None:
                    v2, o2 = removed(E, s, v, o, K, p)
                    put(s, this, v2, o2)
                out += R(s, 0 if p is None else 1)
            return out
    return NotImplemented


def pair_cells(E, st, p, K, T, off):
    c = dict(obj(E, st, p, K))
    for a, x in obj(E, st, p.add(off), T).items():
        c[off + a] = x
    return c


def split_targs(targs):
    return [x.strip() for x in _lib.split_top(targs, ',')] if targs else []


def check(st, it, o=None):
    """the Order of the map of an iterator"""
    if not isinstance(it, Ptr) or len(it.path) < 3:
        raise Fail('iterator of a map')
    if o is None:
        o = st.read(Ptr(it.rid, it.path[:-2]).add(8))
    if not isinstance(o, Order) or it.path[-1] != -o.uid:
        raise Fail('iterator kept while keys are added or removed')
    return o


def iterator(E, fr, st, q, params, args, rt):
    m = q[2]
    this = args[0]
    if m in ('operator->', 'operator*'):
        it = st.read(this)
        o = check(st, it)
        i = it.path[-2]
        E.oblig(st, band(cmp_le(0, i), cmp_lt(i, o.n)), 'bounds', 'iterator at an element of the map')
        return [Out('ret', Ptr(it.rid, it.path[:-2] + (o.slot(i), 0)), st)]
    if m in ('operator++', 'operator--'):
        it = st.read(this)
        o = check(st, it)
        i = it.path[-2]
        d = 1 if m == 'operator++' else -1
        E.oblig(st, cmp_lt(i, o.n) if d > 0 else cmp_lt(0, i), 'bounds', 'iterator stays within the map')
        st.write(this, Ptr(it.rid, it.path[:-2] + (iadd(i, d), it.path[-1])))
        return [Out('ret', it if params and params[0] == 'int' else this, st)]
    if m.startswith('_Rb_tree') and params and 'iterator' in params[0]:
        st.write(this, st.read(args[1]))
        return [Out('ret', None, st)]
    return NotImplemented


def compare(E, st, f, args):
    a, b = st.read(args[0]), st.read(args[1])
    if a.rid != b.rid or len(a.path) != len(b.path):
        raise Fail('iterators of different maps')
    check(st, a)
    check(st, b)
    E.trusted.add('std::map')
    r = cmp_eq(a.path[-2], b.path[-2])
    return [Out('ret', r if f == 'operator==' else bnot(r), st)]


def same_maps(E, st, v1, o1, v2, o2):
    """the same keys with the same values"""
    if o1 is o2 and E.prove_same(st, v1, v2):
        return True
    K = _lib.split_top(v1.ety[len('std::pair<'):-1], ',')[0].strip()
    K = K[:-len(' const')]
    ks = STR if is_str(K) else (I if _lib.is_scalar(K) else V)
    s = st.clone()
    x = E.fresh('key', ks)
    p1, p2 = o1.pos(x), o2.pos(x)
    facts(E, s, o1, x)
    facts(E, s, o2, x)
    if not s.prove(ex(cmp_le(0, p1)) == ex(cmp_le(0, p2))):
        return False
    s.assume(cmp_le(0, p1))
    s.assume(cmp_le(0, p2))
    if not s.feasible():
        return True
    r1, r2 = at(v1.arr, o1.slot(p1), s), at(v2.arr, o2.slot(p2), s)
    ks = {k for k in set(r1.f) | set(r2.f) if k != 0}
    return all(k in r1.f and k in r2.f and E.prove_same(s, r1.f[k], r2.f[k]) for k in ks)
