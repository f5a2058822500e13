"""Terms, abstract values, symbolic state and the prover interface."""
import z3, itertools, time
from fractions import Fraction

# the read-only accessors cannot fail on the terms built here: skip the error query after each of them
for _n in ('Z3_get_ast_kind', 'Z3_get_ast_id', 'Z3_get_app_num_args', 'Z3_get_sort', 'Z3_get_app_decl', 'Z3_get_app_arg', 'Z3_get_decl_kind',
           'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort_kind', 'Z3_is_eq_ast', 'Z3_get_decl_name', 'Z3_get_symbol_kind', 'Z3_get_symbol_string'):
    _f0 = getattr(z3.z3core, _n)
    if getattr(_f0, '__defaults__', None):
        _f0.__defaults__[0].Check = lambda ctx: None

I = z3.IntSort()
V = z3.DeclareSort('Vec')          # immutable vectors of doubles as first-class terms
STR = z3.DeclareSort('Str')
vlen = z3.Function('vlen', V, I)
MUL = z3.Function('MUL', I, I, I)
DV = z3.Function('DV', I, I, I)
MD = z3.Function('MD', I, I, I)
SLICE = z3.Function('slice', V, I, I, V)


class Fail(Exception):
    """a path the verifier cannot follow: reported as an undischarged obligation"""


class SplitBefore(Exception):
    def __init__(self, c):
        self.c = c


# ------------------------------------------------------------------ values
class Ptr:
    """region + path (off0, idx0, off1, idx1, ..., offn); null is rid None"""
    __slots__ = ('rid', 'path')

    def __init__(self, rid, path=(0,)):
        self.rid = rid
        self.path = tuple(path)

    def add(self, off):
        if isinstance(off, int) and off == 0:
            return self
        return Ptr(self.rid, self.path[:-1] + (iadd(self.path[-1], off),))

    def elem(self, idx, off=0):
        return Ptr(self.rid, self.path + (idx, off))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.rid, self.path)


class FnPtr:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'FnPtr(%s)' % self.name


class PInt:
    """integer obtained from a pointer"""

    def __init__(self, p):
        self.p = p


class Pack:
    """several small cells loaded as one integer"""

    def __init__(self, parts, size):
        self.parts = parts  # [(off,size,val)]
        self.size = size


class Agg:
    """first-class struct value"""

    def __init__(self, vals):
        self.vals = list(vals)


class Opaque:
    """value with no modelled content (strings, exceptions, streams)"""

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class Dead:
    """cell content after destruction"""


DEAD = Dead()


class Rec:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = dict(f)

    def __repr__(self):
        return 'Rec(%r)' % self.f


class Arr:
    """total map index -> value: a leaf function or a layer over a parent"""
    __slots__ = ('fn', 'parent', 'lo', 'n', 'lf', 'tag', 'cache', 'stride')

    def __init__(self, fn=None, parent=None, lo=None, n=None, lf=None, tag=None, stride=None):
        self.stride = stride
        self.fn = fn          # leaf: fn(m) -> value
        self.parent = parent
        self.lo = lo
        self.n = n
        self.lf = lf          # layer: lf(rel) -> value, rel in [0,n)
        self.tag = tag        # leaf: identity (V term), or None
        self.cache = {}


class Vec:
    __slots__ = ('n', 'arr', 'ety', 'es')

    def __init__(self, n, arr, ety, es):
        self.n = n
        self.arr = arr
        self.ety = ety
        self.es = es

    def __repr__(self):
        return 'Vec(%s,%s)' % (self.n, self.ety)


# ------------------------------------------------------------------ integer terms
def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def ex(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def unint(e):
    if isinstance(e, (int, bool)):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


_lin_cache = {}


def lin(e):
    """linear normal form: ({atom_id: (atom, coef)}, const)"""
    if isint(e):
        return {}, e
    k = e.get_id()
    c = _lin_cache.get(k)
    if c is not None:
        return c[1]
    d = {}
    con = 0

    def addto(a, co):
        i = a.get_id()
        if i in d:
            n = d[i][1] + co
            if n == 0:
                del d[i]
            else:
                d[i] = (a, n)
        elif co:
            d[i] = (a, co)

    def go(x, co):
        nonlocal con
        if z3.is_int_value(x):
            con += co * x.as_long()
            return
        if z3.is_add(x):
            for y in x.children():
                go(y, co)
            return
        if z3.is_sub(x):
            ch = x.children()
            go(ch[0], co)
            for y in ch[1:]:
                go(y, -co)
            return
        if x.decl().kind() == z3.Z3_OP_UMINUS:
            go(x.children()[0], -co)
            return
        if z3.is_mul(x):
            ch = x.children()
            cs = [y.as_long() for y in ch if z3.is_int_value(y)]
            rest = [y for y in ch if not z3.is_int_value(y)]
            if len(rest) == 1:
                p = co
                for y in cs:
                    p *= y
                go(rest[0], p)
                return
        addto(x, co)
    go(e, 1)
    r = (d, con)
    _lin_cache[k] = (e, r)
    return r


def unlin(d, con):
    ts = []
    for i in sorted(d):
        a, co = d[i]
        ts.append(a if co == 1 else z3.IntVal(co) * a)
    if not ts:
        return con
    if con:
        ts.append(z3.IntVal(con))
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(*ts) if False else _mksum(ts)


def _mksum(ts):
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def iadd(a, b):
    if isint(a) and isint(b):
        return a + b
    if isint(a) and a == 0:
        return b
    if isint(b) and b == 0:
        return a
    d1, c1 = lin(a)
    d2, c2 = lin(b)
    d = dict(d1)
    for i, (x, co) in d2.items():
        if i in d:
            n = d[i][1] + co
            if n:
                d[i] = (x, n)
            else:
                del d[i]
        else:
            d[i] = (x, co)
    return unlin(d, c1 + c2)


def iscale(a, k):
    if isint(a):
        return a * k
    if k == 1:
        return a
    if k == 0:
        return 0
    d, c = lin(a)
    return unlin({i: (x, co * k) for i, (x, co) in d.items()}, c * k)


def isub(a, b):
    return iadd(a, iscale(b, -1))


_rank = {}


def set_stride(e, r=2):
    """mark an atom as a stride: it is always written second in MUL"""
    if not isint(e):
        d, c = lin(e)
        for a, co in d.values():
            if not a.decl().eq(MUL):
                if z3.is_const(a) and a.decl().name().startswith('isz'):
                    r = max(r, 3)
                _rank.setdefault(a.get_id(), (r, a))


def rank(a):
    r = _rank.get(a.get_id())
    if r:
        return r[0]
    if z3.is_app(a) and (a.decl().eq(vlen) or a.num_args() and a.decl().name().startswith('serz_')):
        return 2
    if z3.is_const(a):
        n = a.decl().name()
        if n.startswith('t!') or n.startswith('k!') or n.startswith('m!'):
            return 0
        if n.startswith('isz'):
            return 3
        return 1
    return 1


def mulatom(a, b):
    fs = []

    def flat(x):
        if z3.is_app(x) and x.decl().eq(MUL):
            flat(x.arg(0))
            flat(x.arg(1))
        else:
            fs.append(x)
    flat(a)
    flat(b)
    fs.sort(key=lambda x: (rank(x), x.sexpr()))
    r = fs[-1]
    for x in reversed(fs[:-1]):
        r = MUL(x, r)
    return r


def imul(a, b):
    if isint(a):
        return iscale(b, a)
    if isint(b):
        return iscale(a, b)
    d1, c1 = lin(a)
    d2, c2 = lin(b)
    r = c1 * c2
    for x, co in d1.values():
        for y, co2 in d2.values():
            r = iadd(r, iscale(mulatom(x, y), co * co2))
        r = iadd(r, iscale(x, co * c2))
    for y, co2 in d2.values():
        r = iadd(r, iscale(y, co2 * c1))
    return r


def same(a, b):
    """syntactic equality"""
    if a is b:
        return True
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return True
        if z3.is_int(a) and z3.is_int(b):
            d, c = lin(isub(a, b)) if True else ({}, 1)
            return not d and c == 0
        return False
    if isint(a) and isinstance(b, z3.ExprRef) and z3.is_int(b) or isint(b) and isinstance(a, z3.ExprRef) and z3.is_int(a):
        d, c = lin(ex(isub(a, b))) if not isint(isub(a, b)) else ({}, isub(a, b))
        return not d and c == 0
    return False


def cmp_lt(a, b):
    x = isub(a, b)
    if isint(x):
        return x < 0
    return x < 0


def cmp_le(a, b):
    x = isub(a, b)
    if isint(x):
        return x <= 0
    return x <= 0


def cmp_eq(a, b):
    x = isub(a, b)
    if isint(x):
        return x == 0
    return x == 0


def bnot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.children()[0]
    return z3.Not(c)


def band(*cs):
    r = []
    for c in cs:
        c = unint(c)
        if c is True:
            continue
        if c is False:
            return False
        r.append(c)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def bor(*cs):
    r = []
    for c in cs:
        c = unint(c)
        if c is False:
            continue
        if c is True:
            return True
        r.append(c)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def bimp(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    """if-then-else on abstract values"""
    c = unint(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Rec) and isinstance(b, Rec):
        if not a.f or not b.f:       # past the end of its vector: such an element is never read
            return b if not a.f else a
        return Rec({k: ite(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.arr is b.arr:
            arr = a.arr
        else:
            x, y = a.arr, b.arr
            arr = Arr(fn=lambda m: ite(c, at(x, m), at(y, m)))
        return Vec(ite(c, a.n, b.n), arr, a.ety, a.es)
    if isinstance(a, Ptr) and isinstance(b, Rec) and not b.f:
        return a
    if isinstance(b, Ptr) and isinstance(a, Rec) and not a.f:
        return b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.rid == b.rid and len(a.path) == len(b.path):
            return Ptr(a.rid, tuple(ite(c, x, y) for x, y in zip(a.path, b.path)))
        raise Fail('ite on pointers')
    if isinstance(a, Opaque):
        return a
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b:
        return a
    a2, b2 = ex(a), ex(b)
    if isinstance(a2, z3.ExprRef) and isinstance(b2, z3.ExprRef):
        if a2.eq(b2):
            return a
        return z3.If(c, a2, b2)
    raise Fail('ite on %r / %r' % (a, b))


def at(arr, m, st=None):
    """value of arr at index m; with a state, layer membership is decided by proof when possible"""
    key = None
    if st is not None:
        key = (m if isint(m) else m.get_id(), id(st))
    while arr.fn is None:
        rel = isub(m, arr.lo)
        if isint(arr.n) and arr.n == 1:
            c = cmp_eq(rel, 0)
        else:
            c = band(cmp_le(0, rel), cmp_lt(rel, arr.n))
        c = unint(c)
        if st is not None and not isinstance(c, bool):
            if st.prove(c):
                c = True
            elif st.prove(bnot(c)):
                c = False
        if c is True:
            return arr.lf(0 if (isint(arr.n) and arr.n == 1) else rel)
        if c is False:
            arr = arr.parent
            continue
        return ite(c, arr.lf(0 if (isint(arr.n) and arr.n == 1) else rel), at(arr.parent, m, st))
    return arr.fn(m)


def subst(v, pairs):
    """substitute z3 constants inside an abstract value"""
    if isinstance(v, (int, bool)) or v is None:
        return v
    if isinstance(v, z3.ExprRef):
        r = z3.substitute(v, *pairs)
        return renorm(r)
    if isinstance(v, Ptr):
        return Ptr(v.rid, tuple(subst(x, pairs) for x in v.path))
    if isinstance(v, Rec):
        return Rec({k: subst(x, pairs) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(subst(v.n, pairs), subst_arr(v.arr, pairs), v.ety, v.es)
    if isinstance(v, Pack):
        return Pack([(o, s, subst(x, pairs)) for o, s, x in v.parts], v.size)
    return v


_ctr = itertools.count()


def subst_arr(a, pairs):
    if a.fn is None:
        lf = a.lf
        return Arr(parent=subst_arr(a.parent, pairs), lo=subst(a.lo, pairs), n=subst(a.n, pairs),
                   lf=substfn(lf, pairs), stride=None if a.stride is None else subst(a.stride, pairs))
    tag = a.tag
    if tag is not None:
        tag = subst(tag, pairs)
        if tag.eq(a.tag):
            return a
    return Arr(fn=substfn(a.fn, pairs), tag=tag, stride=None if a.stride is None else subst(a.stride, pairs))


def substfn(fn, pairs):
    cell = {}

    def f(m):
        if isint(m) or not mentions(m, {x.get_id() for x, _ in pairs}):
            return subst(fn(m), pairs)
        if 'r' not in cell:
            cell['m'] = z3.Int('m!s%d' % next(_ctr))
            cell['r'] = fn(cell['m'])
        return subst(cell['r'], pairs + [(cell['m'], m)])
    return f


# ------------------------------------------------------------------ polynomials over the reals
_pk = {}
_pn = {}
RSORT = z3.RealSort()


def atomkey(e):
    """order of the factors of a monomial; stable under a common shift of the indices"""
    k = e.get_id()
    r = _pk.get(k)
    if r is None:
        nm = e.decl().name() if z3.is_app(e) else ''
        if e.num_args() and z3.is_int(e.arg(e.num_args() - 1)) and nm == 'vat':
            d, c = lin(e.arg(e.num_args() - 1))
            r = (nm, e.arg(0).sexpr(), c, sorted((a.sexpr(), co) for a, co in d.values()).__repr__())
        else:
            r = (nm, '', 0, e.sexpr())
        _pk[k] = r = (r, e)
    return r[0]


def poly(e):
    """{monomial (ids of its factors): (coefficient, factors)} of a real term, or None when it would be too large"""
    if z3.is_rational_value(e):
        c = e.as_fraction()
        return {(): (c, ())} if c else {}
    if z3.is_app(e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            r = {}
            for i, x in enumerate(e.children()):
                sg = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and i) else 1
                for m, (c, f) in poly(x).items():
                    c = r.get(m, (0,))[0] + sg * c
                    if c:
                        r[m] = (c, f)
                    else:
                        r.pop(m, None)
            return r
        if k == z3.Z3_OP_MUL:
            r = None
            for x in e.children():
                y = poly(x)
                if r is None:
                    r = y
                    continue
                if len(r) * len(y) > 4000:
                    raise Fail('polynomial too large')
                z = {}
                for m1, (c1, f1) in r.items():
                    for m2, (c2, f2) in y.items():
                        f = tuple(sorted(f1 + f2, key=atomkey))
                        m = tuple(a.get_id() for a in f)
                        c = z.get(m, (0,))[0] + c1 * c2
                        if c:
                            z[m] = (c, f)
                        else:
                            z.pop(m, None)
                r = z
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() != 0:
            q = e.arg(1).as_fraction()
            return {m: (c / q, f) for m, (c, f) in poly(e.arg(0)).items()}
        if k == z3.Z3_OP_TO_REAL:
            d, c = lin(e.arg(0))
            r = {(): (Fraction(c), ())} if c else {}
            for a, co in d.values():
                t = z3.ToReal(a)
                r[(t.get_id(),)] = (Fraction(co), (t,))
                _pn.setdefault(('keep', t.get_id()), t)
            return r
    return {(e.get_id(),): (Fraction(1), (e,))}


def rval(c):
    v = z3.RealVal('%d/%d' % (c.numerator, c.denominator) if c.denominator != 1 else str(c.numerator))
    return v


def rnorm(e):
    """polynomial normal form of a real term"""
    k = e.get_id()
    r = _pn.get(k)
    if r is not None:
        return r[1]
    p = poly(e)
    ts = []
    for m, (c, f) in sorted(p.items(), key=lambda x: (len(x[1][1]), [atomkey(a) for a in x[1][1]])):
        t = None
        for a in f:
            t = a if t is None else t * a
        if t is None:
            t = rval(c)
        elif c != 1:
            t = rval(c) * t
        ts.append(t)
    r = _mksum(ts) if ts else z3.RealVal(0)
    _pn[k] = (e, r)
    _pn.setdefault(r.get_id(), (r, r))
    return r


_rn = {}


def clear_renorm():
    _rn.clear()

# commutative operations on doubles: their operands are kept sorted
COMM = ('fadd', 'fmul', 'feq')


bounds = {}   # remainder constants: name -> exclusive bound


def divmodc(m, b):
    """(m div b, m mod b) for an integer constant b > 0, multiples of b taken out and x mod b recognised"""
    if isint(m):
        return m // b, m % b
    d, c = lin(m)
    q = unlin({i: (x, co // b) for i, (x, co) in d.items() if co % b == 0}, c // b)
    rest = {i: (x, co) for i, (x, co) in d.items() if co % b != 0}
    r = unlin(rest, c % b)
    if isint(r):
        return q, r
    if c % b == 0 and len(rest) == 1:
        (x, co), = rest.values()
        if co == 1 and z3.is_app_of(x, z3.Z3_OP_MOD) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == b:
            return q, x
    return iadd(q, ex(r) / b), ex(r) % b


def inner(c):
    """(g, h) with c = g*h: the strides of a nested row structure, innermost first"""
    if isint(c):
        return None
    d, con = lin(c)
    if con == 0 and len(d) == 1:
        (x, co), = d.values()
        if co > 1:
            # an item size is the innermost
            return (x, co) if rank(x) >= 3 else (co, x)
        if co == 1 and z3.is_app(x) and x.decl().eq(MUL):
            return x.arg(1), x.arg(0)
    return None


def divout(x, c):
    """x / c when the atom c is a factor of the product x, else None"""
    if x.eq(c):
        return 1
    if z3.is_app(x) and x.decl().eq(MUL):
        for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
            r = divout(b, c)
            if r is not None:
                return imul(unint(a), r)
    return None


def summands(c):
    """the terms of a row length that is a sum of sizes (rows joined from smaller rows), or None"""
    if isint(c):
        return None
    d, con = lin(c)
    if con < 0 or any(co < 0 for _, co in d.values()) or len(d) + (con > 0) < 2:
        return None
    return [iscale(x, co) for x, co in d.values()] + ([con] if con else [])


def sumpart(e, c):
    """(q, r) with e = q*c + r for a row length c that is a sum: q by the factors of its first term"""
    if isint(e):
        return 0, e
    dc, _ = lin(c)
    a, co = next(iter(dc.values()))
    q = 0
    for x, k in lin(e)[0].values():
        o = divout(x, a)
        if o is not None and k % co == 0:
            q = iadd(q, iscale(o, k // co))
    c0 = q if isint(q) else lin(q)[1]
    for k in range(min(c0, 0), min(max(c0, 0), 6) + 1):
        r = isub(e, imul(isub(q, k), c))
        if within(r, c, bounds):
            return isub(q, k), r
    return isub(q, c0), isub(e, imul(isub(q, c0), c))


def within(r, c, bound):
    """r is visibly in [0,c): some summands of c plus a number bounded by another"""
    if isint(r) and r == 0:
        return True
    d = {} if isint(r) else lin(r)[0]
    sk = [x for x, k in d.values() if k == 1 and z3.is_const(x) and x.decl().name() in bound]
    rest = r
    b = 0
    if len(sk) == 1:
        b = bound[sk[0].decl().name()]
        rest = isub(r, sk[0])
    else:
        b = 1
    left = isub(c, iadd(rest, b))
    if isint(left):
        return left >= 0
    dl, cl = lin(left)
    dr, cr = ({}, rest) if isint(rest) else lin(rest)
    names = {x.get_id() for x, _ in lin(c)[0].values()}
    return cl >= 0 and cr >= 0 and all(k > 0 and x.get_id() in names for x, k in list(dl.values()) + list(dr.values()))


def rowsplit0(rel, c, bound):
    """(row, remainder) terms of a row-major index, syntactically when possible; bound: name -> exclusive bound of skolems"""
    if isint(c):
        return divmodc(rel, c)
    if isint(rel) and rel == 0:
        return 0, 0
    g = inner(c)
    if g is not None:
        q1, r1 = rowsplit0(rel, g[0], bound)
        q, r2 = rowsplit0(q1, g[1], bound)
        return q, iadd(imul(r2, g[0]), r1)
    if summands(c):
        q, r = sumpart(rel, c)
        if within(r, c, bound) or (isinstance(r, z3.ExprRef) and z3.is_app(r) and r.decl().eq(MD) and r.arg(1).eq(ex(c))):
            return q, r
        return DV(ex(rel), ex(c)), MD(ex(rel), ex(c))
    if isint(rel):
        return DV(ex(rel), ex(c)), MD(ex(rel), ex(c))
    d, con = lin(rel)
    row = 0
    rest = {}
    ce = ex(c)
    cid = ce.get_id()
    for i, (x, co) in d.items():
        o = divout(x, ce)
        if o is not None:
            row = iadd(row, iscale(o, co))
        else:
            rest[i] = (x, co)
    r2 = unlin(rest, con)
    # the remainder is known to be inside the row when it is a bounded skolem or a remainder
    if isint(r2) and r2 == 0:
        return row, r2
    if isinstance(r2, z3.ExprRef) and z3.is_const(r2):
        b = bound.get(r2.decl().name())
        if b is not None and same(b, c):
            return row, r2
    if isinstance(r2, z3.ExprRef) and z3.is_app(r2) and r2.decl().eq(MD) and r2.arg(1).eq(ce):
        return row, r2
    return DV(ex(rel), ce), MD(ex(rel), ce)


def renorm(e):
    """re-normalise integer arithmetic after substitution (MUL with sums/constants, linear sums)"""
    if not isinstance(e, z3.ExprRef):
        return e
    return unint(_renorm(e))


def _renorm(e):
    k = e.get_id()
    c = _rn.get(k)
    if c is not None:
        return c[1]
    if z3.is_quantifier(e) or z3.is_var(e) or not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        ch = [_renorm(x) for x in e.children()]
        d = e.decl()
        kind = d.kind()
        if d.eq(MUL):
            r = ex(imul(unint(ch[0]), unint(ch[1])))
        elif d.eq(DV) or d.eq(MD):
            r = ex(rowsplit0(unint(ch[0]), unint(ch[1]), bounds)[0 if d.eq(DV) else 1])
        elif kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            r = ex(divmodc(unint(ch[0]), ch[1].as_long())[0 if kind == z3.Z3_OP_IDIV else 1])
        elif z3.is_int(e) and kind == z3.Z3_OP_ADD:
            x = 0
            for y in ch:
                x = iadd(x, unint(y))
            r = ex(x)
        elif z3.is_int(e) and kind == z3.Z3_OP_SUB:
            x = unint(ch[0])
            for y in ch[1:]:
                x = isub(x, unint(y))
            r = ex(x)
        elif z3.is_int(e) and kind == z3.Z3_OP_MUL and sum(1 for y in ch if not z3.is_int_value(y)) <= 1:
            p = 1
            rest = None
            for y in ch:
                if z3.is_int_value(y):
                    p *= y.as_long()
                else:
                    rest = y
            r = ex(iscale(rest, p)) if rest is not None else z3.IntVal(p)
        elif e.sort() == RSORT and kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
            r = rnorm(d(*ch))
        elif kind == z3.Z3_OP_ITE and (z3.is_true(ch[0]) or z3.is_false(ch[0]) or ch[1].eq(ch[2])):
            r = ch[2] if z3.is_false(ch[0]) else ch[1]
        elif kind in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(ch[0]):
            df = isub(unint(ch[0]), unint(ch[1]))
            if kind == z3.Z3_OP_GE:
                x = cmp_le(0, df)
            elif kind == z3.Z3_OP_GT:
                x = cmp_lt(0, df)
            elif kind == z3.Z3_OP_LE:
                x = cmp_le(df, 0)
            elif kind == z3.Z3_OP_LT:
                x = cmp_lt(df, 0)
            else:
                x = cmp_eq(df, 0)
            r = ex(x)
        elif kind == z3.Z3_OP_AND:
            r = ex(band(*[unint(y) for y in ch]))
        elif kind == z3.Z3_OP_OR:
            r = ex(bor(*[unint(y) for y in ch]))
        elif kind == z3.Z3_OP_NOT:
            r = ex(bnot(unint(ch[0])))
        else:
            if len(ch) == 2 and d.name() in COMM and ch[0].sexpr() > ch[1].sexpr():
                ch.reverse()
            if all(x.eq(y) for x, y in zip(ch, e.children())):
                r = e
            else:
                r = d(*ch)
    _rn[k] = (e, r)
    if not (r is e):
        _rn.setdefault(r.get_id(), (r, r))
    return r


_fc = {}


def consts_of(e):
    """free uninterpreted constants, in order of occurrence"""
    k = e.get_id()
    c = _fc.get(k)
    if c is not None:
        return c[1]
    out = []
    seen = set()
    st = [e]
    vis = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in vis:
            continue
        vis.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if i not in seen:
                seen.add(i)
                out.append(x)
        elif z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(reversed(x.children()))
    _fc[k] = (e, out)
    return out


def mentions(e, ids):
    if not isinstance(e, z3.ExprRef):
        return False
    return any(c.get_id() in ids for c in consts_of(e))


# ------------------------------------------------------------------ regions and states
class Region:
    __slots__ = ('name', 'kind', 'cells', 'size', 'zero', 'dead')

    def __init__(self, name, kind, size=None):
        self.name = name
        self.kind = kind
        self.cells = {}
        self.size = size
        self.zero = False
        self.dead = False

    def copy(self):
        r = Region(self.name, self.kind, self.size)
        r.cells = dict(self.cells)
        r.zero = self.zero
        r.dead = self.dead
        return r


class State:
    def __init__(self, E):
        self.E = E
        self.regs = {}
        self.pc = []      # [(kind, expr)]  kind: 'br' | 'fact'
        self.ghost = {}
        self.exc = None

    def clone(self):
        s = State(self.E)
        s.regs = dict(self.regs)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.exc = self.exc
        return s

    # --- path condition
    def assume(self, c, kind='fact'):
        c = unint(c)
        if c is True:
            return self
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append((kind, c))
        return self

    def prove(self, g):
        return self.E.prove(self, g)

    def feasible(self, c=True):
        """False only when pc & c is provably unsatisfiable"""
        return not self.E.prove(self, bnot(c))

    # --- memory
    def new_region(self, name, kind, size=None):
        rid = self.E.new_rid()
        self.regs[rid] = Region(name, kind, size)
        return rid

    def wreg(self, rid):
        r = self.regs[rid].copy()
        self.regs[rid] = r
        return r

    def region(self, p):
        if p.rid is None:
            self.E.oblig(self, False, 'memory', 'null dereference')
            raise Fail('null dereference')
        r = self.regs.get(p.rid)
        if r is None or r.dead:
            self.E.oblig(self, False, 'memory', 'access to an object whose lifetime ended (dangling reference)')
            raise Fail('dangling access')
        return r

    def read(self, p, size=None):
        """cell value at p or None"""
        r = self.region(p)
        off = unint(p.path[0])
        if not isint(off):
            off = self.E.conc(self, off)
        v = r.cells.get(off)
        if v is None and r.kind == 'shared':
            raise Fail('content of the global object %s, which the program changes' % r.name)
        if v is None and len(p.path) > 1:
            self.E.oblig(self, False, 'memory', 'element access through an uninitialised container')
            raise Fail('no container at %r in %s' % (p, r.name))
        i = 1
        while i < len(p.path):
            if v is DEAD:
                self.E.oblig(self, False, 'memory', 'use of a destroyed object')
                raise Fail('destroyed object')
            if not isinstance(v, Vec):
                raise Fail('path into non-vector %r' % (v,))
            idx = p.path[i]
            self.E.oblig(self, band(cmp_le(0, idx), cmp_lt(idx, v.n)), 'bounds',
                         'element index within the vector')
            el = at(v.arr, idx, self)
            off = unint(p.path[i + 1])
            if isinstance(el, Rec):
                if i + 2 >= len(p.path) and size is None:
                    return el if off == 0 and 0 not in el.f else el.f.get(off)
                v = el.f.get(off)
            else:
                if off != 0:
                    raise Fail('offset inside scalar element')
                v = el
            i += 2
        return v

    def write(self, p, val):
        r = self.wreg(p.rid) if p.rid in self.regs and not self.regs[p.rid].dead else self.region(p)
        off = unint(p.path[0])
        if not isint(off):
            off = self.E.conc(self, off)
        if len(p.path) == 1:
            r.cells[off] = val
            return
        r.cells[off] = self._wr(r.cells.get(off), p.path[1:], val)

    def _wr(self, v, path, val):
        if not isinstance(v, Vec):
            self.E.oblig(self, False, 'memory', 'write through a destroyed or uninitialised container')
            raise Fail('write into non-vector %r' % (v,))
        idx = path[0]
        off = unint(path[1])
        self.E.oblig(self, band(cmp_le(0, idx), cmp_lt(idx, v.n)), 'bounds', 'element index within the vector')
        if len(path) == 2:
            if v.ety in SCALARS:
                if off != 0:
                    raise Fail('offset inside scalar element')
                nv = val
            elif isinstance(val, Rec) and off == 0:
                nv = val
            else:
                el = at(v.arr, idx, self)
                nv = Rec(el.f)
                nv.f[off] = val
        else:
            el = at(v.arr, idx, self)
            nv = Rec(el.f)
            nv.f[off] = self._wr(el.f.get(off), path[2:], val)
        return Vec(v.n, Arr(parent=v.arr, lo=idx, n=1, lf=lambda rel: nv), v.ety, v.es)


SCALARS = {'double', 'unsigned int', 'int', 'unsigned long', 'long', 'bool', 'char', 'unsigned char', 'ptr'}


class Oblig:
    __slots__ = ('fn', 'kind', 'label', 'ok', 'goal', 'pc', 'backend', 'time', 'model')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))
