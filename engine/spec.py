"""Contracts: functional specifications as state transformers, and their verification."""
import itertools, re, time, traceback, z3
from core import *
import maps
from execu import Out, Engine, Program, show
from lib import Lib, parse_dem, sz_of, empty_vec, const_vec, strlit, litof, list_fn
import fold as _f

K = _f.K

# signatures of the abstract callbacks of units/common.h: result, parameters
#   d double, v Array (by const reference), i index, b bool, s Serie, - nothing
CALLBACKS = {
    'SMap': ('d', 'di'), 'SVMap': ('v', 'di'), 'VMap': ('d', 'vi'), 'VVMap': ('v', 'vi'),
    'IMap': ('i', 'di'), 'BMap': ('b', 'di'), 'VVIMap2': ('i', 'vvi'), 'VVVSMap3': ('d', 'vvvi'),
    'SPred': ('b', 'di'), 'VPred': ('b', 'vi'), 'SPredI': ('i', 'di'), 'VPredI': ('i', 'vi'), 'VVPred': ('b', 'vvi'), 'VVVPred': ('b', 'vvvi'),
    'VVPredN': ('b', 'vv'), 'VVVPredN': ('b', 'vvv'), 'VVSMap2': ('d', 'vvi'), 'VVVMap2': ('v', 'vvi'), 'VVVVMap3': ('v', 'vvvi'),
    'SEach': ('-', 'di'), 'VEach': ('-', 'vi'), 'VVEach': ('-', 'vvi'), 'VVVEach': ('-', 'vvvi'), 'VVVVEach': ('-', 'vvvvi'),
    'SFold': ('d', 'ddi'), 'VFold': ('v', 'vvi'),
    'SerieFn': ('s', 's'), 'SerieFn2': ('s', 's'), 'SerieFn3': ('s', 's'), 'SerieFn4': ('s', 's'), 'SerieFn5': ('s', 's'), 'SerieFn6': ('s', 's'),
    'SerieFnT': ('s', 's'), 'SerieFnM': ('s', 's'),
    'GCmp': ('b', 'dd'), 'VCmp': ('b', 'vv'),
    'DFn1': ('d', 'd'), 'DFn2': ('d', 'dd'),
    'ISCheck': ('b', 'd'), 'ISTrue': ('d', 'dis'), 'ISFalse': ('d', 'dis'), 'IVCheck': ('b', 'v'), 'IVTrue': ('v', 'vis'), 'IVFalse': ('v', 'vis'),
    'IVSTrue': ('d', 'vis'), 'IVSFalse': ('d', 'vis'),
}

# callbacks whose calls the property counts: every call is recorded in the ghost trace, like those that return nothing
TRACED = ('SMap', 'SVMap', 'VMap', 'VVMap', 'IMap', 'BMap', 'VVIMap2', 'VVVSMap3', 'VVSMap2', 'VVVMap2', 'VVVVMap3')

OVERLOADED = {'GEach': {True: 'SEach', False: 'VEach'}}      # the callback it is for a scalar, for an item


class Ser:
    """view of a df::Serie object"""
    __slots__ = ('v', 'count', 'isz', 'dim')

    def __init__(self, v, count, isz, dim):
        self.v = v
        self.count = count
        self.isz = isz
        self.dim = dim


def sort_of(E, k):
    return {'d': E.D, 'v': V, 'i': I, 'b': z3.BoolSort()}[k]


def cb(E, st, name, *args):
    """application of an abstract callback"""
    res, ps = CALLBACKS[name]
    new = 'cb_' + name not in E.ufs
    ps = ps.replace('s', 'viii')       # a Serie: its values, count, item size, dimension
    f = E.uf('cb_' + name, *([sort_of(E, p) for p in ps] + [sort_of(E, res)]))
    if new and res == 'v':
        xs = [z3.Const('cbx%d' % i, sort_of(E, p)) for i, p in enumerate(ps)]
        E.add_axiom(z3.ForAll(xs, z3.And(vlen(f(*xs)) >= 0, vlen(f(*xs)) < (1 << 31)), patterns=[vlen(f(*xs))]))
    if new and res == 'i':
        xs = [z3.Const('cbx%d' % i, sort_of(E, p)) for i, p in enumerate(ps)]
        E.add_axiom(z3.ForAll(xs, z3.And(f(*xs) >= 0, f(*xs) < (1 << 32)), patterns=[f(*xs)]))
    r = f(*[ex(a) for a in args])
    return r


def holds(E, st, name, *args):
    """the answer of an abstract predicate: an integer answer holds unless it is zero"""
    r = cb(E, st, name, *args)
    return r != 0 if CALLBACKS[name][0] == 'i' else r


def rd(st, p, off=0):
    v = st.read(p.add(off))
    return v


def ser(st, p):
    v = rd(st, p)
    if not isinstance(v, Vec):
        st.E.oblig(st, False, 'memory', 'use of a destroyed or uninitialised Serie')
        raise Fail('Serie')
    return Ser(v, rd(st, p, 24), rd(st, p, 32), rd(st, p, 28))


def wser(st, p, vec, count, isz, dim):
    st.write(p, vec)
    st.write(p.add(24), count)
    st.write(p.add(28), dim)
    st.write(p.add(32), isz)


def anyval(E, st):
    """a value the contract leaves open (a 32-bit unsigned)"""
    if getattr(E, 'specmode', False):
        return Opaque('any')
    x = E.fresh('any')
    st.assume(z3.And(x >= 0, x < (1 << 32)))
    return x


def tag(E, st, vec):
    return E.reify(st, vec)


def vec(E, n, fn, stride=None, ety='double'):
    return Vec(n, Arr(fn=fn, stride=stride), ety, sz_of(E, ety))


def with_events(cbname, inputs):
    def f(c):
        c.events(cbname)
        return inputs(c)
    return f


def serie_facts(E, st, v, count, isz, dim, min_isz=0, tail=0):
    set_stride(isz) if not isint(isz) else None
    st.assume(cmp_le(min_isz, isz))
    st.assume(cmp_lt(isz, 1 << 31))
    st.assume(cmp_le(0, count))
    st.assume(cmp_lt(count, 1 << 32))
    st.assume(cmp_le(0, dim))
    st.assume(cmp_lt(dim, 1 << 32))
    n = imul(count, isz)
    st.assume(cmp_le(0, n))
    if not (isint(tail) and tail == 0):
        st.assume(cmp_le(0, tail))
        n = ex(iadd(n, tail))
    st.assume(cmp_eq(vlen(v), n))
    st.assume(cmp_lt(n, 1 << 32))
    return n


class Ctx:
    """builder of symbolic inputs for one function"""

    def __init__(self, E, pins=None, sizes=None):
        self.E = E
        self.st = State(E)
        self.pins = pins or {}
        self.sizes = sizes or {}
        g = self.st.new_region('trace', 'ghost')
        self.trace = g
        self.st.ghost['trace'] = g
        self.st.wreg(g).cells[0] = Vec(0, Arr(fn=lambda m: Rec({})), 'ev', 16)
        self.sret = None
        self.names = {}

    def events(self, cbname):
        """the ghost call trace already holds an arbitrary number of events of this callback"""
        E = self.E
        ps = CALLBACKS[cbname][1]
        fs = {8 * i: E.uf('trace_%d_%s' % (i, p), I, sort_of(E, p)) for i, p in enumerate('viii' if ps == 's' else ps)}
        n = z3.Int('ntrace')
        self.st.assume(z3.And(n >= 0, n < (1 << 60)))
        self.st.wreg(self.trace).cells[0] = Vec(n, Arr(fn=lambda m: Rec({o: f(ex(m)) for o, f in fs.items()})), 'ev', 16)

    def const(self, n, sort=I):
        return z3.Const(n, sort)

    def serie_into(self, p, nm, min_isz=0, isz=None, count=None, tail=False):
        E, st = self.E, self.st
        v = z3.Const('v_' + nm, V)
        c = z3.Int('count_' + nm) if count is None else count
        z = z3.Int('isz_' + nm) if isz is None else isz
        if nm in self.pins and isz is None:
            if self.pins[nm] is not None:
                z = self.pins[nm]
            else:
                for k in self.sizes[nm]:
                    st.assume(bnot(cmp_eq(z, k)))
        d = z3.Int('dim_' + nm)
        n = serie_facts(E, st, v, c, z, d, min_isz, z3.Int('tail_' + nm) if tail else 0)
        wser(st, p, Vec(n, E.leaf(v), 'double', 8), c, z, d)
        return Ser(Vec(n, E.leaf(v), 'double', 8), c, z, d)

    def serie(self, nm, kind='const', **kw):
        rid = self.st.new_region('serie ' + nm, kind, 40)
        p = Ptr(rid)
        # constant inputs are ordinary regions: the frame check compares them with the specification
        self.st.wreg(rid).kind = 'param'
        self.serie_into(p, nm, **kw)
        self.names[rid] = nm
        return p

    def array(self, nm, n=None, small=False):
        rid = self.st.new_region('array ' + nm, 'param', 24)
        v = z3.Const('v_' + nm, V)
        ln = vlen(v) if n is None else n
        if small:
            self.st.assume(z3.And(vlen(v) >= 0, vlen(v) < (1 << 31)))
        if n is not None:
            self.st.assume(ex(cmp_eq(vlen(v), n)))
        self.st.wreg(rid).cells[0] = Vec(ln, self.E.leaf(v), 'double', 8)
        return Ptr(rid)

    def arrays(self, nm):
        """vector<Array> of arbitrary length"""
        E = self.E
        rid = self.st.new_region('arrays ' + nm, 'param', 24)
        f = E.uf('elt_' + nm, I, V)
        n = z3.Int('n_' + nm)
        self.st.assume(z3.And(n >= 0, n < (1 << 32)))
        self.st.wreg(rid).cells[0] = Vec(n, Arr(fn=lambda m: Rec({0: E.vec_of(f(ex(m)))})), 'std::vector<double, A>', 24)
        return Ptr(rid), f, n

    def series(self, nm, min_isz=0):
        """vector<Serie> of arbitrary length, all well formed"""
        E, st = self.E, self.st
        rid = st.new_region('series ' + nm, 'param', 24)
        f = E.uf('serv_' + nm, I, V)
        fc = E.uf('serc_' + nm, I, I)
        fz = E.uf('serz_' + nm, I, I)
        fd = E.uf('serd_' + nm, I, I)
        n = z3.Int('n_' + nm)
        st.assume(z3.And(n >= 0, n < (1 << 32)))
        k = z3.Int('k!ser')
        st.assume(z3.ForAll([k], z3.And(fc(k) >= 0, fc(k) < (1 << 32)), patterns=[fc(k)]))
        st.assume(z3.ForAll([k], z3.And(fz(k) >= min_isz, fz(k) < (1 << 31)), patterns=[fz(k)]))
        st.assume(z3.ForAll([k], z3.And(fd(k) >= 0, fd(k) < (1 << 32)), patterns=[fd(k)]))
        st.assume(z3.ForAll([k], z3.And(vlen(f(k)) == MUL(fc(k), fz(k)), MUL(fc(k), fz(k)) < (1 << 32), MUL(fc(k), fz(k)) >= 0),
                            patterns=[f(k), MUL(fc(k), fz(k))]))

        def el(m):
            m = ex(m)
            set_stride(fz(m))
            return Rec({0: Vec(imul(fc(m), fz(m)), E.leaf(f(m)), 'double', 8), 24: fc(m), 28: fd(m), 32: fz(m)})
        st.wreg(rid).cells[0] = Vec(n, Arr(fn=el), 'df::Serie', 40)
        return Ptr(rid)

    def obj(self, nm, size=1):
        rid = self.st.new_region(nm, 'param', size)
        return Ptr(rid)

    def ret(self, size=None, nm='result'):
        rid = self.st.new_region(nm, 'sret', size)
        self.sret = rid
        return Ptr(rid)

    def dbl(self, nm):
        return z3.Const('d!' + nm, self.E.D) if False else z3.Const('x_' + nm, self.E.D)

    def dref(self, nm):
        rid = self.st.new_region('double ' + nm, 'param', 8)
        self.st.wreg(rid).cells[0] = self.dbl(nm)
        return Ptr(rid)

    def size(self, nm, bits=32):
        """a size by which the proof is split (see Contract.sizes)"""
        if self.pins.get(nm) is not None:
            return self.pins[nm]
        x = self.uint(nm, bits)
        for k in self.sizes.get(nm, ()):
            self.st.assume(bnot(cmp_eq(x, k)))
        return x

    def uint(self, nm, bits=32):
        x = z3.Int(nm)
        self.st.assume(z3.And(x >= 0, x < (1 << bits)))
        return x


class CallbackLib:
    """contracts of the abstract callbacks: pure total functions of their arguments"""

    def __call__(self, E, fr, st, name, dem, args, rt, tys):
        if not dem.startswith('vf::') or 'operator()' not in dem:
            return NotImplemented
        cname = dem[4:dem.index('::', 4)]
        if cname in OVERLOADED:
            cname = OVERLOADED[cname]['(double' in dem]
        if cname not in CALLBACKS:
            return NotImplemented
        res, ps = CALLBACKS[cname]
        sret = None
        a = list(args)
        if res in 'vs' and len(a) == len(ps) + 2:
            sret = a.pop(0)
        a.pop(0)
        if res == 's':
            s = ser(st, a[0])
            if cname == 'SerieFnM':
                trace_serie(E, st, s)
            if cname == 'SerieFnT' or cname == 'SerieFnM' and not getattr(E, 'nofail', False):
                bad = fails(E, cname, st, s)
                out = []
                if st.feasible(bad):
                    s2 = st.clone()
                    s2.assume(bad, 'br')
                    out.append(Out('throw', '_ZTISt13runtime_error', s2))
                if st.feasible(bnot(bad)):
                    st.assume(bnot(bad), 'br')
                    r = apply_seriefn(E, st, cname, s)
                    wser(st, sret, r.v, r.count, r.isz, r.dim)
                    out.append(Out('ret', None, st))
                return out
            r = apply_seriefn(E, st, cname, s)
            wser(st, sret, r.v, r.count, r.isz, r.dim)
            return [Out('ret', None, st)]
        xs = []
        for p, x in zip(ps, a):
            if p == 'v':
                v = st.read(x)
                if not isinstance(v, Vec):
                    E.oblig(st, False, 'memory', 'callback argument is not a live Array')
                    raise Fail('callback argument')
                xs.append(E.reify(st, v))
            elif p == 's':
                xs += serie_terms(E, st, ser(st, x))
            else:
                xs.append(x)
        if res == '-' or cname in TRACED:
            trace(E, st, cname, xs)
        if res == '-':
            return [Out('ret', None, st)]
        r = cb(E, st, cname, *xs)
        if res == 'v':
            st.assume(z3.And(vlen(r) >= 0, vlen(r) < (1 << 31)))
            st.write(sret, E.vec_of(r))
            return [Out('ret', None, st)]
        return [Out('ret', r, st)]


def serie_terms(E, st, s):
    return [E.reify(st, s.v), s.count, s.isz, s.dim]


def trace(E, st, cname, xs):
    g = st.ghost['trace']
    w = st.wreg(g)
    v = w.cells[0]
    f = {8 * i: x for i, x in enumerate(xs)}
    el = Rec(f)
    w.cells[0] = Vec(iadd(v.n, 1), Arr(parent=v.arr, lo=v.n, n=1, lf=lambda rel: el), 'ev', 16)


def fails(E, cname, st, s):
    """the callback raises an exception (SerieFnT: depends on the items only, not on the dimension)"""
    a = [E.reify(st, s.v), ex(s.count), ex(s.isz)] + ([ex(s.dim)] if cname == 'SerieFnM' else [])
    return E.uf('cb_%s_fails' % cname, *([x.sort() for x in a] + [z3.BoolSort()]))(*a)


def trace_serie(E, st, s):
    g = st.ghost['trace']
    w = st.wreg(g)
    v = w.cells[0]
    el = Rec({0: E.reify(st, s.v), 8: ex(s.count), 16: ex(s.isz), 24: ex(s.dim)})
    w.cells[0] = Vec(iadd(v.n, 1), Arr(parent=v.arr, lo=v.n, n=1, lf=lambda rel: el), 'ev', 16)


def apply_seriefn(E, st, cname, s):
    v = E.reify(st, s.v)
    if cname == 'SerieFnT':
        g = lambda k, S: E.uf('cb_%s_%s' % (cname, k), V, I, I, S)(v, ex(s.count), ex(s.isz))
    else:
        ar = (V, I, I, I)
        g = lambda k, S: E.uf('cb_%s_%s' % (cname, k), *(ar + (S,)))(v, ex(s.count), ex(s.isz), ex(s.dim))
    rv, rc, rz, rdim = g('v', V), g('c', I), g('z', I), g('d', I)
    serie_facts(E, st, rv, rc, rz, rdim)
    return Ser(Vec(imul(rc, rz), E.leaf(rv), 'double', 8), rc, rz, rdim)


# ------------------------------------------------------------------ contracts
REG = []


class Contract:
    def __init__(self, name, pattern, spec, inputs=None, props=(), unit=None, mode='exact', site=True, note='', pre=None, bounded=None,
                 mods=None, unroll=None, tier='quick', internal=False, sizes=None, special=None):
        self.name = name
        self.pattern = re.compile(pattern)
        self.spec = spec
        self.inputs = inputs
        self.props = props
        self.unit = unit
        self.mode = mode
        self.site = site          # usable at call sites
        self.pre = pre
        self.note = note
        self.bounded = bounded
        self.mods = mods
        self.unroll = unroll
        self.tier = tier
        self.internal = internal
        self.sizes = sizes or {}  # item sizes by which the proof is split: parameter -> constants (any other size is one more case)
        self.special = special    # a proof of its own: fn(E, fname, log)
        self._m = {}

    def matches(self, mangled, dem):
        if not self.site:
            return False
        r = self._m.get(dem)
        if r is None:
            r = self.search(dem)
            self._m[dem] = r
        return r

    def search(self, dem):
        """does the demangled name denote the function under contract (and not something local to it)"""
        if "'lambda" in dem and 'lambda' not in self.pattern.pattern:
            return False
        return self.pattern.search(dem) is not None

    def apply(self, E, st, args, name):
        if self.pre is not None:
            for lab, g in self.pre(E, st, args):
                E.oblig(st, g, 'precondition', '%s: %s' % (self.name, lab))
        return self.spec(E, st, args)


def contract(name, pattern, **kw):
    def deco(f):
        c = Contract(name, pattern, f, **kw)
        REG.append(c)
        return f
    return deco


LEMMAS = []


def lemma(name, props, mode='real'):
    """a consequence of the contracts that the property states: fn(E) yields (label, proved)"""
    def deco(f):
        f.mode = mode
        LEMMAS.append((name, props, f))
        return f
    return deco


def ret(st, v=None):
    return [Out('ret', v, st)]


def throw(st, ty='_ZTISt16invalid_argument'):
    return [Out('throw', ty, st)]


def cases(st, *cs):
    """[(cond, fn(state)->outs)] exhaustive case analysis"""
    out = []
    rest = True
    for c, f in cs:
        c = unint(c)
        g = band(rest, c)
        if g is not False and (g is True or st.feasible(g)):
            s = st.clone()
            s.assume(g, 'br')
            out.extend(f(s))
        rest = band(rest, bnot(c))
        if rest is False:
            break
    return out


# ------------------------------------------------------------------ verification of one function
class Result:
    def __init__(self):
        self.obligs = []
        self.error = None
        self.assumptions = set()


def verify(E, c, fname, log=None):
    """verify the body of `fname` (mangled) against contract c; obligations are appended to E.obligs"""
    E.cur = E.prog.demangle(fname)
    E.vname = c.name
    E.streams = getattr(c, 'streams', None)
    E.no_contract = {fname}
    if c.special is not None:
        return c.special(E, fname, log)
    names = sorted(c.sizes)
    done = 0
    for combo in itertools.product(*[list(c.sizes[n]) + [None] for n in names]):
        done += verify_case(E, c, fname, Ctx(E, dict(zip(names, combo)), c.sizes), log, single=not names)
    if not done:
        E.obligs.append(Oblig(fn=E.cur, kind='vacuity', label='precondition is satisfiable', ok=False, time=0))


def named(E, st, term, *owners):
    """a name for a value a contract returns: callers see the name only, its definition is used when one of
    the owners is verified"""
    term = ex(term)
    if z3.is_const(term):
        return term
    tab = E.__dict__.setdefault('namedtab', {})
    if term.get_id() not in tab:
        tab[term.get_id()] = (term, E.fresh('value', term.sort()))
    c = tab[term.get_id()][1]
    if getattr(E, 'vname', None) in owners:
        st.assume(c == term)
    return c


def verify_case(E, c, fname, ctx, log, single):
    args = c.inputs(ctx)
    st0 = ctx.st
    n0 = len(E.obligs)
    try:
        if c.pre is not None:
            for lab, g in c.pre(E, st0, args):
                st0.assume(g)
        if not st0.feasible():
            return 0
        outs = E.run_function(fname, args, st0.clone())
        for o in outs:
            E.statics_kept(o.st)
        nimpl = len(E.obligs)
        E.quiet += 1
        E.specmode = True
        try:
            souts = c.spec(E, st0.clone(), args)
        finally:
            E.quiet -= 1
            E.specmode = False
    except Fail as e:
        o = Oblig(fn=E.cur, kind='reach', label='body can be followed: %s' % e, ok=False, time=0)
        E.obligs.append(o)
        if log:
            log(traceback.format_exc())
        return 1
    if len(outs) > 40:
        outs = joined_outs(E, st0, outs)
    pairs = 0
    base = len(st0.pc)
    covered = set()
    for o in outs:
        any_match = False
        for i, s in enumerate(souts):
            cs = o.st.clone()
            for k, x in s.st.pc[base:]:
                cs.assume(x, k)
            if not cs.feasible():
                continue
            covered.add(i)
            pairs += 1
            any_match = True
            compare(E, c, ctx, st0, o, s, cs)
    if not pairs:
        E.obligs.append(Oblig(fn=E.cur, kind='vacuity', label='some outcome is reachable', ok=False, time=0))
    for i, s in enumerate(souts):
        if i not in covered:
            # a specified outcome that no path of the body produces must be impossible
            E.obligs.append(Oblig(fn=E.cur, kind='post', label='specified outcome %d is produced' % i, ok=not s.st.feasible(), time=0))
    return 1


def joined_outs(E, st0, outs):
    """outcomes that differ only in how they came about, as one"""
    import join
    seen = [rid for rid, r in st0.regs.items() if r.kind not in ('opaque', 'global', 'shared')]

    def alike(a, b):
        if a.kind != b.kind or not (a.val is b.val or isinstance(a.val, str) and a.val == b.val or join.agree(a.val, b.val)) or \
                a.st.ghost.get('trace') != b.st.ghost.get('trace'):
            return False
        for rid in seen:
            x, y = a.st.regs.get(rid), b.st.regs.get(rid)
            if x is y:
                continue
            if x is None or y is None or x.dead != y.dead or x.zero != y.zero or x.cells.keys() != y.cells.keys() or \
                    not all(join.agree(v, y.cells[k]) for k, v in x.cells.items()):
                return False
        return True
    groups = []
    for o in outs:
        for g in groups:
            if alike(g[0], o):
                g.append(o)
                break
        else:
            groups.append([o])
    for g in groups:
        if len(g) > 1:
            g[0].st.pc = join.paths([o.st for o in g])
    return [g[0] for g in groups]


def lost(v, depth=0):
    """does the value depend on content that the summary of a loop gave up?"""
    if isinstance(v, z3.ExprRef):
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('h!'):
                    return True
                todo += x.children()
        return False
    if depth > 6:
        return False
    if isinstance(v, Rec):
        return any(lost(x, depth + 1) for x in v.f.values())
    if isinstance(v, Vec):
        return lost(v.n, depth + 1) or lost(v.arr, depth + 1)
    if isinstance(v, Arr):
        try:
            return lost(at(v, z3.Int('m!probe')), depth + 1)
        except Fail:
            return False
    return False


def compare(E, c, ctx, st0, o, s, cs):
    given_up = any(k == 'br' and lost(x) for k, x in o.st.pc)

    def ob(ok, kind, label, val=None):
        if not ok and (given_up or lost(val)):
            kind = 'reach'
            label += ' (content that a loop gave up)'
        E.obligs.append(Oblig(fn=E.cur, kind=kind, label=label, ok=bool(ok), pc=None if ok else list(cs.pc), time=time.time() - t0))
    t0 = time.time()
    if o.kind != s.kind:
        ob(False, 'post', 'outcome: specified %s, body may %s' % (s.kind, o.kind))
        return
    if o.kind == 'throw':
        ob(s.val is None or s.val == o.val, 'post', 'exception type %s' % s.val)
    elif s.val is not None or o.val is not None:
        if isinstance(s.val, Opaque) and s.val.tag == 'check':
            ob(s.val.data(cs, o), 'post', 'return value')
        elif not isinstance(s.val, Opaque):
            ok = E.prove_same(cs, o.val, s.val) if s.val is not None else True
            ob(ok, 'post', 'return value', o.val)
            if not ok and E.log:
                E.log('    impl returns %s' % show(o.val))
                E.log('    spec returns %s' % show(s.val))
    for rid, r0 in st0.regs.items():
        if r0.kind in ('opaque', 'global', 'shared'):
            continue
        if o.kind == 'throw' and r0.kind == 'sret':
            continue
        ro = o.st.regs.get(rid)
        rs = s.st.regs.get(rid)
        if ro is None or rs is None or ro.dead != rs.dead:
            ob(False, 'frame', 'lifetime of %s' % r0.name)
            continue
        if ro is rs:
            ob(True, 'frame', 'unchanged: %s' % r0.name)
            continue
        for off in sorted(set(ro.cells) | set(rs.cells)):
            a, b = ro.cells.get(off), rs.cells.get(off)
            t0 = time.time()
            if isinstance(b, Opaque) and b.tag == 'any':
                continue
            if isinstance(a, maps.Order) and isinstance(b, maps.Order):
                continue            # compared with the elements
            oa, ob_ = ro.cells.get(off + 8), rs.cells.get(off + 8)
            if isinstance(oa, maps.Order) and isinstance(ob_, maps.Order) and isinstance(a, Vec) and isinstance(b, Vec):
                ok = maps.same_maps(E, cs, a, oa, b, ob_)
                ob(ok, 'post' if r0.kind == 'sret' else 'frame', '%s: the map at byte %d' % (r0.name, off))
                continue
            if a is b:
                ob(True, 'post' if r0.kind == 'sret' else 'frame', '%s at byte %d' % (r0.name, off))
                continue
            if a is None or b is None:
                ob(False, 'post', '%s at byte %d: %s' % (r0.name, off, 'not written' if a is None else 'not specified'))
                continue
            ok = E.prove_same(cs, a, b)
            ob(ok, 'post' if r0.kind == 'sret' else 'frame', '%s at byte %d' % (r0.name, off), a)
            if not ok and E.log:
                E.log('    impl %r' % (a,))
                E.log('    spec %r' % (b,))


# ------------------------------------------------------------------ helpers for the specifications of Series
def SREF(c, nm, **kw):
    return c.serie(nm, **kw)


def vat(E, st, v, m):
    return at(v.arr, m, st)


def row(E, st, s, i):
    """item i of a Serie as an Array value"""
    a = s.v.arr
    if a.fn is not None and a.tag is not None:
        t = E.mkslice(a.tag, imul(i, s.isz), s.isz)
        return Vec(s.isz, E.leaf(t), 'double', 8)
    base = imul(i, s.isz)
    return Vec(s.isz, Arr(fn=lambda m: at(a, iadd(base, m), st)), 'double', 8)


def rowt(E, st, s, i):
    """... as a V term"""
    return E.reify(st, row(E, st, s, i))


def inarg(c):
    return c


def outserie(E, st, p, v, count, isz, dim=None):
    wser(st, p, v, count, isz, anyval(E, st) if dim is None else dim)
    return ret(st)


def eqx(a, b):
    return cmp_eq(a, b)
