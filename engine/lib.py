"""Trusted contracts of the C++ runtime and the standard library.

Every entry used in a run is recorded in E.trusted and ends up in the evidence file.
Library code that is a template and that has no entry here is NOT trusted: it is
executed from its own LLVM IR like any function of /repo.
"""
import re, z3
from core import *
from execu import Out
import fold as _fold

SZ = {'double': 8, 'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'long': 8, 'bool': 1, 'char': 1,
      'unsigned char': 1, 'float': 4, 'df::Serie': 40, 'unsigned short': 2, 'long long': 8}


def split_top(s, sep):
    out = []
    d = 0
    i = 0
    cur = ''
    while i < len(s):
        c = s[i]
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            d -= 1
        if d == 0 and s.startswith(sep, i):
            out.append(cur)
            cur = ''
            i += len(sep)
            continue
        cur += c
        i += 1
    out.append(cur)
    return out


_pd = {}


def parse_dem(dem):
    """(qualified parts, params, template args of last) from a demangled signature"""
    r = _pd.get(dem)
    if r is not None:
        return r
    s = dem
    # neutralise operator names
    ops = []

    def rep(m):
        ops.append(m.group(0))
        return 'operator@%d@' % (len(ops) - 1)
    s = re.sub(r'operator(\(\)|\[\]|<<=|>>=|<=>|<<|>>|<=|>=|==|!=|->\*|->|\+\+|--|\+=|-=|\*=|/=|&&|\|\||[-+*/=<>!&|%~^])', rep, s)
    d = 0
    pos = None
    for i, c in enumerate(s):
        if c in '<[{':
            d += 1
        elif c in '>]}':
            d -= 1
        elif c == '(':
            if d == 0:
                # '(anonymous namespace)' is part of a name
                if s.startswith('(anonymous', i):
                    d += 1
                    continue
                pos = i
                break
            d += 1
        elif c == ')':
            d -= 1
    if pos is None:
        r = ([s], [], '')
    else:
        head = s[:pos]
        # parameters
        d = 0
        j = pos
        for j in range(pos, len(s)):
            if s[j] in '(<[{':
                d += 1
            elif s[j] in ')>]}':
                d -= 1
                if d == 0:
                    break
        params = [p.strip() for p in split_top(s[pos + 1:j], ',')] if j > pos + 1 else []
        # a lambda's operator(): continue after the enclosing function's parameter list
        rest = s[j + 1:]
        if rest.lstrip().startswith('const::') or rest.startswith('::'):
            r = ([dem], params, '')
            _pd[dem] = r
            return r
        parts = split_top(head, ' ')
        qn = parts[-1]
        quals = split_top(qn, '::')

        def back(x):
            return re.sub(r'operator@(\d+)@', lambda m: ops[int(m.group(1))], x)
        quals = [back(x) for x in quals]
        last = quals[-1]
        targs = ''
        if not last.startswith('operator'):
            k = last.find('<')
            if k >= 0:
                targs = last[k + 1:-1]
                quals[-1] = last[:k]
        else:
            m = re.match(r'(operator(?:\(\)|\[\]|<<|>>|==|!=|<=|>=|->|\+\+|--|\+=|-=|[-+*/=<>!]))(<.*>)?$', last)
            if m:
                quals[-1] = m.group(1)
                targs = (m.group(2) or '')[1:-1]
        params = [back(p) for p in params]
        r = (quals, params, targs)
    _pd[dem] = r
    return r


def sz_of(E, ty):
    ty = ty.strip()
    if ty in SZ:
        return SZ[ty]
    if ty.endswith('*') or ty.endswith('&'):
        return 8
    if ty.startswith('std::vector<'):
        return 24
    if ty.startswith('std::map<'):
        return 48
    if ty.startswith('std::future<'):
        return 16
    if ty in ('std::string', 'std::basic_string<char, std::char_traits<char>, A>'):
        return 32
    for m in E.prog.mods:
        for pre in ('class.', 'struct.'):
            n = pre + ty
            if n in m.types:
                return m.sizeof(('struct', n))
    x = E.user_sizes.get(ty) if hasattr(E, 'user_sizes') else None
    if x:
        return x
    raise Fail('size of type %s' % ty)


def is_scalar(ty):
    return ty in SCALARS or ty.endswith('*')


def obj_cells(E, st, p, size):
    """the cells of the object of `size` bytes at p (absolute within the innermost element)"""
    r = st.region(p)
    off = unint(p.path[-1])
    if len(p.path) == 1:
        return {k - off: v for k, v in r.cells.items() if off <= k < off + size}
    base = Ptr(p.rid, p.path[:-1] + (0,))
    el = elem_at(E, st, base)
    if not isinstance(el, Rec):
        return {0: el}
    return {k - off: v for k, v in el.f.items() if off <= k < off + size}


def elem_at(E, st, p):
    """whole element addressed by a path pointer ending at element offset 0"""
    r = st.region(p)
    v = r.cells.get(unint(p.path[0]))
    i = 1
    while i < len(p.path):
        if not isinstance(v, Vec):
            raise Fail('path into non-vector %r' % (v,))
        idx = p.path[i]
        E.oblig(st, band(cmp_le(0, idx), cmp_lt(idx, v.n)), 'bounds', 'element index within the vector')
        el = at(v.arr, idx, st)
        if i + 2 >= len(p.path):
            return el
        v = el.f.get(unint(p.path[i + 1]))
        i += 2
    return v


def obj_write(E, st, p, cells, size):
    """store a whole object"""
    if len(p.path) == 1:
        r = st.wreg(p.rid)
        off = unint(p.path[0])
        for k in list(r.cells):
            if off <= k < off + size:
                del r.cells[k]
        for k, v in cells.items():
            r.cells[off + k] = v
        return
    off = unint(p.path[-1])
    base = Ptr(p.rid, p.path[:-1] + (0,))
    if off == 0 and set(cells) == {0} and not isinstance(elem_at(E, st, base), Rec):
        st.write(p, cells[0])
        return
    el = elem_at(E, st, base)
    f = {k: v for k, v in el.f.items() if not (off <= k < off + size)}
    for k, v in cells.items():
        f[off + k] = v
    st.write(base, Rec(f))


def elem_from(E, st, p, ety):
    """element value of type ety read from pointer p"""
    if is_scalar(ety):
        v = st.read(p)
        if v is None:
            E.oblig(st, False, 'memory', 'read of an uninitialised object')
            raise Fail('uninitialised element')
        return v
    cells = obj_cells(E, st, p, sz_of(E, ety))
    for v in cells.values():
        if v is DEAD:
            E.oblig(st, False, 'memory', 'use of a destroyed object')
            raise Fail('destroyed element')
    return Rec(cells)


def zero_elem(E, ety):
    if ety == 'double':
        return E.dconst(0.0)
    if ety == 'bool':
        return False
    if is_scalar(ety):
        return 0 if not ety.endswith('*') else Ptr(None)
    if ety.startswith('std::vector<'):
        e2 = elemtype(ety)
        return Rec({0: empty_vec(E, e2)})
    if ety.startswith('std::basic_string'):
        return Rec({0: strlit('')})
    raise Fail('default element of %s' % ety)


def elemtype(vty):
    """element type from 'std::vector<T, A>'"""
    a = split_top(vty[vty.index('<') + 1:vty.rindex('>')], ',')
    return a[0].strip()


def empty_vec(E, ety):
    z = [None]

    def fn(m):
        if z[0] is None:
            z[0] = zero_elem(E, ety) if is_scalar(ety) and not ety.endswith('*') else Rec({})
        return z[0]
    return Vec(0, Arr(fn=fn), ety, sz_of(E, ety))


def const_vec(E, n, ety, v):
    return Vec(n, Arr(fn=lambda m: v), ety, sz_of(E, ety))


_lits = {}


def strlit(s):
    t = z3.Const('str_' + repr(s), STR)
    _lits[t.get_id()] = (t, s)
    return t


def litof(t):
    x = _lits.get(t.get_id()) if isinstance(t, z3.ExprRef) else None
    return x[1] if x else None


class Lib:
    def __init__(self):
        self.extra = []

    # -------------------------------------------------------------- helpers
    def ret(self, st, v=None):
        return [Out('ret', v, st)]

    def cstr(self, E, st, p):
        """text behind a char pointer, or None"""
        if isinstance(p, Ptr) and p.rid in st.regs:
            r = st.regs[p.rid]
            v = r.cells.get(0)
            if v is None and r.zero and r.kind == 'global' and not r.cells:
                return ''
            if isinstance(v, Opaque) and v.tag == 'cstr' and isint(p.path[0]):
                s = v.data
                if isinstance(s, bytes):
                    s = s.decode('latin1')
                s = s[p.path[0]:]
                k = s.find('\0')
                return s[:k] if k >= 0 else s
        return None

    def getvec(self, E, st, p, what='vector'):
        if isinstance(p, Opaque):
            raise Fail('vector behind an opaque pointer')
        v = st.read(p)
        if v is DEAD:
            E.oblig(st, False, 'memory', 'use of a destroyed vector')
            raise Fail('destroyed vector')
        if v is None:
            E.oblig(st, False, 'memory', 'use of an uninitialised vector')
            raise Fail('uninitialised vector %r in %s' % (p, st.regs[p.rid].name))
        if not isinstance(v, Vec):
            raise Fail('not a vector: %r' % (v,))
        return v

    def getstr(self, E, st, p):
        v = st.read(p)
        if v is None or v is DEAD:
            E.oblig(st, False, 'memory', 'use of an uninitialised or destroyed string')
            raise Fail('string')
        return v

    def raw_range(self, E, st, p, q, ety):
        """(count, relative accessor) for the elements between two pointers"""
        es = sz_of(E, ety)
        if p.rid == q.rid and p.rid is None:
            return 0, None
        if p.rid != q.rid or len(p.path) != len(q.path):
            raise Fail('range of unrelated pointers %r %r' % (p, q))
        if len(p.path) >= 3:
            if isinstance(p.path[-1], int) and p.path[-1] == 0 and isinstance(q.path[-1], int) and q.path[-1] == 0:
                n = isub(q.path[-2], p.path[-2])
                v = self.getvec(E, st, Ptr(p.rid, p.path[:-2]))
                lo = p.path[-2]
                E.oblig(st, bor(cmp_eq(n, 0), band(cmp_le(0, lo), cmp_le(0, n), cmp_le(iadd(lo, n), v.n))), 'bounds',
                        'iterator range within its vector')
                arr = v.arr
                return n, (lambda k, st2=None: at(arr, iadd(lo, k), st2)), arr, lo
            raise Fail('odd element pointers')
        # C array / initializer_list backing store
        a, b = unint(p.path[0]), unint(q.path[0])
        if isint(a) and isint(b):
            if (b - a) % es:
                raise Fail('range size')
            els = []
            for o in range(a, b, es):
                els.append(elem_from(E, st, Ptr(p.rid, (o,)), ety))
            return len(els), list_fn(els), None, 0
        raise Fail('range over raw memory')

    def range_vec(self, E, st, p, q, ety):
        es = sz_of(E, ety)
        rr = self.raw_range(E, st, p, q, ety)
        if rr[1] is None:
            return empty_vec(E, ety)
        n, f, arr, lo = rr
        if arr is not None and isint(lo) and lo == 0:
            return Vec(n, arr, ety, es)
        return Vec(n, Arr(fn=lambda m: f(m)), ety, es)

    def rand(self, E, fr, st, q, params, args, rt):
        """a seeded generator: its seed and the number of draws so far; a distribution: its bounds. Draw number k of a
        seed and bounds is one value between the bounds"""
        g, d = args[0], q[-1]
        if q[1].startswith('mersenne_twister_engine<') and (d == 'mersenne_twister_engine' or d == 'seed') and len(args) == 2 and not isinstance(args[1], Ptr):
            if '32ul, 624ul, 397ul' not in q[1]:
                raise Fail('no contract for this generator')
            st.write(g, args[1])
            st.write(g.add(8), 0)
            return self.ret(st)
        if d == 'uniform_real_distribution' and len(args) == 3:
            st.write(g, args[1])
            st.write(g.add(8), args[2])
            return self.ret(st)
        if d.startswith('operator()') and q[1].startswith('uniform_real') and len(args) == 2:
            e = args[1]
            s, k = st.read(e), st.read(e.add(8))
            lo, hi = st.read(g), st.read(g.add(8))
            st.write(e.add(8), iadd(k, 1))
            return self.ret(st, E.uf('DRAW', I, E.D, E.D, I, E.D)(ex(s), ex(lo), ex(hi), ex(k)))
        raise Fail('no contract for std::' + '::'.join(q[1:])[:80])

    def elemtype(self, vty):
        return elemtype(vty)

    # -------------------------------------------------------------- dispatch
    def call(self, E, fr, st, name, dem, args, rt, tys):
        for h in self.extra:
            r = h(E, fr, st, name, dem, args, rt, tys)
            if r is not NotImplemented:
                return r
        if name.startswith('_ZSt5async'):
            import conc
            E.trusted.add('std::async')
            return conc.async_call(E, fr, st, name, dem, args)
        if name.startswith('llvm.'):
            return self.intrinsic(E, fr, st, name, args, rt)
        q, params, targs = parse_dem(dem)
        r = NotImplemented
        if q[0] == 'std' and len(q) >= 2:
            c = q[1]
            if c.startswith('vector<') and len(q) == 3:
                r = self.vector(E, fr, st, q, params, targs, args, elemtype('std::' + c), rt, name)
            elif c.startswith('basic_string<') and len(q) == 3:
                r = self.string(E, fr, st, q, params, targs, args, rt)
            elif c.startswith('map<') and len(q) == 3:
                import maps
                r = maps.call(E, fr, st, q, params, targs, args, rt)
            elif c.startswith('set<') and len(q) == 3:
                import sets
                r = sets.call(E, fr, st, q, params, targs, args, rt)
            elif re.match(r'_Rb_tree_(const_)?iterator<', c) and len(q) == 3:
                import maps
                r = maps.iterator(E, fr, st, q, params, args, rt)
            elif len(q) == 2 and q[1] in ('operator==', 'operator!=') and params and '_Rb_tree_' in params[0] and 'iterator<' in params[0]:
                import maps
                r = maps.compare(E, st, q[1], args)
            elif len(q) == 2:
                r = self.stdfn(E, fr, st, q[1], params, targs, args, rt, dem, name)
            elif c in ('invalid_argument', 'runtime_error', 'out_of_range', 'logic_error', 'exception', 'length_error'):
                r = self.ret(st, Ptr(None) if rt == ('ptr',) else None)
            elif c.startswith('basic_ostream') or c.startswith('ios_base') or c == 'ostream' or c.startswith('basic_ios'):
                self.wrote(E, st, args[0])
                r = self.ret(st, args[0] if rt == ('ptr',) else None)
            elif (c.startswith('future<') or c.startswith('__basic_future<')) and len(q) == 3:
                import conc
                r = conc.future(E, fr, st, q, args)
            elif c.startswith('mersenne_twister_engine<') or c.startswith('uniform_real_distribution<double>'):
                r = self.rand(E, fr, st, q, params, args, rt)
            elif c.startswith('initializer_list<') and len(q) == 3 and q[2] in ('begin', 'end', 'size'):
                r = NotImplemented
        elif len(q) == 1:
            r = self.cfn(E, fr, st, q[0], args, rt, name)
        if r is not NotImplemented:
            E.trusted.add('::'.join(q) if len(q) > 1 else q[0])
        elif q[0] == 'std' and len(q) == 3 and re.match(r'(map|set|basic_string|vector)<', q[1]) and q[2] not in ('rbegin', 'rend', 'crbegin', 'crend'):
            raise Fail('no contract for std::%s::%s' % (q[1][:q[1].index('<')], q[2]))
        return r

    def wrote(self, E, st, stream):
        """an insertion into a stream; a contract about printing names the standard streams it is for"""
        if getattr(E, 'streams', None) is None:
            return
        if not isinstance(stream, Ptr) or stream.rid is None:
            E.oblig(st, False, 'memory', 'insertion into a stream')
            return
        nm = st.regs[stream.rid].name
        if nm.startswith('@'):
            E.oblig(st, nm in ['@_ZSt4' + x for x in E.streams], 'frame', 'writes to its own stream (%s)' % nm[1:])

    def cfn(self, E, fr, st, n, args, rt, name):
        if n == '__cxa_allocate_exception':
            rid = st.new_region('exception', 'opaque')
            return self.ret(st, Ptr(rid))
        if n == '__cxa_guard_release':
            g = args[0].rid
            for gn, rid in E.globs.items():
                if rid == g and gn.startswith('_ZGV'):
                    obj = '_Z' + gn[4:]
                    if E.globs.get(obj) in st.regs:
                        st.ghost['statics'] = st.ghost.get('statics', ()) + ((obj, st.regs[E.globs[obj]]),)
            return self.ret(st)
        if n in ('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_abort', '__cxa_rethrow_'):
            return self.ret(st)
        if n == '__cxa_atexit':
            return self.ret(st, 0)
        if n == '__cxa_begin_catch':
            rid = st.new_region('exception', 'opaque')
            return self.ret(st, Ptr(rid))
        if n == '__cxa_guard_acquire':
            return self.ret(st, 1)
        if n == '__cxa_throw':
            p = args[1]
            nm = st.regs[p.rid].name[1:] if isinstance(p, Ptr) else '?'
            return [Out('throw', nm, st)]
        if n == '__cxa_rethrow':
            return [Out('throw', st.exc or '?', st)]
        if n in ('__clang_call_terminate', 'std::terminate', 'abort', 'exit', '__cxa_pure_virtual', '__cxa_bad_cast'):
            E.oblig(st, False, 'memory', 'call of %s' % n)
            return []
        if n in ('sqrt', 'fabs', 'floor', 'ceil', 'sin', 'cos', 'tan', 'atan', 'acos', 'asin', 'exp', 'log', 'trunc', 'round',
                 'sqrtf'):
            return self.ret(st, self.mathfn(E, st, n, args))
        if n in ('pow', 'atan2', 'fmod', 'hypot'):
            return self.ret(st, E.ffun(n, *args))
        if n in ('memcpy', 'memmove'):
            return self.memcpy(E, fr, st, args[0], args[1], args[2], args[0])
        if n in ('memcmp', 'bcmp'):
            return self.memcmp(E, st, args[0], args[1], unint(args[2]))
        if n in ('new', 'new[]', 'malloc'):
            rid = st.new_region('heap', 'heap', args[0] if isint(args[0]) else None)
            return self.ret(st, Ptr(rid))
        if n in ('delete', 'delete[]', 'free'):
            p = args[0]
            if isinstance(p, Ptr) and p.rid in st.regs:
                r = st.regs[p.rid]
                E.oblig(st, not r.dead and r.kind == 'heap' and len(p.path) <= 1 and all(isint(x) and x == 0 for x in p.path), 'memory',
                        '%s of an object that was allocated and still exists' % n)
                st.wreg(p.rid).dead = True
            return self.ret(st)
        if n == 'strlen':
            s = self.cstr(E, st, args[0])
            if s is not None:
                return self.ret(st, len(s))
        return NotImplemented

    def mathfn(self, E, st, n, args):
        x = args[0]
        if isint(x) or z3.is_int(x):
            x = E.i2d(x)
        if E.mode == 'real':
            if E.dval(x) is not None and n in ('sqrt', 'fabs'):
                r = E.ffun(n, x)
                if E.dval(r) is not None:
                    return r
            if n == 'fabs':
                return E.ffun('fabs', x)
            if n == 'sqrt':
                f = E.uf('sqrt', E.D, E.D)
                x = rnorm(x)
                r = f(x)
                st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
                return r
        else:
            if n == 'fabs' and z3.is_app(x) and x.decl().name() == 'fneg':
                x = x.arg(0)
        return E.ffun(n, x, *args[1:])

    def intrinsic(self, E, fr, st, name, args, rt):
        b = name.split('.')[1]
        if b == 'lifetime':
            if name.startswith('llvm.lifetime.end'):
                p = args[1]
                if isinstance(p, Ptr) and p.rid in st.regs and len(p.path) == 1:
                    w = st.wreg(p.rid)
                    w.cells = {}
            return self.ret(st)
        if b in ('assume', 'dbg', 'experimental', 'invariant', 'prefetch', 'stacksave', 'stackrestore', 'va_start', 'va_end'):
            return self.ret(st, None)
        if b == 'expect':
            return self.ret(st, args[0])
        if b == 'eh':
            p = args[0]
            nm = st.regs[p.rid].name[1:] if isinstance(p, Ptr) and p.rid in st.regs else '*'
            return self.ret(st, E.typeids.setdefault(nm, len(E.typeids) + 1))
        if b in ('memcpy', 'memmove'):
            return self.memcpy(E, fr, st, args[0], args[1], args[2], None)
        if b == 'memset':
            p, v, n = args[0], args[1], unint(args[2])
            if isint(v) and v == 0 and isint(n) and len(p.path) == 1:
                w = st.wreg(p.rid)
                o = unint(p.path[0])
                for k in list(w.cells):
                    if o <= k < o + n:
                        del w.cells[k]
                if not w.cells and o == 0 and (w.size is None or w.size == n):
                    w.zero = True
                    return self.ret(st)
                w.zero = True
                return self.ret(st)
            raise Fail('memset')
        if b in ('fabs', 'sqrt', 'floor', 'ceil', 'trunc', 'sin', 'cos', 'exp', 'log', 'round'):
            return self.ret(st, self.mathfn(E, st, b, args))
        if b in ('fmuladd', 'fma'):
            return self.ret(st, E.fbin('fadd', E.fbin('fmul', args[0], args[1]), args[2]))
        if b in ('umax', 'umin', 'smax', 'smin'):
            x, y = args[0], args[1]
            w = rt[1]
            sx, sy = (E.sview(st, x, w), E.sview(st, y, w)) if b[0] == 's' else (x, y)
            c = cmp_lt(sx, sy)
            return self.ret(st, ite(c, y, x) if b.endswith('max') else ite(c, x, y))
        if b in ('maxnum', 'minnum'):
            return self.ret(st, E.ffun(b, *args))
        if b == 'abs':
            x = E.sview(st, args[0], rt[1])
            return self.ret(st, ite(cmp_lt(x, 0), iscale(x, -1), x))
        if b == 'umul' and 'overflow' in name or b == 'uadd' and 'overflow' in name:
            x, y = args[0], args[1]
            r = imul(x, y) if b == 'umul' else iadd(x, y)
            if E.optim or st.prove(cmp_lt(r, 1 << 64)):
                return self.ret(st, Agg([r, False]))
            raise Fail('checked arithmetic')
        if b == 'is':
            return self.ret(st, False)
        if b == 'objectsize':
            return self.ret(st, (1 << 64) - 1)
        if b == 'trap':
            E.oblig(st, False, 'memory', 'trap reached')
            return []
        raise Fail('intrinsic ' + name)

    def memcmp(self, E, st, p, q, n):
        """zero exactly when the bytes are equal; of the other results nothing is known"""
        if not isint(n) or n % 8:
            raise Fail('memcmp of %s bytes' % (n,))
        same_ = []
        for o in range(0, n, 8):
            xs = []
            for b in (p, q):
                c = b.add(o)
                if len(c.path) == 1 and E.cellw.get((c.rid, unint(c.path[0]))) != 64:
                    raise Fail('memcmp of other than 64-bit integers')
                x = st.read(c)
                if not (isint(x) or isinstance(x, z3.ArithRef) and z3.is_int(x)):
                    raise Fail('memcmp of %r' % (x,))
                xs.append(x)
            same_.append(cmp_eq(*xs))
        e = band(*same_)
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        r = E.fresh('memcmp')
        st.assume(z3.And(r >= 0, r < (1 << 32)))
        st.assume((r == 0) == e)
        return self.ret(st, r)

    def memcpy(self, E, fr, st, d, s, n, retv):
        n = unint(n)
        if isint(n) and n == 0:
            return self.ret(st, retv)
        if isinstance(d, Opaque) or isinstance(s, Opaque):
            return self.ret(st, retv)
        if isint(n) and len(d.path) == 1:
            rs = st.region(s)
            cells = obj_cells(E, st, s, n)
            if len(s.path) > 1 and not cells:
                raise Fail('memcpy from element')
            if rs.zero and not cells:
                w = st.wreg(d.rid)
                o = unint(d.path[0])
                for k in list(w.cells):
                    if o <= k < o + n:
                        del w.cells[k]
                w.zero = True
                return self.ret(st, retv)
            obj_write(E, st, d, cells, n)
            return self.ret(st, retv)
        if len(d.path) >= 3 or len(s.path) >= 3:
            # elements of a vector
            if len(d.path) >= 3:
                dv = self.getvec(E, st, Ptr(d.rid, d.path[:-2]))
                ety, es = dv.ety, dv.es
            else:
                sv = self.getvec(E, st, Ptr(s.rid, s.path[:-2]))
                ety, es = sv.ety, sv.es
            cnt = E.idiv(st, n, es)
            if len(d.path) >= 3:
                q = s.elem if False else E.padd(st, s, cnt, es)
                self.assign_range(E, st, d, s, q, ety, cnt)
                return self.ret(st, retv)
        raise Fail('memcpy of %s bytes' % (n,))

    def assign_range(self, E, st, d, s, q, ety, cnt):
        """copy [s,q) over the elements starting at d (snapshot semantics)"""
        rr = self.raw_range(E, st, s, q, ety)
        f = rr[1]
        vp = Ptr(d.rid, d.path[:-2])
        dv = self.getvec(E, st, vp)
        lo = d.path[-2]
        E.oblig(st, bor(cmp_eq(cnt, 0), band(cmp_le(0, lo), cmp_le(iadd(lo, cnt), dv.n))), 'bounds', 'copied range within the destination')
        if f is not None:
            st.write(vp, Vec(dv.n, Arr(parent=dv.arr, lo=lo, n=cnt, lf=lambda rel: f(rel)), dv.ety, dv.es))

    # -------------------------------------------------------------- std:: functions
    def stdfn(self, E, fr, st, f, params, targs, args, rt, dem, name):
        if f in ('operator<<', 'endl', 'flush', 'operator>>'):
            if any('ostream' in p for p in params) or f in ('endl', 'flush'):
                self.wrote(E, st, args[0])
                return self.ret(st, args[0])
        if f == 'to_string':
            x = args[1]
            if isinstance(x, z3.ExprRef) and x.sort().eq(E.D):
                t = E.uf('to_string_d', E.D, STR)(x)
            else:
                if params and params[0] in ('int', 'long'):
                    x = E.sview(st, x, 32 if params[0] == 'int' else 64)
                t = E.uf('to_string_i', I, STR)(ex(x)) if not isint(x) else strlit(str(x))
            st.write(args[0], t)
            return self.ret(st)
        if f == 'operator+' and any('basic_string' in p for p in params):
            ts = []
            for p, a in zip(params, args[1:]):
                ts.append(self.as_str(E, st, p, a))
            st.write(args[0], self.concat(E, ts))
            return self.ret(st)
        if f in ('operator==', 'operator!=', 'operator<') and any('basic_string' in p for p in params):
            ts = [self.as_str(E, st, p, a) for p, a in zip(params, args)]
            if f == 'operator<':
                r = E.uf('strlt', STR, STR, z3.BoolSort())(*ts)
            else:
                r = self.streq(E, st, *ts)
                if f == 'operator!=':
                    r = bnot(r)
            return self.ret(st, r)
        if f in ('sqrt', 'fabs', 'abs', 'floor', 'ceil', 'trunc', 'sin', 'cos', 'atan', 'acos', 'exp', 'log') and rt == ('double',):
            return self.ret(st, self.mathfn(E, st, 'fabs' if f == 'abs' else f, args))
        if f == 'pow' and rt == ('double',):
            return self.ret(st, E.ffun('pow', *args))
        if f == 'abs' and rt[0] == 'i':
            x = E.sview(st, args[0], rt[1])
            E.oblig(st, cmp_lt(-(1 << (rt[1] - 1)), x), 'overflow', 'abs of the smallest integer')
            return self.ret(st, ite(cmp_lt(x, 0), iscale(x, -1), x))
        if f in ('__throw_length_error', '__throw_bad_alloc', '__throw_out_of_range', '__throw_out_of_range_fmt', '__throw_logic_error',
                 '__throw_bad_array_new_length', '__throw_bad_function_call'):
            nm = {'__throw_length_error': '_ZTISt12length_error', '__throw_bad_alloc': '_ZTISt9bad_alloc',
                  '__throw_logic_error': '_ZTISt11logic_error'}.get(f, '_ZTISt12out_of_range')
            return [Out('throw', nm, st)]
        if f == 'terminate':
            E.oblig(st, False, 'memory', 'call of std::terminate')
            return []
        if f in ('sort', 'stable_sort') and '__normal_iterator' in targs:
            return self.sort(E, fr, st, args, targs, dem, name)
        if f in ('__copy_move_a', '__copy_move_a2', '__copy_move_a1', '__copy_move_backward_a') or (f == 'copy' and rt == ('ptr',)):
            p, q, d = args[:3]
            if all(isinstance(x, Ptr) for x in (p, q, d)) and f != '__copy_move_backward_a' and len(d.path) >= 3:
                vp = Ptr(d.rid, d.path[:-2])
                dv = self.getvec(E, st, vp)
                rr = self.raw_range(E, st, p, q, dv.ety)
                n = rr[0]
                self.assign_range(E, st, d, p, q, dv.ety, n)
                return self.ret(st, E.padd(st, d, n, dv.es))
        return NotImplemented

    def as_str(self, E, st, p, a):
        if 'basic_string' in p:
            return self.getstr(E, st, a)
        if 'char const*' in p:
            s = self.cstr(E, st, a)
            if s is None:
                return E.fresh('cs', STR)
            return strlit(s)
        if p.strip() == 'char':
            if isint(a):
                return strlit(chr(a))
            return E.uf('chr', I, STR)(ex(a))
        raise Fail('string operand ' + p)

    def concat(self, E, ts):
        a, b = ts
        la, lb = litof(a), litof(b)
        if la is not None and lb is not None:
            return strlit(la + lb)
        if la == '':
            return b
        if lb == '':
            return a
        # right-nested normal form with adjacent literals merged
        cat = E.uf('strcat', STR, STR, STR)

        def flat(x):
            if z3.is_app(x) and x.decl().name() == 'strcat':
                return flat(x.arg(0)) + flat(x.arg(1))
            return [x]
        fl = []
        for x in flat(a) + flat(b):
            if fl and litof(fl[-1]) is not None and litof(x) is not None:
                fl[-1] = strlit(litof(fl[-1]) + litof(x))
            else:
                fl.append(x)
        r = fl[-1]
        for x in reversed(fl[:-1]):
            r = cat(x, r)
        return r

    def streq(self, E, st, a, b):
        if a.eq(b):
            return True
        la, lb = litof(a), litof(b)
        if la is not None and lb is not None:
            return la == lb
        for x, y in ((a, b), (b, a)):
            r = self.tail_test(E, st, x, y)
            if r is not None:
                return r
        # distinctness of the literals in play
        lits = st.ghost.get('lits', ())
        new = [x for x in (a, b) if litof(x) is not None and not any(x.eq(y) for y in lits)]
        for x in new:
            for y in lits:
                st.assume(x != y)
            lits = lits + (x,)
        st.ghost['lits'] = lits
        return a == b

    def tail_test(self, E, st, a, b):
        """a == (the first l characters of a) + literal: l is what the literal leaves, and the last characters are those of the literal"""
        if not (z3.is_app(b) and b.decl().name() == 'strcat'):
            return None
        h, lit = b.arg(0), litof(b.arg(1))
        if lit and h.eq(a):
            return False
        if lit is None or not (z3.is_app(h) and h.decl().name() == 'strsub' and h.arg(0).eq(a) and z3.is_int_value(h.arg(1)) and h.arg(1).as_long() == 0):
            return None
        n = self.strlen(E, st, a)
        l = unint(z3.simplify(h.arg(2)))
        cs = [cmp_eq(iadd(l, len(lit)), n)]
        for i, c in enumerate(lit):
            x = E.uf('strch', STR, I, I)(a, ex(iadd(l, i)))
            cs.append(cmp_eq(x, ord(c)))
        return band(*cs)

    def comparator(self, E, mod, name):
        """the comparison the instantiation of std::sort uses: the operator() of its _Iter_comp_iter, found by its calls"""
        seen, work = set(), [name]
        while work:
            f = work.pop(0)
            if f in seen or f not in mod.fns:
                continue
            seen.add(f)
            d = E.prog.demangle(f)
            if re.search(r'__ops::_Iter_(comp|less)_iter.*::operator\(\)', d):
                return f
            fn = mod.fns[f]
            for b in list(fn.raw):
                for i in fn.block(b):
                    if i.op in ('call', 'invoke') and i.a['callee'][0] == 'glob':
                        work.append(i.a['callee'][1])
        raise Fail('comparison of ' + E.prog.demangle(name)[:120])

    def sort(self, E, fr, st, args, targs, dem, name):
        """std::sort, std::stable_sort: the elements rearranged by a permutation after which no element compares before an
        earlier one (the comparison must be a strict weak order)"""
        import loops
        ety = elemtype(split_iter(targs))
        p, q = args[:2]
        rr = self.raw_range(E, st, p, q, ety)
        if len(rr) < 4 or rr[2] is None:
            raise Fail('sort of a raw range')
        n, _, arr, lo = rr
        mod = E.prog.where[name]
        op = self.comparator(E, mod, name)
        if len(args) > 3:
            raise Fail('comparison object passed in several pieces')
        st0 = st.clone()
        this = Ptr(st0.new_region('cmp', 'stack'))
        if len(args) == 3:
            st0.write(this, args[2])
        i, j = E.fresh('k'), E.fresh('k')
        st0.assume(z3.And(i >= 0, j >= 0))
        st0.assume(cmp_lt(i, n))
        st0.assume(cmp_lt(j, n))
        base = len(st0.pc)
        mark = E._fresh
        es = sz_of(E, ety)
        E.loopnest += 1
        try:
            outs = E.run_function(op, [this, E.padd(st0, p, i, es), E.padd(st0, p, j, es)], st0, fr.depth + 1)
        finally:
            E.loopnest -= 1
        paths = []
        for o in outs:
            if o.kind != 'ret':
                raise Fail('a comparison that may raise an exception')
            cs = []
            for k, c in o.st.pc[base:]:
                if k == 'br':
                    cs.extend(loops.flat_and(c))
            paths.append((cs, o.val))
        less = ex(loops.merge_paths(paths))
        less = z3.If(less, z3.BoolVal(True), z3.BoolVal(False)) if less.sort() != z3.BoolSort() else less
        bad = [x for x in loops.decls_of(less) if loops.fresh_no(x) > mark]
        if bad:
            raise Fail('comparison with an intermediate result %s' % bad)
        pm = E.folds.perm(renorm(z3.substitute(less, (i, _fold.K), (j, _fold.RR))), n)
        E.assumed.add('std::sort: the comparison is a strict weak order on the values compared')
        vp = Ptr(p.rid, p.path[:-2])
        v = self.getvec(E, st, vp)
        old = v.arr
        if isint(lo) and lo == 0 and same(n, v.n):
            new = Arr(fn=lambda m: at(old, pm(m)))
        else:
            new = Arr(parent=old, lo=lo, n=n, lf=lambda rel: at(old, iadd(lo, pm(rel))))
        st.write(vp, Vec(v.n, new, v.ety, v.es))
        return self.ret(st)

    # -------------------------------------------------------------- std::string
    def string(self, E, fr, st, q, params, targs, args, rt):
        m = q[2]
        this = args[0]
        if m == 'substr':
            return self.substr(E, st, args[0], self.getstr(E, st, args[1]), args[2], args[3])
        if m == 'basic_string':
            if not params or params[0] == '' or params[0] == 'A const&':
                st.write(this, strlit(''))
            elif 'basic_string' in params[0]:
                v = self.getstr(E, st, args[1])
                if params[0].endswith('&&'):
                    st.write(args[1], strlit(''))
                st.write(this, v)
            elif params[0].startswith('char const*'):
                s = self.cstr(E, st, args[1])
                st.write(this, strlit(s) if s is not None else E.fresh('cs', STR))
            elif params[0].startswith('unsigned long'):
                st.write(this, E.fresh('cs', STR))
            else:
                return NotImplemented
            return self.ret(st)
        if m == '~basic_string':
            st.write(this, DEAD)
            return self.ret(st)
        if m in ('operator=', 'assign'):
            if 'basic_string' in params[0]:
                v = self.getstr(E, st, args[1])
                if params[0].endswith('&&') and not (args[1].rid == this.rid and args[1].path == this.path):
                    st.write(args[1], strlit(''))
            else:
                v = self.as_str(E, st, params[0], args[1])
            st.write(this, v)
            return self.ret(st, this)
        if m in ('operator+=', 'append'):
            v = self.concat(E, [self.getstr(E, st, this), self.as_str(E, st, params[0], args[1])])
            st.write(this, v)
            return self.ret(st, this)
        v = None
        if m in ('size', 'length', 'empty', 'operator[]', 'back', 'front', 'c_str', 'compare', 'substr', 'find', 'at', 'data'):
            v = self.getstr(E, st, this)
        if m in ('size', 'length', 'empty'):
            l = litof(v)
            if l is not None:
                n = len(l)
            else:
                n = E.uf('strlen', STR, I)(v)
                st.assume(z3.And(n >= 0, n < (1 << 60)))
            return self.ret(st, cmp_eq(n, 0) if m == 'empty' else n)
        if m == 'c_str' or m == 'data':
            return self.ret(st, Opaque('cstrp', v))
        if m in ('operator[]', 'back', 'front', 'at'):
            n = E.uf('strlen', STR, I)(v)
            l = litof(v)
            if l is not None:
                n = len(l)
            i = args[1] if m in ('operator[]', 'at') else (isub(n, 1) if m == 'back' else 0)
            E.oblig(st, band(cmp_le(0, i), cmp_le(i, n) if m == 'operator[]' else cmp_lt(i, n)), 'bounds', 'character index within the string')
            rid = st.new_region('char', 'const', 1)
            if l is not None and isint(i):
                c = ord(l[i]) if i < len(l) else 0
            else:
                c = E.uf('strch', STR, I, I)(v, ex(i))
                st.assume(z3.And(c >= 0, c < 256))
            st.wreg(rid).cells[0] = c
            return self.ret(st, Ptr(rid))
        return NotImplemented

    def strlen(self, E, st, v):
        l = litof(v)
        if l is not None:
            return len(l)
        n = E.uf('strlen', STR, I)(v)
        st.assume(z3.And(n >= 0, n < (1 << 60)))
        return n

    def substr(self, E, st, res, v, pos, cnt):
        n = self.strlen(E, st, v)
        l = litof(v)
        outs = []

        def go(t):
            rest = isub(n, pos)
            for c, k in ((cmp_le(rest, cnt), rest), (cmp_lt(cnt, rest), cnt)):
                if c is False or not t.feasible(c):
                    continue
                u = t.clone()
                u.assume(c)
                if l is not None and isint(pos) and isint(k):
                    r = strlit(l[pos:pos + k])
                elif isint(pos) and pos == 0 and k is rest:
                    r = v
                else:
                    r = E.uf('strsub', STR, I, I, STR)(v, ex(pos), ex(k))
                    u.assume(E.uf('strlen', STR, I)(r) == ex(k))
                u.write(res, r)
                outs.extend(self.ret(u))
        if pos == 0 or not st.feasible(cmp_lt(n, pos)):
            go(st)
            return outs
        t = st.clone()
        t.assume(cmp_lt(n, pos))
        outs.append(Out('throw', '_ZTISt12out_of_range', t))
        st.assume(cmp_le(pos, n))
        go(st)
        return outs

    # -------------------------------------------------------------- std::vector
    def vector(self, E, fr, st, q, params, targs, args, T, rt, name):
        m = q[2]
        if m in ('rbegin', 'rend', 'crbegin', 'crend'):
            return NotImplemented       # end() or begin() in a std::reverse_iterator: code
        this = args[0]
        if T == 'bool':
            return NotImplemented
        es = sz_of(E, T)
        p0 = params[0] if params else ''
        if m == 'vector':
            if not params or p0 == '' or p0 == 'A const&':
                st.write(this, empty_vec(E, T))
            elif p0.startswith('std::vector<'):
                v = self.getvec(E, st, args[1])
                if p0.endswith('&&'):
                    st.write(args[1], empty_vec(E, T))
                st.write(this, v)
            elif p0 == 'unsigned long':
                n = args[1]
                E.oblig(st, cmp_lt(n, 1 << 60), 'bounds', 'vector size below max_size')
                if len(params) >= 2 and params[1] != 'A const&':
                    x = elem_from(E, st, args[2], T)
                else:
                    x = self.default_elem(E, fr, st, T)
                st.write(this, const_vec(E, n, T, x))
            elif p0.startswith('std::initializer_list'):
                v = self.init_list(E, st, args[1], args[2], T)
                st.write(this, v)
            elif targs and len(args) >= 3:
                import sets
                v = sets.range_vec(E, st, args[1], args[2], T, es) if sets.is_iterator(args[1]) else self.range_vec(E, st, args[1], args[2], T)
                st.write(this, v)
            else:
                return NotImplemented
            return self.ret(st)
        if m == '~vector':
            st.write(this, DEAD)
            return self.ret(st)
        if m == 'operator=' or m == 'assign':
            if p0.startswith('std::vector<'):
                v = self.getvec(E, st, args[1])
                if st.read(this) is DEAD:
                    E.oblig(st, False, 'memory', 'assignment to a destroyed vector')
                same_obj = args[1].rid == this.rid and len(args[1].path) == len(this.path) and all(same(a, b) for a, b in zip(args[1].path, this.path))
                if p0.endswith('&&') and not same_obj:
                    st.write(args[1], empty_vec(E, T))
                st.write(this, v)
                return self.ret(st, this if rt == ('ptr',) else None)
            if p0.startswith('std::initializer_list'):
                st.write(this, self.init_list(E, st, args[1], args[2], T))
                return self.ret(st, this if rt == ('ptr',) else None)
            if m == 'assign' and p0 == 'unsigned long':
                x = elem_from(E, st, args[2], T)
                st.write(this, const_vec(E, args[1], T, x))
                return self.ret(st)
            if m == 'assign' and targs:
                st.write(this, self.range_vec(E, st, args[1], args[2], T))
                return self.ret(st)
            return NotImplemented
        v = self.getvec(E, st, this) if m in ('size', 'empty', 'operator[]', 'at', 'begin', 'end', 'cbegin', 'cend', 'push_back',
                                              'emplace_back', 'back', 'front', 'reserve', 'capacity', 'resize', 'clear', 'data',
                                              'insert', 'pop_back', 'swap', 'erase', 'shrink_to_fit', 'max_size', 'rbegin', 'rend') else None
        if m == 'size':
            return self.ret(st, v.n)
        if m == 'empty':
            return self.ret(st, cmp_eq(v.n, 0))
        if m == 'operator[]':
            i = args[1]
            E.oblig(st, band(cmp_le(0, i), cmp_lt(i, v.n)), 'bounds', 'vector index below size()')
            return self.ret(st, this.elem(i))
        if m == 'at':
            i = args[1]
            o = []
            s2 = st.clone()
            ok = cmp_lt(i, v.n)
            if s2.feasible(bnot(ok)):
                s2.assume(bnot(ok), 'br')
                o.append(Out('throw', '_ZTISt12out_of_range', s2))
            if st.feasible(ok):
                st.assume(ok, 'br')
                o.append(Out('ret', this.elem(i), st))
            return o
        if m in ('begin', 'cbegin', 'data'):
            return self.ret(st, this.elem(0))
        if m in ('end', 'cend'):
            return self.ret(st, this.elem(v.n))
        if m in ('push_back', 'emplace_back'):
            if m == 'emplace_back' and not is_scalar(T) and p0.rstrip('&').replace(' const', '').strip() != T:
                return self.emplace(E, fr, st, this, T, targs, args, rt, es)
            if m == 'emplace_back' and len(params) != 1:
                return NotImplemented
            pt = p0.rstrip('&').replace(' const', '').strip()
            if m == 'push_back' or pt == T:
                x = elem_from(E, st, args[1], T)
                if p0.endswith('&&') and not is_scalar(T):
                    self.moved_from(E, st, args[1], T)
            else:
                return NotImplemented
            v = self.getvec(E, st, this)
            n = v.n
            st.write(this, Vec(iadd(n, 1), Arr(parent=v.arr, lo=n, n=1, lf=lambda rel: x), T, es))
            return self.ret(st, this.elem(n) if rt == ('ptr',) else None)
        if m in ('back', 'front'):
            E.oblig(st, cmp_lt(0, v.n), 'bounds', '%s() of an empty vector' % m)
            return self.ret(st, this.elem(isub(v.n, 1) if m == 'back' else 0))
        if m in ('reserve', 'shrink_to_fit'):
            return self.ret(st)
        if m == 'clear':
            st.write(this, Vec(0, v.arr, T, es))
            return self.ret(st)
        if m == 'pop_back':
            E.oblig(st, cmp_lt(0, v.n), 'bounds', 'pop_back() of an empty vector')
            st.write(this, Vec(isub(v.n, 1), v.arr, T, es))
            return self.ret(st)
        if m == 'resize':
            n = args[1]
            x = elem_from(E, st, args[2], T) if len(params) > 1 else self.default_elem(E, fr, st, T)
            d = isub(n, v.n)
            old = v.n
            pos = cmp_le(0, d)
            arr = Arr(fn=lambda m2, a=v.arr: ite(unint(cmp_lt(m2, old)), at(a, m2), x))
            st.write(this, Vec(n, arr, T, es))
            return self.ret(st)
        if m == 'insert':
            if len(args) == 4 and targs:
                pos, p, q2 = args[1:4]
                rv = self.range_vec(E, st, p, q2, T)
                lo = pos.path[-2]
                if same(lo, v.n) or st.prove(cmp_eq(lo, v.n)):
                    ra = rv.arr
                    st.write(this, Vec(iadd(v.n, rv.n), Arr(parent=v.arr, lo=v.n, n=rv.n, lf=lambda rel: at(ra, rel)), T, es))
                    return self.ret(st, this.elem(v.n))
            raise Fail('vector::insert in the middle')
        if m == 'swap':
            w = self.getvec(E, st, args[1])
            st.write(this, w)
            st.write(args[1], v)
            return self.ret(st)
        return NotImplemented

    def emplace(self, E, fr, st, this, T, targs, args, rt, es):
        """emplace_back: the element is made by its own constructor (code), in a place of its own"""
        head = 'void std::allocator_traits<A>::construct<%s%s>(' % (T, ', ' + targs if targs else '')
        fns = [n for n in E.prog.find(r'allocator_traits<.*>::construct<') if E.prog.dem[n].startswith(head)]
        if len(fns) != 1:
            raise Fail('emplace_back of ' + T)
        p = Ptr(st.new_region('emplaced', 'stack', sz_of(E, T)))
        out = []
        for o in E.call_name(fr, st, fns[0], [Ptr(None), p] + list(args[1:]), ('void',)):
            if o.kind == 'ret':
                x = elem_from(E, o.st, p, T)
                v = self.getvec(E, o.st, this)
                o.st.write(this, Vec(iadd(v.n, 1), Arr(parent=v.arr, lo=v.n, n=1, lf=lambda rel, x=x: x), T, es))
                o = Out('ret', this.elem(v.n) if rt == ('ptr',) else None, o.st)
            out.append(o)
        return out

    def moved_from(self, E, st, p, T):
        if T.startswith('std::vector<'):
            st.write(p, empty_vec(E, elemtype(T)))
        elif T.startswith('std::basic_string'):
            st.write(p, strlit(''))
        # df::Serie has no move constructor (user-declared copy): source unchanged

    def default_elem(self, E, fr, st, T):
        if is_scalar(T) or T.startswith('std::vector<') or T.startswith('std::basic_string'):
            return zero_elem(E, T)
        # run the default constructor on a scratch object
        d = E.defctor.get(T) if hasattr(E, 'defctor') else None
        if d is not None:
            return d(E, st)
        raise Fail('default construction of ' + T)

    def init_list(self, E, st, p, n, T):
        es = sz_of(E, T)
        if isinstance(p, Ptr) and (len(p.path) >= 3 or isint(n)):
            if isint(n) and n == 0:
                return empty_vec(E, T)
            return self.range_vec(E, st, p, E.padd(st, p, n, es), T)
        raise Fail('initializer_list')


def split_iter(targs):
    """container type of the first __normal_iterator template argument"""
    k = targs.index('__normal_iterator<')
    inner = targs[k + len('__normal_iterator<'):]
    d = 1
    j = 0
    for j, c in enumerate(inner):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
            if d == 0:
                break
    return split_top(inner[:j], ',')[1].strip()


def list_fn(els):
    def f(k, st=None):
        if isint(k):
            return els[k] if 0 <= k < len(els) else els[-1]
        r = els[-1]
        for i in range(len(els) - 2, -1, -1):
            r = ite(cmp_eq(k, i), els[i], r)
        return r
    return f
