"""Loop rule: recurrence solving + induction check.

A loop is cut at its header.  With a ghost iteration counter t, every memory cell the body modifies is
given a closed form in t (discovered from a havocked run of the body).  The closed forms are the loop
invariant; base case and preservation are proved for an arbitrary t, and only then is the state after
the loop built from them.  A cell whose closed form cannot be proved is havocked."""
import z3
from core import *
from execu import Out, Edge

INTS = (int, z3.ArithRef)


# ------------------------------------------------------------------ unrolling
def handle_loop(E, fr, header, prev, env, st):
    body = fr.fn.find_loops()[header]
    n0 = len(E.obligs)
    if E.cutter is not None:
        r = E.cutter.at_loop(fr, header, prev, env, st, body)
        if r is not None:
            return r
    r = unroll(E, fr, header, prev, env, st, body)
    if r is not None:
        return r
    if E.cutter is not None and E.cutter.phase is not None:
        raise Fail('a loop inside a loop that is cut')      # what was seen there is not covered
    del E.obligs[n0:]
    return Summary(E, fr, header, prev, env, st, body).run()


def cpenv(env):
    e = dict(env)
    e['#allocas'] = list(env.get('#allocas', ()))
    return e


def unroll(E, fr, header, prev, env, st, body):
    # the blocks that evaluate the loop condition: undecided there means a symbolic number of iterations
    chain = {header}
    b = header
    while True:
        tm = fr.fn.block(b)[-1]
        if tm.op == 'invoke':
            b = tm.a['nrm']
        elif tm.op == 'br' and len(fr.fn.succs(b)) == 1:
            b = fr.fn.succs(b)[0]
        else:
            break
        if b not in body or b in chain:
            break
        chain.add(b)
    work = [(prev, cpenv(env), st.clone(), 0)]
    if E.cutter is not None:
        r = E.cutter.arrive(fr, header, *work[0][1:3])
        if r is None:
            return []
        work = [(prev, r[0], r[1], 0)]
    done = []
    steps = 0
    while work:
        prv, en, s, k = work.pop()
        steps += 1
        if k > E.unroll or steps > 80:
            return None
        try:
            res = E.run_blocks(fr, header, prv, en, s, within=body, header=header)
        except Fail:
            if k == 0 and not done and not work:
                raise
            return None
        backs = [o for o in res if isinstance(o, Edge) and o.to == header]
        other = [o for o in res if not (isinstance(o, Edge) and o.to == header)]
        if backs and any(isinstance(o, Edge) and o.frm in chain and not any(i.op == 'landingpad' for i in fr.fn.block(o.to)) for o in other):
            return None
        if len(backs) + len(work) > 12:
            return None
        done.extend(other)
        for b in backs:
            en, s = b.env, b.st
            if E.cutter is not None:
                r = E.cutter.arrive(fr, header, en, s)
                if r is None:
                    continue
                en, s = r
            work.append((b.frm, en, s, k + 1))
    return done


# ------------------------------------------------------------------ components of cell values
def comps(v):
    """{sub: component} or None when the value has no components (compared by identity)"""
    if isinstance(v, Vec):
        return {'n': v.n, 'arr': v.arr}
    if isinstance(v, Ptr):
        return {('p', i): x for i, x in enumerate(v.path)}
    if isinstance(v, (bool, int)) or isinstance(v, z3.ExprRef):
        return {'': v}
    return None


def rebuild(v, new):
    if isinstance(v, Vec):
        if 'V' in new:
            t = new['V']
            return None
        return Vec(new.get('n', v.n), new.get('arr', v.arr), v.ety, v.es)
    if isinstance(v, Ptr):
        return Ptr(v.rid, tuple(new.get(('p', i), x) for i, x in enumerate(v.path)))
    return new.get('', v)


def same_comp(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return a is b
    return same(a, b)


def decls_of(e, memo={}):
    """names of all uninterpreted symbols of an expression"""
    k = e.get_id()
    c = memo.get(k)
    if c is not None:
        return c[1]
    out = set()
    vis = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in vis:
            continue
        vis.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    memo[k] = (e, out)
    return out


def symbols(v):
    if isinstance(v, z3.ExprRef):
        return decls_of(v)
    return set()


def val_symbols(E, v):
    if isinstance(v, z3.ExprRef):
        return decls_of(v)
    if isinstance(v, Rec):
        r = set()
        for x in v.f.values():
            r |= val_symbols(E, x)
        return r
    if isinstance(v, Vec):
        m = z3.Int('m!probe')
        return val_symbols(E, v.n if not isint(v.n) else 0) | val_symbols(E, at(v.arr, m))
    if isinstance(v, Ptr):
        r = set()
        for x in v.path:
            r |= val_symbols(E, x)
        return r
    return set()


def fresh_no(name):
    i = name.rfind('!')
    if i < 0:
        return -1
    try:
        return int(name[i + 1:])
    except ValueError:
        return -1


def replace(v, fn):
    """apply an expression transformer everywhere in a value"""
    if isinstance(v, z3.ExprRef):
        return fn(v)
    if isinstance(v, Rec):
        return Rec({k: replace(x, fn) for k, x in v.f.items()})
    if isinstance(v, Vec):
        a = v.arr
        return Vec(replace(v.n, fn), Arr(fn=lambda m: replace(at(a, m), fn), stride=a.stride), v.ety, v.es)
    if isinstance(v, Ptr):
        return Ptr(v.rid, tuple(replace(x, fn) for x in v.path))
    return v


def reapply(d, ch):
    k = d.kind()
    return z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else z3.Sum(*ch) if k == z3.Z3_OP_ADD else d(*ch)


def rewrite_apps(e, decls, f, memo=None):
    """replace applications of the given declarations: f(app with rewritten args)"""
    memo = {} if memo is None else memo

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_quantifier(x) or not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(y) for y in x.children()]
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in decls:
                r = f(d, ch)
            elif all(p.eq(q) for p, q in zip(ch, x.children())):
                r = x
            else:
                r = reapply(d, ch)
        memo[k] = r
        return r
    return go(e)


def at_index(e, decls, lo, m, new):
    """e with the reads of the old content at index lo replaced, where m is that index: also those at an index y
    in the branch of a condition lo == y"""
    def read(ys):
        return lambda d, ch: new if len(ch) == 1 and any(ch[0].eq(ex(y)) or same(unint(ch[0]), y) for y in ys) else d(*ch)

    def indices(e):
        out = []
        rewrite_apps(e, decls, lambda d, ch: (out.append(ch[0]) if len(ch) == 1 else None, d(*ch))[1])
        return out

    def go(e, ys):
        if not z3.is_app(e):
            return e
        if e.decl().kind() == z3.Z3_OP_ITE:
            c = e.arg(0)
            for y in indices(e.arg(1)):
                y = unint(y)
                if any(isinstance(q, z3.ExprRef) and c.eq(q) for x in ys for q in (cmp_eq(x, y), cmp_eq(y, x))):
                    return z3.If(ex(cmp_eq(isub(m, y), 0)), go(e.arg(1), ys + [y]), go(e.arg(2), ys))
            return z3.If(go(c, ys), go(e.arg(1), ys), go(e.arg(2), ys))
        if e.num_args() == 0:
            return e
        ch = [go(x, ys) for x in e.children()]
        if e.decl().name() in decls:
            return read(ys)(e.decl(), ch)
        return reapply(e.decl(), ch)
    return go(e, [lo])


def subst_state(E, st, env, pairs):
    """in-place substitution of constants by terms throughout a state"""
    ids = {a.decl().name() for a, _ in pairs}
    def one(c):
        if not (ids & decls_of(c)):
            return c
        q = E.alls.get(c.get_id())
        if q is not None:
            return E.forall([q[1]], renorm_b(z3.substitute(q[2], *pairs)))
        return renorm_b(z3.substitute(c, *pairs))
    st.pc = [(k, one(c)) for k, c in st.pc]
    for rid in list(st.regs):
        r = st.regs[rid]
        ch = {}
        for o, v in r.cells.items():
            w = subst(v, pairs) if not isinstance(v, Vec) else subst_vec(v, pairs)
            if w is not v:
                ch[o] = w
        if ch:
            st.wreg(rid).cells.update(ch)
    for k in list(env):
        if k == '#allocas':
            continue
        v = env[k]
        if isinstance(v, (z3.ExprRef, Ptr)):
            env[k] = subst(v, pairs)
        elif isinstance(v, Agg):
            env[k] = Agg([subst(x, pairs) if isinstance(x, (z3.ExprRef, Ptr)) else x for x in v.vals])


def subst_vec(v, pairs):
    n, arr = subst(v.n, pairs), subst_arr_lazy(v.arr, pairs)
    return v if n is v.n and arr is v.arr else Vec(n, arr, v.ety, v.es)


_PROBE = z3.Int('m!probe')


def arr_symbols(a):
    """symbols of an array's content (by a probe index)"""
    c = a.cache.get('#symbols')
    if c is None:
        if a.fn is not None:
            c = probe_symbols(a.fn)
        else:
            c = symbols(a.lo) | symbols(a.n) | probe_symbols(a.lf) | arr_symbols(a.parent)
        a.cache['#symbols'] = c
    return c


def probe_symbols(fn):
    v = fn(_PROBE)
    return deep_symbols(v)


def deep_symbols(v):
    if isinstance(v, z3.ExprRef):
        return decls_of(v)
    if isinstance(v, Rec):
        r = set()
        for x in v.f.values():
            r |= deep_symbols(x)
        return r
    if isinstance(v, Vec):
        return symbols(v.n) | arr_symbols(v.arr)
    if isinstance(v, Ptr):
        r = set()
        for x in v.path:
            r |= symbols(x)
        return r
    return set()


def subst_arr_lazy(a, pairs):
    names = {p.decl().name() for p, _ in pairs}

    def go(a):
        try:
            if not (arr_symbols(a) & names):
                return a
        except Fail:
            return subst_arr(a, pairs)
        if a.fn is not None:
            return subst_arr(a, pairs)
        b = subst_arr(Arr(parent=a.parent, lo=a.lo, n=a.n, lf=a.lf, stride=a.stride), pairs)
        return Arr(parent=go(a.parent), lo=b.lo, n=b.n, lf=b.lf, stride=b.stride) if b.fn is None else b
    return go(a)


def renorm_b(e):
    r = renorm(e)
    return ex(r)


# ------------------------------------------------------------------ linear atoms of branch conditions
def plain(e):
    """a condition on whole numbers only"""
    if z3.is_app(e) and e.num_args():
        return (e.decl().kind() != z3.Z3_OP_UNINTERPRETED or e.decl().name() in ('MUL', 'DV', 'MD')) and all(plain(x) for x in e.children())
    return z3.is_int(e) or z3.is_bool(e)


def norm_cond(c):
    """(kind, expr) with kind in lt0, le0, eq0, ne0  or None"""
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.children()[0]
    if not z3.is_app(c) or c.num_args() != 2 or not z3.is_int(c.arg(0)):
        return None
    k = c.decl().kind()
    d = isub(unint(c.arg(0)), unint(c.arg(1)))
    if k == z3.Z3_OP_LT:
        return ('le0', iscale(d, -1)) if neg else ('lt0', d)
    if k == z3.Z3_OP_LE:
        return ('lt0', iscale(d, -1)) if neg else ('le0', d)
    if k == z3.Z3_OP_GT:
        return ('le0', d) if neg else ('lt0', iscale(d, -1))
    if k == z3.Z3_OP_GE:
        return ('lt0', d) if neg else ('le0', iscale(d, -1))
    if k == z3.Z3_OP_EQ:
        return ('ne0', d) if neg else ('eq0', d)
    return None


def coef(e, t):
    """(coefficient of t as int, rest) when e = c*t + rest with rest free of t"""
    if isint(e):
        return 0, e
    d, con = lin(e)
    c = 0
    rest = {}
    for i, (a, co) in d.items():
        if a.eq(t):
            c = co
        else:
            if t.decl().name() in decls_of(a):
                return None
            rest[i] = (a, co)
    return c, unlin(rest, con)


def tcoef(e, t):
    """(stride, rest): e = t*stride + rest, stride may be symbolic (through MUL)"""
    if isint(e):
        return 0, e
    d, con = lin(e)
    s = 0
    rest = {}
    tn = t.decl().name()
    for i, (a, co) in d.items():
        if a.eq(t):
            s = iadd(s, co)
        elif z3.is_app(a) and a.decl().eq(MUL) and (a.arg(0).eq(t) or a.arg(1).eq(t)):
            o = a.arg(1) if a.arg(0).eq(t) else a.arg(0)
            if tn in decls_of(o):
                return None
            s = iadd(s, iscale(o, co))
        elif tn in decls_of(a):
            return None
        else:
            rest[i] = (a, co)
    return s, unlin(rest, con)


def flat_and(c):
    if z3.is_and(c):
        r = []
        for x in c.children():
            r.extend(flat_and(x))
        return r
    if z3.is_not(c) and z3.is_or(c.children()[0]):
        r = []
        for x in c.children()[0].children():
            r.extend(flat_and(ex(bnot(x))))
        return r
    return [c]


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


class NeedPeel(Exception):
    """the first iteration differs from the others"""


class NeedPhase(Exception):
    """the body behaves differently before and after this number of iterations"""

    def __init__(self, n):
        self.n = n


def eqv(a, b):
    if isinstance(a, (int, bool, z3.ExprRef)) and isinstance(b, (int, bool, z3.ExprRef)):
        return same(a, b)
    return a is b


def threshold_sum(d, t, nonneg):
    """the sum of d(0) .. d(n-1) where d takes one value before some iteration and another from there on"""
    tn = t.decl().name()
    es, con = lin(d) if not isint(d) else ({}, d)
    steady, parts = con, []
    for x, co in es.values():
        if tn not in symbols(x):
            steady = iadd(steady, iscale(x, co))
            continue
        if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE):
            return None
        a, b = unint(x.arg(1)), unint(x.arg(2))
        if tn in symbols(a) | symbols(b):
            return None
        nc = norm_cond(x.arg(0))
        q = coef(nc[1], t) if nc is not None else None
        if q is None or q[0] not in (1, -1) or nc[0] not in ('lt0', 'le0') or tn in symbols(q[1]):
            return None
        s, r = q
        if s == 1:
            thr = iadd(iscale(r, -1), 1 if nc[0] == 'le0' else 0)
        else:
            thr = iadd(r, 1 if nc[0] == 'lt0' else 0)
            a, b = b, a
        parts.append((thr, iscale(isub(a, b), co)))
        steady = iadd(steady, iscale(b, co))
    if not parts:
        return None

    def total(n):
        r = imul(n, steady)
        for thr, c in parts:
            if not nonneg(thr):
                thr = ite(cmp_lt(thr, 0), 0, thr)
            r = iadd(r, imul(ite(cmp_lt(n, thr), n, thr), c))
        return r
    return total


def merge_paths(paths):
    """paths: [(conds, value)] of one decision tree -> merged value"""
    v0 = paths[0][1]
    if all(eqv(v0, v) for _, v in paths[1:]):
        return v0
    conds = [list(c) for c, _ in paths]
    while all(c for c in conds) and all(c[0].eq(conds[0][0]) for c in conds):
        for c in conds:
            c.pop(0)
    if any(not c for c in conds):
        raise Fail('cannot merge paths')
    c0 = conds[0][0]
    A = [(c, v) for c, (_, v) in zip(conds, paths) if c[0].eq(c0)]
    B = [(c, v) for c, (_, v) in zip(conds, paths) if not c[0].eq(c0)]
    nc = ex(bnot(c0))
    if all(c[0].eq(nc) for c, _ in B):
        return ite(c0, merge_paths([(c[1:], v) for c, v in A]), merge_paths([(c[1:], v) for c, v in B]))
    # e.g. conjunctions split differently: guard with the whole path condition
    cs, v = conds[0], v0
    rest = [(c, v2) for c, (_, v2) in list(zip(conds, paths))[1:]]
    return ite(band(*cs), v, merge_paths(rest) if len(rest) > 1 else rest[0][1])



class Summary:
    def __init__(self, E, fr, header, prev, env, st, body, limit=None):
        self.limit = limit      # this many iterations only, then the loop is entered anew
        self.E = E
        self.fr = fr
        self.header = header
        self.prev = prev
        self.env = env
        self.st = st
        self.body = body
        self.killed = set()
        self.killreg = set()
        self.failed = set()
        self.solved = {}
        self.havocs = {}        # content as assumed at the start of an iteration
        self.unsolved = {}      # ckey -> havoc symbol/Arr
        self.modeV = set()
        self.bad_bounds = set()
        self.splits = 0

    # -------------------------------------------------------------- running
    def run(self, depth=0):
        E = self.E
        self.depth = depth
        n0 = len(E.obligs)
        try:
            return self.run1()
        except NeedSplit as e:
            c = e.c
        except NeedPeel:
            del E.obligs[n0:]
            if depth > 6 or E.cutter is not None:
                raise Fail('first iteration of a loop')
            backs, out = self.back_edges(cpenv(self.env), self.st.clone())
            for b in backs:
                out.extend(handle_loop2(E, self.fr, self.header, b.frm, b.env, b.st, self.body, depth + 1))
            return out
        except NeedPhase as e:
            del E.obligs[n0:]
            c = None
            for q in [cmp_lt(0, e.n)] + ([cmp_lt(e.n, self.limit)] if self.limit is not None else []):
                if self.st.prove(bnot(q)):
                    raise Fail('phase of a loop')
                if not self.st.prove(q):
                    c = q
                    break
            if c is None:
                if depth > 6:
                    raise Fail('too many phases of a loop')
                return Summary(E, self.fr, self.header, self.prev, cpenv(self.env), self.st, self.body, e.n).run(depth + 1)
        del E.obligs[n0:]
        if depth > 6:
            raise Fail('too many case splits before a loop')
        out = []
        for c in (c, bnot(c)):
            s = self.st.clone()
            s.assume(c, 'br')
            if not s.feasible():
                continue
            out.extend(handle_loop2(E, self.fr, self.header, self.prev, cpenv(self.env), s, self.body, depth + 1, self.limit))
        return out

    def back_edges(self, env, st):
        self.E.loopnest += 1
        try:
            res = self.E.run_blocks(self.fr, self.header, self.prev, env, st, within=self.body, header=self.header)
        finally:
            self.E.loopnest -= 1
        backs = [o for o in res if isinstance(o, Edge) and o.to == self.header]
        other = [o for o in res if not (isinstance(o, Edge) and o.to == self.header)]
        last = [b for b in backs if len(backs) > 1 and self.flagged(st, b.st)]
        for b in last:      # a flag was set: when the loop stops there, it is a way out like any other
            self.E.loopnest += 1
            n0 = len(self.E.obligs)
            try:
                res = self.E.run_blocks(self.fr, self.header, b.frm, cpenv(b.env), b.st.clone(), within=self.body, header=self.header)
            except Fail:
                res = None
            finally:
                self.E.loopnest -= 1
            if res is None or any(isinstance(o, Edge) and o.to == self.header for o in res):
                del self.E.obligs[n0:]
                continue
            backs = [o for o in backs if o is not b]
            other.extend(res)
        return backs, other

    def flagged(self, before, after):
        for rid, w in before.regs.items():
            x = after.regs.get(rid)
            if x is None or x is w:
                continue
            for off, v in w.cells.items():
                n = x.cells.get(off)
                if self.E.cellw.get((rid, off), 64) <= 8 and isinstance(v, (int, bool)) and isinstance(n, (int, bool)) and v != n:
                    return True
        return False

    def shape(self, key):
        rid, off, sub = key
        return self.st.regs[rid].cells[off]

    def init(self, key):
        rid, off, sub = key
        v = self.st.regs[rid].cells[off]
        if sub == 'V':
            if key not in self.initV:
                self.initV[key] = self.E.reify(self.st, v)
            return self.initV[key]
        return comps(v)[sub]

    def build(self, assign):
        """header state with the given component values"""
        st = self.st.clone()
        by = {}
        for (rid, off, sub), v in assign.items():
            by.setdefault((rid, off), {})[sub] = v
        for (rid, off), new in by.items():
            w = st.wreg(rid)
            old = w.cells[off]
            if 'V' in new:
                t = new['V']
                w.cells[off] = self.E.vec_of(t)
            else:
                w.cells[off] = rebuild(old, new)
        for rid, off in self.killed:
            if rid in st.regs and off in st.regs[rid].cells:
                del st.wreg(rid).cells[off]
        for rid in self.killreg:
            if rid in st.regs:
                st.wreg(rid).dead = True
        return st

    def same_pointers(self, key, sample):
        """fields that are pointers hold the same pointer in any element before the loop as in one it writes"""
        def check(x, y):
            if isinstance(x, Ptr) and not (isinstance(y, Rec) and not y.f):
                if not isinstance(y, Ptr) or y.rid != x.rid or len(x.path) != len(y.path) or any(isint(p) and not (isint(q) and p == q) for p, q in zip(x.path, y.path)):
                    raise Fail('elements with different pointers')
            if isinstance(x, Rec) and isinstance(y, Rec) and y.f:
                for k in x.f:
                    check(x.f[k], y.f.get(k))
        check(sample, at(self.init(key), z3.Int('m!probe')))

    def havoc_arr(self, key, sample):
        """leaf with unknown content shaped like `sample`"""
        E = self.E

        def mk(v, sorts, path):
            if isinstance(v, Rec):
                f = {k: mk(x, sorts, path + '_%s' % k) for k, x in v.f.items()}
                return lambda ix: Rec({k: g(ix) for k, g in f.items()})
            if isinstance(v, Vec):
                gn = mk(v.n, sorts, path + 'n')
                ga = mk(at(v.arr, z3.Int('m!probe')), sorts + [I], path + 'a')
                ety, es = v.ety, v.es
                return lambda ix: Vec(gn(ix), Arr(fn=lambda m: ga(ix + [ex(m)])), ety, es)
            if isinstance(v, Opaque) or v is DEAD:
                return lambda ix: v
            if isinstance(v, (bool, int, z3.ExprRef)):
                S = ex(v).sort()
                E._fresh += 1
                nm = 'h!%d' % E._fresh
                fn = z3.Function(nm, *(sorts + [S]))
                self.hdecls.setdefault(key, set()).add(nm)
                return lambda ix: fn(*ix)
            if isinstance(v, Ptr):      # to the same object in all of the elements, before and after, at any index
                gs = [(lambda ix, x=x: x) if isint(x) else mk(x, sorts, path + 'p%d' % i) for i, x in enumerate(v.path)]
                return lambda ix: Ptr(v.rid, tuple(g(ix) for g in gs))
            raise Fail('havoc of element %r' % (v,))
        self.same_pointers(key, sample)
        g = mk(sample, [I], '')
        return Arr(fn=lambda m: g([ex(m)]))

    def havoc_for(self, key, newvals):
        E = self.E
        rid, off, sub = key
        i = self.init(key)
        if sub == 'arr':
            v = self.shape(key)
            sample = None
            for nv in newvals:
                a = nv
                while a is not None and a.fn is None:
                    try:
                        sample = a.lf(0)
                        break
                    except Fail:
                        a = a.parent
                if sample is not None:
                    break
            if sample is None or (isinstance(sample, Rec) and not sample.f):
                sample = at(i, z3.Int('m!probe'))
            for nv in newvals:
                if isinstance(sample, Rec) and not sample.f:
                    sample = at(nv, z3.Int('m!probe'))
            if isinstance(sample, Rec) and not sample.f:
                raise Fail('elements of unknown content')
            return self.havoc_arr(key, sample)
        s = ex(i).sort()
        for nv in newvals:
            if not ex(nv).sort().eq(s):
                return None
        x = E.fresh('x', s)
        return x

    def type_facts(self, st, key, x):
        if isinstance(x, z3.ExprRef) and z3.is_int(x):
            rid, off, sub = key
            if sub == '':
                w = self.E.cellw.get((rid, off))
                st.assume(x >= 0)
                if w:
                    st.assume(cmp_lt(x, 1 << w))
            elif sub == 'n':
                st.assume(z3.And(x >= 0, x < (1 << 60)))

    def run1(self):
        E = self.E
        self.initV = {}
        self.hdecls = {}
        self.t = t = E.fresh('t')
        self.solved = {}
        self.unsolved = {}
        self.weak = set()       # arrays described element by element only
        self.mark0 = E._fresh
        rounds = 0
        stale = 0
        while True:
            rounds += 1
            if rounds > 30:
                raise Fail('loop analysis does not converge')
            assign = {}
            for k, c in self.solved.items():
                assign[k] = c(t)
            for k, h in self.unsolved.items():
                assign[k] = h
            H = self.build(assign)
            H.assume(t >= 0)
            self.limited(H)
            for k, h in self.unsolved.items():
                self.type_facts(H, k, h)
            base_len = len(H.pc)
            self.mark = E._fresh
            E.quiet += 1
            E.optim += 1
            try:
                backs, other = self.back_edges(cpenv(self.env), H.clone())
            finally:
                E.quiet -= 1
                E.optim -= 1
            if not backs:
                break
            if self.collect(H, backs):
                stale = 0
                continue
            todo = {k: v for k, v in self.unsolved.items() if k not in self.failed}
            if not todo:
                break
            if self.solve(H, backs, base_len, todo):
                stale = 0
                continue
            break
        if backs:
            self.check_splits(H, backs, base_len)
            self.check_phases(H, backs, base_len)
        if E.optim and backs:
            # discovery only (nothing is concluded here): take the bounds of the exit condition for granted
            cands = []
            for e, up, s in self.bounds(backs, base_len):
                e0 = renorm(z3.substitute(ex(e), (t, z3.IntVal(0))))
                if self.st.prove(cmp_le(e0, up)):
                    cands.append((e, up, s))
            if cands:
                for o in other:
                    for e, up, s in cands:
                        o.st.assume(cmp_le(e, up))
            return self.finish(backs, other, base_len, H, False, cands)
        return self.verify()

    # -------------------------------------------------------------- modified components
    def collect(self, H, backs):
        """add newly modified components; True when the set grew"""
        grew = False
        newc = {}
        for b in backs:
            for rid in self.st.regs:
                if rid in self.killreg:
                    continue
                hr = H.regs.get(rid)
                br = b.st.regs.get(rid)
                if hr is None or hr.kind == 'opaque':
                    continue
                if br is hr:
                    continue
                if br is None or (br.dead and not hr.dead):
                    self.killreg.add(rid)
                    grew = True
                    continue
                for off, hv in hr.cells.items():
                    if (rid, off) in self.killed:
                        continue
                    bv = br.cells.get(off)
                    if bv is hv:
                        continue
                    if bv is None:
                        self.killed.add((rid, off))
                        grew = True
                        continue
                    hc, bc = comps(hv), comps(bv)
                    ok = hc is not None and bc is not None and set(hc) == set(bc) and type(hv) is type(bv) or \
                        (hc is not None and bc is not None and set(hc) == {''} == set(bc))
                    if ok and isinstance(hv, Ptr) and hv.rid != bv.rid:
                        ok = False
                    if ok and set(hc) == {''} and not ex(hc['']).sort().eq(ex(bc['']).sort()):
                        ok = False
                    if not ok:
                        if isinstance(hv, Opaque) and isinstance(bv, Opaque):
                            continue
                        self.killed.add((rid, off))
                        self.unsolved = {k: v for k, v in self.unsolved.items() if k[:2] != (rid, off)}
                        self.solved = {k: v for k, v in self.solved.items() if k[:2] != (rid, off)}
                        grew = True
                        continue
                    if (rid, off, 'V') in self.unsolved or (rid, off, 'V') in self.solved:
                        continue
                    if isinstance(bv, Vec) and hv.ety == 'double' and bv.arr is not hv.arr and bv.arr.fn is not None \
                            and (rid, off) not in self.modeV and bv.arr.tag is not None:
                        self.modeV.add((rid, off))
                        self.unsolved = {k: v for k, v in self.unsolved.items() if k[:2] != (rid, off)}
                        self.solved = {k: v for k, v in self.solved.items() if k[:2] != (rid, off)}
                        key = (rid, off, 'V')
                        self.unsolved[key] = self.E.fresh('x', V)
                        self.init(key)
                        grew = True
                        continue
                    for s in hc:
                        key = (rid, off, s)
                        if key in self.unsolved or key in self.solved:
                            continue
                        if not same_comp(hc[s], bc[s]):
                            newc.setdefault(key, []).append(bc[s])
        for key, vals in newc.items():
            if key[:2] in self.killed or key[:2] in self.modeV:
                continue
            h = self.havoc_for(key, vals)
            if h is None:
                self.killed.add(key[:2])
            else:
                self.unsolved[key] = h
                self.havocs[key] = h
            grew = True
        return grew

    # -------------------------------------------------------------- solving
    def brconds(self, b, base_len):
        out = []
        for k, c in b.st.pc[base_len:]:
            if k == 'br':
                out.extend(flat_and(c))
        return out

    def comp_of(self, b, key):
        rid, off, sub = key
        v = b.st.regs[rid].cells[off]
        if sub == 'V':
            return self.E.reify(b.st, v)
        return comps(v)[sub]

    def free_of_unknowns(self, names, own=()):
        for n in names:
            if n in own:
                continue
            if n in self.unk:
                return False
            if fresh_no(n) > self.mark:
                return False
        return True

    def solve(self, H, backs, base_len, todo):
        E = self.E
        t = self.t
        self.unk = set()
        for k, h in self.unsolved.items():
            if isinstance(h, Arr):
                self.unk |= self.hdecls.get(k, set())
            else:
                self.unk.add(h.decl().name())
        paths = [(self.brconds(b, base_len), b) for b in backs]
        # even steps first: what they make infeasible need not be described
        even = False
        for key, h in list(todo.items()):
            if key[2] != 'arr' and z3.is_int(h):
                c = self.solve_scalar(H, key, h, paths, True)
                if c is not None:
                    self.solved[key] = c
                    del self.unsolved[key]
                    even = True
        if even:
            return True
        progress = False
        for key, h in list(todo.items()):
            if key[2] == 'arr':
                # the length first
                if (key[0], key[1], 'n') in self.unsolved and (key[0], key[1], 'n') not in self.failed:
                    continue
                c = self.solve_arr(H, key, h, paths)
            else:
                c = self.solve_scalar(H, key, h, paths)
            if c is not None:
                self.solved[key] = c
                del self.unsolved[key]
                progress = True
        return progress

    def merge(self, paths):
        return merge_paths(paths)

    def eqv(self, a, b):
        return eqv(a, b)


    def to_k(self, e):
        return z3.substitute(ex(e), (self.t, foldK)) if isinstance(e, z3.ExprRef) else ex(e)

    def solve_scalar(self, H, key, x, paths, even=False):
        E = self.E
        t = self.t
        i0 = self.init(key)
        own = {x.decl().name()}
        vals = [(c, self.comp_of(b, key)) for c, b in paths]
        if z3.is_int(x):
            # increments, using the equalities of the path to remove t where possible
            ds = []
            for c, v in vals:
                d = isub(v, x)
                d = self.use_eqs(d, c)
                ds.append((c, d))
            try:
                d = self.merge(ds)
            except Fail:
                return None
            names = symbols(d)
            if not (names & own) and self.free_of_unknowns(names):
                if t.decl().name() not in names:
                    return lambda n: iadd(i0, imul(n, d))
                if even:
                    return None
                f = threshold_sum(d, t, lambda x: self.st.prove(cmp_le(0, x)))
                if f is not None:
                    return lambda n: iadd(i0, f(n))
                r = self.rank_form(d)
                if r is not None:
                    const, parts = r
                    def closed(n):
                        s = iadd(i0, imul(n, const))
                        for c, k in parts:
                            cnt, sel = E.folds.rank(c)
                            s = iadd(s, imul(cnt(n), k))
                        return s
                    return closed
        if even:
            return None
        try:
            v = self.merge(vals)
        except Fail:
            return None
        v = ex(v)
        names = symbols(v)
        if not self.free_of_unknowns(names, own):
            return None
        if not (names & own):
            # the value of the last iteration
            w = v
            def closed(n):
                n1 = isub(n, 1)
                wv = renorm(z3.substitute(w, (t, ex(n1))))
                return ite(cmp_le(n, 0), i0, wv)
            return closed
        body = z3.substitute(v, (x, accof(x.sort())), (t, foldK))
        i0e = ex(i0)
        return lambda n: E.folds.fold(i0e, body, n)

    def rank_form(self, d):
        """d(t) as const + sum of k*[cond], with increments k that do not depend on t; [(cond over K, k)] or None"""
        # nested ite: convert to the disjunction of the conditions with the same increment
        leaves = []
        def tree(e, cs):
            if isint(e) or z3.is_int_value(e):
                leaves.append((cs, unint(e) if not isint(e) else e))
                return
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                tree(unint(e.arg(1)), cs + [e.arg(0)])
                tree(unint(e.arg(2)), cs + [ex(bnot(e.arg(0)))])
                return
            if z3.is_expr(e) and self.t.decl().name() not in symbols(e):
                leaves.append((cs, e))
                return
            raise Fail('rank')
        try:
            tree(d, [])
        except Fail:
            return None
        ks = {}
        for cs, k in leaves:
            if not (isint(k) and k == 0):
                ks.setdefault(k if isint(k) else ('e', k.get_id()), (k, []))[1].append(band(*cs))
        if len(ks) > 2:
            return None
        return 0, [(z3.substitute(ex(bor(*cs)), (self.t, foldK)), k) for k, cs in ks.values()]

    def use_eqs(self, d, conds):
        tn = self.t.decl().name()
        for _ in range(3):
            if isint(d) or tn not in symbols(d):
                return d
            hit = False
            for c in conds:
                nc = norm_cond(c)
                if nc is None or nc[0] != 'eq0' or isint(nc[1]):
                    continue
                e, con = lin(nc[1])
                dd, _ = lin(d)
                for i, (a, co) in e.items():
                    if i in dd and co in (1, -1) and tn in decls_of(a):
                        # a = -(rest)/co
                        rest = unlin({j: z for j, z in e.items() if j != i}, con)
                        if tn in symbols(rest):
                            continue
                        val = iscale(rest, -co)
                        d = iadd(unlin({j: z for j, z in dd.items() if j != i}, lin(d)[1]), iscale(val, dd[i][1]))
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return d
        return d

    # -------------------------------------------------------------- arrays
    def layers(self, arr, leaf):
        ls = []
        a = arr
        while a is not leaf:
            if a.fn is not None:
                return None
            ls.append(a)
            a = a.parent
        ls.reverse()
        return ls

    def solve_arr(self, H, key, h, paths):
        E = self.E
        t = self.t
        A0 = self.init(key)
        hd = self.hdecls.get(key, set())
        info = []
        for c, b in paths:
            arr = self.comp_of(b, key)
            ls = self.layers(arr, h)
            info.append((c, b, arr, ls))
        rngs = []
        for c, b, arr, ls in info:
            if ls is None:
                rngs.append(None)
                continue
            if not ls:
                rngs.append(('none',))
                continue
            lo, n = ls[0].lo, ls[0].n
            ok = True
            for l in ls[1:]:
                if same(l.lo, iadd(lo, n)) or b.st.prove(cmp_eq(l.lo, iadd(lo, n))):
                    n = iadd(n, l.n)
                elif b.st.prove(band(cmp_le(lo, l.lo), cmp_le(iadd(l.lo, l.n), iadd(lo, n)))):
                    pass
                elif same(iadd(l.lo, l.n), lo) or b.st.prove(cmp_eq(iadd(l.lo, l.n), lo)):
                    lo = l.lo
                    n = iadd(n, l.n)
                else:
                    ok = False
                    break
            if ok:
                lo = self.use_eqs(lo, c)
                n = self.use_eqs(n, c)
            rngs.append((lo, n) if ok else ('many',))
        act = [(i, r) for i, r in zip(info, rngs) if not (r is not None and len(r) == 1 and r[0] == 'none')]
        if not act:
            return lambda n: A0
        if any(r is None for _, r in act):
            return None
        good = all(len(r) == 2 for _, r in act) and all(
            self.free_of_unknowns(symbols(r[0]) | symbols(r[1])) for _, r in act)
        allsame = good and all(same(r[0], act[0][1][0]) and same(r[1], act[0][1][1]) for _, r in act)
        if allsame:
            lo, n = act[0][1]
            aff = tcoef(lo, t)
            if aff is not None and len(act) < len(info) and t.decl().name() not in symbols(n) and not (isint(aff[0]) and aff[0] == 0) \
                    and (same(aff[0], n) or act[0][0][1].st.prove(cmp_eq(aff[0], n))):
                # the paths that do not write row t keep it
                w = self.block(key, [(i, (lo, n)) for i in info], lo, n, *aff, A0, H)
                if w is not None:
                    return w
            if aff is not None and len(act) == len(info) and t.decl().name() not in symbols(n):
                c, a = aff
                if not (isint(c) and c == 0) and (same(c, n) or act[0][0][1].st.prove(cmp_eq(c, n))):
                    w = self.block(key, act, lo, n, c, a, A0, H)
                    if w is not None:
                        return w
                if isint(c) and c == 0:
                    return self.pointwise(H, key, h, act, info, (lo, n))
                if not isint(lo) and not (isint(c) and c < 2):
                    w = self.gapped(key, act, lo, n, c, a, A0, H)
                    if w is not None:
                        return w
                if isint(c) and isint(n) and n == -c:
                    w = self.block_down(key, act, lo, n, c, a, A0, H)
                    if w is not None:
                        return w
            # conditional append: lo = a + c*cnt(t)
            w = self.cond_append(H, key, act, info, lo, n, A0)
            if w is not None:
                return w
        self.weak.add(key)
        return self.pointwise(H, key, h, act, info, None)

    def read_init(self, key, A0):
        """expression transformer: old-content reads become reads of the initial content"""
        hd = self.hdecls.get(key, set())
        h = self.unsolved.get(key)
        E = self.E

        def tr(e):
            if not (hd & decls_of(e)):
                return e
            def f(d, ch):
                v = self.by_decl(key, d.name(), A0, ch)
                return ex(v)
            return ex(renorm(rewrite_apps(e, hd, f)))
        return tr

    def by_decl(self, key, name, A0, ch):
        """value of initial content corresponding to havoc symbol `name` at indices ch"""
        # walk the shape: find which component the symbol stands for
        h = self.havocs[key]
        probe = z3.Int('m!bd')
        def find(hv, rv):
            if isinstance(hv, Rec):
                for k in hv.f:
                    if k in rv.f:
                        r = find(hv.f[k], rv.f[k])
                        if r is not None:
                            return r
                return None
            if isinstance(hv, Vec):
                r = find(hv.n, rv.n)
                if r is not None:
                    return r
                if len(ch) > 1:
                    return find(at(hv.arr, ch[1]), at(rv.arr, ch[1]))
                return None
            if isinstance(hv, z3.ExprRef) and z3.is_app(hv) and hv.decl().name() == name:
                return rv
            return None
        r = find(h.fn(ch[0]), at(A0, unint(ch[0])))
        if r is None:
            raise Fail('initial content')
        return r

    def block(self, key, act, lo, n, c, a, A0, H):
        """contiguous rows: row t is [a+c*t, a+c*(t+1))"""
        E = self.E
        t = self.t
        tr = self.read_init(key, A0)
        set_stride(n) if not isint(n) else None
        j = E.rowskolem(c)
        conds = []
        for (cs, b, arr, ls), r in act:
            s2 = b.st.clone()
            if isint(c) and c == 1:
                v = at(arr, lo, s2)
            else:
                s2.assume(j >= 0)
                s2.assume(cmp_lt(j, c))
                if isint(c) and c <= 32:
                    els = [at(arr, iadd(lo, q), s2) for q in range(c)]
                    import lib
                    f = lib.list_fn(els)
                    v = None
                    conds.append((cs, f))
                    continue
                v = at(arr, iadd(lo, j), s2)
            conds.append((cs, v))
        hd = self.hdecls.get(key, set())
        cl = {}
        if isint(c) and 1 < c <= 32:
            def W(row, rel):
                if rel not in cl:
                    vs = [(cs, f(rel)) for cs, f in conds]
                    cl[rel] = self.norm_elem(self.merge_vals(vs), tr)
                return subst(cl[rel], [(t, ex(row))])
            # usability check
            for q in range(c):
                v = W(t, q)
                if not self.free_of_unknowns(val_symbols(E, v)):
                    return None

            def lf(rel):
                row = E.idiv(None, rel, c) if not isint(rel) else rel // c
                md = E.irem(None, rel, c) if not isint(rel) else rel % c
                sp = E.split_row(None, rel, c) if False else None
                if isint(md):
                    return W(row, md)
                # split a linear index into row and a constant remainder when possible
                d, con = lin(rel)
                if all(co % c == 0 for _, co in d.values()):
                    return W(unlin({i: (x, co // c) for i, (x, co) in d.items()}, con // c), con % c)
                import lib
                return lib.list_fn([W(row, q) for q in range(c)])(md)
        else:
            v = self.norm_elem(self.merge_vals(conds), tr)
            if not self.free_of_unknowns(val_symbols(E, v), {j.decl().name()}):
                return None

            def lf(rel):
                if isint(c) and c == 1:
                    return subst(v, [(t, ex(rel))])
                sp = E.split_row(None, rel, c) if False else None
                g = inner(c)
                if g is not None and isint(g[1]) and g[1] <= 8:
                    # a few smaller rows per iteration: decide in which of them the element is
                    q1, r1 = self.rowsplit(rel, g[0])
                    row, k = divmodc(q1, g[1])
                    w = lambda i: subst(v, [(t, ex(row)), (j, ex(iadd(iscale(g[0], i), r1)))])
                    if isint(k):
                        return w(k)
                    x = w(g[1] - 1)
                    for i in range(g[1] - 1):
                        x = ite(cmp_eq(k, i), w(i), x)
                    return x
                row, md = self.rowsplit(rel, c)
                return subst(v, [(t, ex(row)), (j, ex(md))])

        def closed(nn):
            return Arr(parent=A0, lo=a, n=imul(nn, c), lf=lf, stride=c)
        return closed

    def gapped(self, key, act, lo, n, c, a, A0, H):
        """part of a row each time: row t is [c*t, c*t+c), the part written [a, a+n) of it"""
        E = self.E
        t = self.t
        b0 = act[0][0][1].st
        if not b0.prove(band(cmp_le(0, a), cmp_le(iadd(a, n), c))):
            return None
        tr = self.read_init(key, A0)
        set_stride(c)
        j = E.rowskolem(n)
        conds = []
        for (cs, b, arr, ls), r in act:
            s2 = b.st.clone()
            if isint(n) and n == 1:
                v = at(arr, lo, s2)
            else:
                s2.assume(j >= 0)
                s2.assume(cmp_lt(j, n))
                v = at(arr, iadd(lo, j), s2)
            conds.append((cs, v))
        v = self.norm_elem(self.merge_vals(conds), tr)
        if not self.free_of_unknowns(val_symbols(E, v), {j.decl().name()}):
            return None

        def closed(nn):
            def f(m):
                q, r = self.rowsplit(m, c)
                return ite(band(cmp_le(a, r), cmp_lt(r, iadd(a, n)), cmp_le(0, q), cmp_lt(q, nn)),
                           subst(v, [(t, ex(q)), (j, ex(isub(r, a)))]), at(A0, m))
            return Arr(parent=A0, lo=0, n=imul(nn, c), lf=f, stride=c)
        return closed

    def rowsplit(self, rel, c):
        return rowsplit(self.E, rel, c)

    def norm_elem(self, v, tr):
        return replace(v, tr)

    def merge_vals(self, vs):
        v0 = vs[0][1]
        if len(vs) == 1:
            return v0
        return self.merge(vs)

    def block_down(self, key, act, lo, n, c, a, A0, H):
        """rows written from the end: row t is [a - |c|*t, a-|c|*t+|c|)"""
        E = self.E
        t = self.t
        if n != 1:
            return None
        tr = self.read_init(key, A0)
        conds = []
        for (cs, b, arr, ls), r in act:
            conds.append((cs, at(arr, lo, b.st)))
        v = self.norm_elem(self.merge_vals(conds), tr)
        if not self.free_of_unknowns(val_symbols(E, v)):
            return None

        def closed(nn):
            # written so far: indices a-nn+1 .. a
            base = iadd(isub(a, nn), 1)
            return Arr(parent=A0, lo=base, n=nn, lf=lambda rel: subst(v, [(t, ex(isub(isub(nn, 1), rel)))]))
        return closed

    def cond_append(self, H, key, act, info, lo, n, A0):
        E = self.E
        t = self.t
        tn = t.decl().name()
        if isint(lo) or tn in symbols(n):
            return None
        d, con = lin(lo)
        c = 0
        cnts = None
        rest = {}
        for i, (x, co) in d.items():
            y = x
            m = co
            if z3.is_app(x) and x.decl().eq(MUL):
                p, q = x.arg(0), x.arg(1)
                if tn in decls_of(q) and tn not in decls_of(p):
                    p, q = q, p
                y, m = p, iscale(q, co)
                if tn in symbols(m):
                    return None
            if z3.is_app(y) and y.decl().name() in E.folds.byname and E.folds.byname[y.decl().name()].kind == 'cnt' and y.arg(0).eq(t):
                if cnts is not None and not cnts.eq(y):
                    return None
                cnts = y
                c = iadd(c, m)
            elif tn in decls_of(x):
                return None
            else:
                rest[i] = (x, co)
        if cnts is None:
            return None
        a = unlin(rest, con)
        if not (same(c, n) or act[0][0][1].st.prove(cmp_eq(c, n))):
            return None
        D = E.folds.byname[cnts.decl().name()]
        holes = [cnts.arg(i) for i in range(1, cnts.num_args())]
        tr = self.read_init(key, A0)
        j = E.rowskolem(n)
        conds = []
        for (cs, b, arr, ls), r in act:
            s2 = b.st.clone()
            if isint(n) and n == 1:
                v = at(arr, lo, s2)
            else:
                s2.assume(j >= 0)
                s2.assume(cmp_lt(j, n))
                v = at(arr, iadd(lo, j), s2)
            conds.append((cs, v))
        v = self.norm_elem(self.merge_vals(conds), tr)
        if not self.free_of_unknowns(val_symbols(E, v), {j.decl().name()}):
            return None

        def lf(rel):
            if isint(n) and n == 1:
                return subst(v, [(t, D.sel(ex(rel), *holes))])
            row, md = rowsplit(E, rel, n)
            return subst(v, [(t, D.sel(ex(row), *holes)), (j, ex(md))])

        def closed(nn):
            return Arr(parent=A0, lo=a, n=imul(D.f(ex(nn), *holes), n), lf=lf, stride=n)
        return closed

    def pointwise(self, H, key, h, act, info, rng):
        """every element evolves on its own: A_{t+1}(m) = g(A_t(m), t, m)"""
        E = self.E
        t = self.t
        A0 = self.init(key)
        hd = self.hdecls.get(key, set())
        mm = E.fresh('m')
        probe = at(A0, mm)
        if not isinstance(h.fn(mm), z3.ExprRef):
            return None
        S = h.fn(mm).sort()
        if not isinstance(probe, (int, bool, z3.ExprRef)) or not ex(probe).sort().eq(S):
            return None
        acc = accof(S)
        hm = h.fn(mm)
        vals = []
        for c, b, arr, ls in info:
            v = None
            a = arr
            # top-down through the layers
            def val(a):
                if a is h:
                    return acc
                if a.fn is not None:
                    raise Fail('replaced content')
                rel = isub(mm, a.lo)
                if isint(a.n) and a.n == 1:
                    cc = unint(cmp_eq(rel, 0))
                    e = a.lf(0)
                    # reads of the old content at the written index are reads at m
                    e = at_index(ex(e), hd, a.lo, mm, acc)
                else:
                    cc = band(cmp_le(0, rel), cmp_lt(rel, a.n))
                    if rng is not None:
                        cc = True
                    e = ex(a.lf(rel))
                    e = rewrite_apps(e, hd, lambda d, ch: acc if len(ch) == 1 and (ch[0].eq(mm) or same(unint(ch[0]), mm)) else d(*ch))
                return ite(cc, e, val(a.parent))
            try:
                v = val(arr)
            except Fail:
                return None
            vals.append((c, v))
        try:
            g = ex(self.merge(vals))
        except Fail:
            return None
        names = decls_of(g)
        if (names & hd) or not self.free_of_unknowns(names, {mm.decl().name()}):
            return None
        body = z3.substitute(g, (t, foldK))
        if rng is not None:
            lo, n = rng
            sd = next((l.stride for _, _, _, ls in info for l in ls or () if l.stride is not None), None)

            def closed(nn):
                return Arr(parent=A0, lo=lo, n=n, lf=lambda rel: E.folds.fold(
                    at(A0, iadd(lo, rel)), renorm(z3.substitute(body, (mm, ex(iadd(lo, rel))))), nn), stride=sd)
            return closed

        def closed2(nn):
            return Arr(fn=lambda m: E.folds.fold(at(A0, m), renorm(z3.substitute(body, (mm, ex(m)))), nn))
        return closed2

    # -------------------------------------------------------------- case splits
    def check_splits(self, H, backs, base_len):
        """a branch condition that does not depend on the iteration is decided before the loop"""
        tn = self.t.decl().name()
        unk = set()
        for k, h in self.unsolved.items():
            if isinstance(h, Arr):
                unk |= self.hdecls.get(k, set())
            else:
                unk.add(h.decl().name())
        allc = [self.brconds(b, base_len) for b in backs]
        for cs in allc:
            for c in cs:
                ns = decls_of(c)
                if tn in ns or (ns & unk) or any(fresh_no(n) > self.mark0 - 1 for n in ns):
                    continue
                if self.st.prove(c) or self.st.prove(bnot(c)):
                    continue
                raise NeedSplit(c)

    def limited(self, H):
        if self.limit is not None:
            H.assume(cmp_lt(self.t, self.limit))

    def check_phases(self, H, backs, base_len):
        """content that is not understood, and branches on the number of iterations done: split the iterations there"""
        if any(i.op == 'phi' for i in self.fr.fn.block(self.header)):
            return
        vague = any(k[2] == 'arr' for k in [*self.unsolved, *self.weak])
        unk = set()
        for k, h in self.unsolved.items():
            if isinstance(h, Arr):
                unk |= self.hdecls.get(k, set())
            else:
                unk.add(h.decl().name())
        pc = [self.brconds(b, base_len) for b in backs]
        for cs in pc:
            for c in cs:
                if all(any(c.eq(d) for d in q) for q in pc):
                    continue
                nc = norm_cond(c)
                q = coef(nc[1], self.t) if nc is not None else None
                if q is None or q[0] not in (1, -1):
                    continue
                s, r = q
                if nc[0] in ('eq0', 'ne0'):     # one iteration is special: the first one is peeled off
                    if isint(r) and r == 0 and self.limit is None:
                        raise NeedPeel()
                    continue
                if not vague:
                    continue
                ns = symbols(r)
                if (ns & unk) or any(fresh_no(n) >= fresh_no(self.t.decl().name()) for n in ns):
                    continue
                # s*t + r < 0 (or <= 0): the first iteration on the other side
                if s == 1:
                    n = iadd(iscale(r, -1), 1 if nc[0] == 'le0' else 0)
                else:
                    n = iadd(r, 1 if nc[0] == 'lt0' else 0)
                if self.st.prove(cmp_le(n, 0)) or (self.limit is not None and self.st.prove(cmp_le(self.limit, n))):
                    continue
                raise NeedPhase(n)

    # -------------------------------------------------------------- verification
    def bounds(self, backs, base_len):
        """candidate invariants e(t) <= 0 from conditions holding on every back edge"""
        t = self.t
        cands = []
        pc = [self.brconds(b, base_len) for b in backs]
        if not pc:
            return []
        if self.limit is not None:
            cands.append((isub(t, self.limit), 0, 1))
        common = [c for c in pc[0] if all(any(c.eq(d) for d in q) for q in pc[1:])]
        mine = []
        for c in pc[0]:
            mine.append(c)
        for c in common:
            nc = norm_cond(c)
            if nc is None:
                continue
            k, e = nc
            q = coef(e, t)
            if q is None or q[0] == 0:
                continue
            s, r = q
            ns = symbols(r)
            if any(fresh_no(n) > self.mark for n in ns):
                continue
            if k == 'lt0' and s > 0:
                cands.append((iadd(iscale(t, s), r), s - 1, s))
            elif k == 'le0' and s > 0:
                cands.append((iadd(iscale(t, s), r), s, s))
            elif k == 'ne0':
                if s < 0:
                    s, r = -s, iscale(r, -1)
                if s == 1:
                    cands.append((iadd(t, r), 0, 1))
        return cands

    def verify(self):
        E = self.E
        t = self.t
        for attempt in range(8):
            assign = {k: c(t) for k, c in self.solved.items()}
            for k, h in self.unsolved.items():
                assign[k] = h
            # base case
            H0 = self.st
            bad = set()
            for k, c in self.solved.items():
                v0 = c(0)
                if not self.base_ok(H0, k, v0):
                    bad.add(k)
            if bad:
                self.drop(bad, 'base')
                continue
            H = self.build(assign)
            H.assume(t >= 0)
            self.limited(H)
            for k, h in self.unsolved.items():
                self.type_facts(H, k, h)
            blen0 = len(H.pc)
            # discovery of bounds with the closed forms in place
            E.quiet += 1
            E.optim += 1
            self.mark = E._fresh
            try:
                backs, other = self.back_edges(cpenv(self.env), H.clone())
            finally:
                E.quiet -= 1
                E.optim -= 1
            if not backs:
                # the body never comes back: a plain run from the entry state is exact
                bb, oo = self.back_edges(cpenv(self.env), self.st.clone())
                if bb:
                    raise Fail('loop with a back edge only under optimistic arithmetic')
                return oo
            self.check_splits(H, backs, blen0)
            cands = []
            for e, up, s in self.bounds(backs, blen0):
                if isinstance(e, z3.ExprRef) and e.sexpr() in self.bad_bounds:
                    continue
                e0 = renorm(z3.substitute(ex(e), (t, z3.IntVal(0))))
                base = cmp_le(e0, up)
                if not self.st.prove(base):
                    if self.st.prove(bnot(base)):
                        continue
                    if not any(n in symbols(base) for n in ()):
                        ns = decls_of(ex(base))
                        if any(fresh_no(n) >= fresh_no(t.decl().name()) for n in ns):
                            continue
                        raise NeedSplit(ex(base))
                    continue
                cands.append((e, up, s))
            for e, up, s in cands:
                H.assume(cmp_le(e, up))
            base_len = len(H.pc)
            n0 = len(E.obligs)
            self.mark = E._fresh
            backs, other = self.back_edges(cpenv(self.env), H.clone())
            # preservation
            again = False
            for b in backs:
                for e, up, s in cands:
                    e1 = renorm(z3.substitute(ex(e), (t, t + 1)))
                    if not b.st.prove(cmp_le(e1, up)):
                        self.bad_bounds.add(e.sexpr())
                        again = True
            bad = set()
            if not again:
                bad = self.step_check(H, backs)
                if self.newly(H, backs):
                    again = True
            if bad or again:
                del E.obligs[n0:]
                if bad:
                    self.drop(bad, 'step')
                continue
            return self.finish(backs, other, base_len, H, True, cands)
        raise Fail('loop invariant not established')

    def newly(self, H, backs):
        k0, u0 = len(self.killed) + len(self.killreg), len(self.unsolved)
        g = self.collect(H, backs)
        if g:
            for k in list(self.unsolved):
                self.failed.add(k)
        return g

    def drop(self, bad, why):
        E = self.E
        for k in bad:
            if E.log:
                E.log('loop %s: closed form of %s rejected (%s)' % (self.header, self.st.regs[k[0]].name + ':%s%s' % k[1:], why))
            c = self.solved.pop(k)
            self.failed.add(k)
            v = c(self.t)
            h = self.havoc_for(k, [v])
            if h is None:
                self.killed.add(k[:2])
            else:
                self.unsolved[k] = h

    def base_ok(self, st, key, v0):
        i = self.init(key)
        if isinstance(v0, Arr):
            n = self.st.regs[key[0]].cells[key[1]].n
            return self.E.prove_same_arr(st, v0, i, n)
        return self.E.prove_eq(st, v0, i)

    def step_check(self, H, backs):
        E = self.E
        t1 = iadd(self.t, 1)
        bad = set()
        for b in backs:
            for k, c in self.solved.items():
                if k in bad:
                    continue
                rid, off, sub = k
                r = b.st.regs.get(rid)
                if r is None or r.dead or off not in r.cells:
                    bad.add(k)
                    continue
                v = r.cells[off]
                want = c(t1)
                if sub == 'V':
                    ok = isinstance(v, Vec) and E.prove_same(b.st, v, E.vec_of(want))
                elif sub == 'arr':
                    ok = isinstance(v, Vec) and E.prove_same_arr(b.st, v.arr, want, v.n)
                elif sub == 'n':
                    ok = isinstance(v, Vec) and E.prove_eq(b.st, v.n, want)
                elif sub == '':
                    ok = isinstance(v, (int, bool, z3.ExprRef)) and ex(v).sort().eq(ex(want).sort()) and E.prove_eq(b.st, v, want)
                else:
                    ok = isinstance(v, Ptr) and v.rid == self.shape(k).rid and E.prove_eq(b.st, v.path[sub[1]], want)
                if not ok:
                    if E.log and isinstance(v, (int, z3.ExprRef)):
                        E.log('   got %s want %s' % (v, want))
                    bad.add(k)
        return bad

    # -------------------------------------------------------------- after the loop
    def finish(self, backs, other, base_len, H, verify, cands=()):
        E = self.E
        t = self.t
        tn = t.decl().name()
        if verify and not E.quiet:
            if cands and any(s > 0 for _, _, s in cands):
                E.oblig(H, True, 'variant', 'the loop terminates')
            else:
                E.oblig(H, self.other_variant(), 'variant', 'the loop terminates')
        # what held on every earlier iteration
        unk = set()
        for k, h in self.unsolved.items():
            if isinstance(h, Arr):
                unk |= self.hdecls.get(k, set())
            else:
                unk.add(h.decl().name())
        facts = []
        dis = []
        for b in backs:
            cs = []
            for c in self.brconds(b, base_len):
                ns = decls_of(c)
                if tn not in ns:
                    continue
                if (ns & unk) or any(fresh_no(n) > self.mark for n in ns):
                    continue
                nc = norm_cond(c)
                if nc is not None and coef(nc[1], t) is not None:
                    continue
                cs.append(c)
            dis.append(cs)
        if dis and all(dis):
            k = E.fresh('k')
            body = ex(bor(*[band(*cs) for cs in dis]))
            body = renorm(z3.substitute(body, (t, k)))
            if isinstance(body, z3.ExprRef):
                facts.append(E.forall([k], z3.Implies(z3.And(0 <= k, k < t), body)))
                last = renorm(z3.substitute(body, (k, ex(isub(t, 1)))))
                if isinstance(last, z3.ExprRef) and plain(last):
                    facts.append(z3.Implies(t >= 1, last))
        # early exits: the number of iterations is the first index where the loop does not go on
        firstt = stop = None
        if facts and len(dis) == len(backs):
            for e, up, s in cands:
                q = coef(e, t)
                if q and q[0] == 1:
                    n = isub(up, q[1])
                    if tn in symbols(n):
                        continue
                    stop = ex(bnot(bor(*[band(*cs) for cs in dis])))
                    body = renorm(z3.substitute(stop, (t, foldK)))
                    if isinstance(body, z3.ExprRef) and (H.prove(cmp_le(0, n)) or self.st.prove(cmp_le(0, n))):
                        firstt = (n, body)
                    break
        if firstt is not None and E.loopnest:
            fv, _, _ = E.folds.first(firstt[1], firstt[0])
        else:
            fv = None
        out = []
        for o in other:
            for f in facts:
                o.st.assume(f)
            env = o.env if isinstance(o, Edge) else {}
            # pin the number of iterations when the exit condition determines it
            for e, up, s in cands:
                q = coef(e, t)
                if q and q[0] == 1 and o.st.prove(cmp_eq(e, up)):
                    val = isub(up, q[1])
                    if fv is not None:
                        o.st.assume(fv == ex(val), 'br')
                    subst_state(E, o.st, env, [(t, ex(val))])
                    if isinstance(o, Out):
                        o.val = subst(o.val, [(t, ex(val))])
                    break
            else:
                if fv is not None and o.st.prove(ex(stop)):
                    o.st.assume(cmp_lt(fv, firstt[0]), 'br')
                    subst_state(E, o.st, env, [(t, fv)])
                    if isinstance(o, Out):
                        o.val = subst(o.val, [(t, fv)])
            out.append(o)
        if self.limit is not None and backs:
            assign = {k: c(self.limit) for k, c in self.solved.items()}
            for k, h in self.unsolved.items():
                assign[k] = h
            H2 = self.build(assign)
            for k, h in self.unsolved.items():
                self.type_facts(H2, k, h)
            for e, up, s in cands:
                H2.assume(cmp_le(renorm(z3.substitute(ex(e), (t, ex(self.limit)))), up))
            for f in facts:
                H2.assume(renorm_b(z3.substitute(f, (t, ex(self.limit)))))
            if H2.feasible():
                out.extend(handle_loop2(E, self.fr, self.header, self.prev, cpenv(self.env), H2, self.body, self.depth + 1))
        return out

    def other_variant(self):
        return False


def rowsplit(E, rel, c):
    return rowsplit0(rel, c, E.jbound)


def handle_loop2(E, fr, header, prev, env, st, body, depth, limit=None):
    n0 = len(E.obligs)
    if limit is None:
        r = unroll(E, fr, header, prev, env, st, body)
        if r is not None:
            return r
        del E.obligs[n0:]
    return Summary(E, fr, header, prev, env, st, body, limit).run(depth)


import fold as _f
foldK = _f.K


def accof(sort):
    return _f.accc(sort)
