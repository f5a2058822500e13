"""Symbolic execution of LLVM IR, function by function."""
import math
import z3, re, subprocess, time, struct, sys
import ir, fold
from core import *

sys.setrecursionlimit(20000)
HALF = {8: 1 << 7, 16: 1 << 15, 32: 1 << 31, 64: 1 << 63, 1: 1}


class Program:
    def __init__(self, paths):
        self.mods = []
        for p in paths:
            m = ir.Module()
            m.load(p)
            self.mods.append(m)
        self.where = {}
        for m in self.mods:
            for n in m.fns:
                self.where.setdefault(n, m)
        # complete-object constructors and destructors may be aliases of the base-object ones
        self.alias = {}
        for m in self.mods:
            for n, g in m.globals.items():
                if g[0] == 'alias' and isinstance(g[1], tuple) and g[1][-1] in m.fns:
                    self.alias[n] = g[1][-1]
        names = set(self.alias)
        for m in self.mods:
            names.update(m.fns)
            names.update(m.decls)
        names = sorted(names)
        out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = {}
        for a, b in zip(names, out):
            b = b.replace('std::__cxx11::', 'std::').replace('> >', '>>').replace('> >', '>>')
            b = re.sub(r'std::allocator<[^<>]*>', 'A', b)
            self.dem[a] = b
        self.bydem = {}
        for a, b in self.dem.items():
            self.bydem.setdefault(b, []).append(a)

    def demangle(self, n):
        return self.dem.get(n, n)

    def find(self, pat):
        """defined functions whose demangled name matches"""
        r = re.compile(pat)
        return [n for n in self.where if r.search(self.dem[n])]


def rowpart(e, c):
    """e = row*c + rest, syntactically"""
    if isint(c):
        if isint(e):
            return e // c, e % c
        d, con = lin(e)
        row, rest = {}, {}
        for i, (x, co) in d.items():
            if co % c == 0:
                row[i] = (x, co // c)
            else:
                rest[i] = (x, co)
        return unlin(row, con // c), unlin(rest, con % c)
    if isint(e):
        return 0, e
    if summands(c):
        return sumpart(e, c)
    d, con = lin(e)
    row = 0
    rest = {}
    ce = ex(c)
    for i, (x, co) in d.items():
        if z3.is_app(x) and x.decl().eq(MUL) and (x.arg(1).eq(ce) or x.arg(0).eq(ce)):
            o = x.arg(0) if x.arg(1).eq(ce) else x.arg(1)
            row = iadd(row, iscale(o, co))
        elif x.eq(ce):
            row = iadd(row, co)
        else:
            rest[i] = (x, co)
    return row, unlin(rest, con)


def pinned(st, x):
    """the constant that the conditions of the path say x equals, or x"""
    dx, cx = lin(x)
    if len(dx) != 1:
        return x
    (k, (t, co)), = dx.items()
    for _, c in st.pc:
        if z3.is_expr(c) and z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
            d, con = lin(c.arg(0) - c.arg(1))
            if len(d) == 1 and k in d:
                a = d[k][1]
                if con % a == 0:
                    return cx + co * (-con // a)
    return x


def first_ite(e):
    """condition of an outermost if-then-else"""
    work = [e]
    seen = set()
    while work:
        nx = []
        for x in work:
            if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                d = first_ite(c)
                return d if d is not None else c
            nx.extend(x.children())
        work = nx
    return None


def take_ite(e, c, pos):
    """e with If(c,x,y) replaced by x (pos) or y"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_quantifier(x) or not z3.is_app(x) or x.num_args() == 0:
            r = x
        elif x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).eq(c):
            r = go(x.arg(1) if pos else x.arg(2))
        else:
            ch = [go(y) for y in x.children()]
            if all(p.eq(q) for p, q in zip(ch, x.children())):
                r = x
            else:
                d = x.decl()
                k2 = d.kind()
                r = z3.And(*ch) if k2 == z3.Z3_OP_AND else z3.Or(*ch) if k2 == z3.Z3_OP_OR else z3.Sum(*ch) if k2 == z3.Z3_OP_ADD else d(*ch)
        memo[k] = r
        return r
    return go(e)


def solve_eq(c):
    """(const, term) when the condition is an equality that defines a skolem index"""
    if not (z3.is_eq(c) and z3.is_int(c.arg(0))):
        return None
    d, con = lin(isub(unint(c.arg(0)), unint(c.arg(1)))) if not isint(isub(unint(c.arg(0)), unint(c.arg(1)))) else ({}, 0)
    for i, (x, co) in d.items():
        if co in (1, -1) and z3.is_const(x) and x.decl().name()[:2] in ('m!', 'k!'):
            rest = unlin({j: y for j, y in d.items() if j != i}, con)
            if isint(rest) or not mentions(rest, {x.get_id()}):
                return (x, ex(iscale(rest, -co)))
    return None


def show(v):
    if isinstance(v, Vec):
        return 'Vec(%s; [m]=%s)' % (v.n, show(at(v.arr, z3.Int('m!show'))))
    if isinstance(v, Rec):
        return '{%s}' % ', '.join('%s: %s' % (k, show(x)) for k, x in v.f.items())
    if isinstance(v, Agg):
        return 'Agg(%s)' % ', '.join(show(x) for x in v.vals)
    if isinstance(v, Pack):
        return 'Pack(%s)' % ', '.join('%s:%s=%s' % (o, z, show(x)) for o, z, x in v.parts)
    return str(v)


class Out:
    __slots__ = ('kind', 'val', 'st')

    def __init__(self, kind, val, st):
        self.kind = kind
        self.val = val
        self.st = st


class Edge:
    """control reached block `to` from `frm` (leaving the region being executed)"""
    __slots__ = ('frm', 'to', 'env', 'st')

    def __init__(self, frm, to, env, st):
        self.frm = frm
        self.to = to
        self.env = env
        self.st = st


class Frame:
    __slots__ = ('fn', 'mod', 'allocas', 'depth')

    def __init__(self, fn, mod, depth):
        self.fn = fn
        self.mod = mod
        self.depth = depth


def fold2(op, x, y):
    try:
        if op == 'fadd':
            return x + y
        if op == 'fsub':
            return x - y
        if op == 'fmul':
            return x * y
        if op == 'fdiv' and y != 0:
            return x / y
    except OverflowError:
        pass
    return None


class Engine:
    def __init__(self, prog, mode='exact', contracts=None, lib=None, log=None):
        self.prog = prog
        self.cutter = None
        self.mode = mode
        self.D = z3.RealSort() if mode == 'real' else z3.DeclareSort('D')
        self.contracts = contracts or []
        self.lib = lib
        self.obligs = []
        self.quiet = 0
        self.contract_of = {}
        self.optim = 0
        self.loopnest = 0
        self.indcache = {}
        self._rid = 0
        self._fresh = 0
        self.axioms = []
        self.cache = {}
        self.nq = 0
        self.tq = 0.0
        self.cur = '?'
        self.rlimit = 3000000
        self.abscache = {}
        self.globs = {}
        self.typeids = {}
        self.ufs = {}
        self.assumed = set()
        self.used_contracts = set()
        self.inlined = set()
        self.missing = set()
        self.trusted = set()
        self.stack_ids = []
        self.deadline = None
        self.no_contract = set()
        self.vat = z3.Function('vat', V, I, self.D)
        self.folds = fold.Folds(self)
        self.cellw = {}
        self.jbound = bounds
        bounds.clear()
        clear_renorm()
        self.alls = {}
        self.log = log
        self.unroll = 24
        self._mkaxioms()
        self._mksolver()

    # ------------------------------------------------------------ terms
    def fresh(self, base, sort=I):
        self._fresh += 1
        return z3.Const('%s!%d' % (base, self._fresh), sort)

    def new_rid(self):
        self._rid += 1
        return self._rid

    def rowskolem(self, c):
        """fresh remainder constant; whoever introduces it assumes 0 <= j < c"""
        j = self.fresh('j')
        self.jbound[j.decl().name()] = c
        return j

    def remainders(self, st, c):
        """terms that together stand for every remainder in [0,c); their bounds are assumed"""
        g = inner(c)
        parts = summands(c)
        if parts:
            out, lo = [], 0
            for p in parts:
                out += [iadd(lo, r) for r in self.remainders(st, p)]
                lo = iadd(lo, p)
            return out
        if g is None:
            if isint(c) and c <= 16:
                return list(range(c))
            r = self.rowskolem(c)
            st.assume(r >= 0)
            st.assume(cmp_lt(r, c))
            return [r]
        lo = self.remainders(st, g[0])
        hi = self.remainders(st, g[1])
        for r in hi:
            # r < g1, so r*g0 + g0 <= g0*g1
            st.assume(cmp_le(iadd(imul(r, g[0]), g[0]), c))
            st.assume(cmp_le(0, imul(r, g[0])))
        return [iadd(imul(y, g[0]), x) for y in hi for x in lo]

    def uf(self, name, *sorts):
        f = self.ufs.get(name)
        if f is None:
            f = z3.Function(name, *sorts)
            self.ufs[name] = f
            if name in COMM and len(sorts) == 3:
                x, y = z3.Const('cx', sorts[0]), z3.Const('cy', sorts[0])
                self.add_axiom(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
        return f

    def _mkaxioms(self):
        a, b, c, m, j = z3.Ints('a b c m j')
        A = self.axioms
        A.append(z3.ForAll([a, b, c], z3.Implies(z3.And(a < b, c >= 0), MUL(a, c) + c <= MUL(b, c)),
                           patterns=[z3.MultiPattern(MUL(a, c), MUL(b, c))]))
        A.append(z3.ForAll([a, c], z3.And(z3.Implies(z3.And(a >= 0, c >= 0), MUL(a, c) >= 0),
                                          z3.Implies(c == 1, MUL(a, c) == a), z3.Implies(a == 1, MUL(a, c) == c),
                                          z3.Implies(z3.Or(a == 0, c == 0), MUL(a, c) == 0),
                                          z3.Implies(z3.And(a >= 1, c >= 0), MUL(a, c) >= c),
                                          z3.Implies(z3.And(c >= 1, a >= 0), MUL(a, c) >= a)),
                           patterns=[MUL(a, c)]))
        A.append(z3.ForAll([m, c], z3.Implies(z3.And(c >= 1, m >= 0),
                                              z3.And(m == MUL(DV(m, c), c) + MD(m, c), MD(m, c) >= 0, MD(m, c) < c, DV(m, c) >= 0,
                                                     DV(m, c) <= m)),
                           patterns=[DV(m, c)]))
        A.append(z3.ForAll([m, c], z3.Implies(z3.And(c >= 1, m >= 0),
                                              z3.And(m == MUL(DV(m, c), c) + MD(m, c), MD(m, c) >= 0, MD(m, c) < c, DV(m, c) >= 0)),
                           patterns=[MD(m, c)]))
        v = z3.Const('v', V)
        A.append(z3.ForAll([v], z3.And(vlen(v) >= 0, vlen(v) < (1 << 60)), patterns=[vlen(v)]))
        A.append(z3.ForAll([v, a, c], z3.Implies(c >= 0, vlen(SLICE(v, a, c)) == c), patterns=[SLICE(v, a, c)]))
        A.append(z3.ForAll([v, a, c], z3.Implies(z3.And(a == 0, c == vlen(v)), SLICE(v, a, c) == v), patterns=[SLICE(v, a, c)]))
        A.append(z3.ForAll([v, a, c, j], z3.Implies(z3.And(0 <= j, j < c), self.vat(SLICE(v, a, c), j) == self.vat(v, a + j)),
                           patterns=[self.vat(SLICE(v, a, c), j)]))

    def _mksolver(self):
        s = z3.SolverFor('ALL') if False else z3.SimpleSolver()
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('smt.arith.nl', False)
        s.set('rlimit', self.rlimit)
        s.set('timeout', 60000)
        for a in self.axioms:
            s.add(a)
        self.solver = s
        self.stack_ids = []
        self.nax = len(self.axioms)

    def add_axiom(self, a):
        self.axioms.append(a)

    def absr(self, e):
        """real mode: products of unknown reals become applications of an uninterpreted function"""
        if self.mode != 'real' or not isinstance(e, z3.ExprRef):
            return e
        k = e.get_id()
        r = self.abscache.get(k)
        if r is not None:
            return r[1]
        if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            ch = [self.absr(x) for x in e.children()]
            if z3.is_mul(e) and e.sort() == z3.RealSort():
                cs = [x for x in ch if z3.is_rational_value(x)]
                xs = sorted((x for x in ch if not z3.is_rational_value(x)), key=atomkey)
                rm = self.uf('rmul', self.D, self.D, self.D)
                r = None
                for x in xs:
                    r = x if r is None else rm(r, x)
                for c in cs:
                    r = c if r is None else c * r
            elif all(x.eq(y) for x, y in zip(ch, e.children())):
                r = e
            else:
                r = e.decl()(*ch)
        self.abscache[k] = (e, r)
        return r

    def prove(self, st, goal):
        goal = unint(goal)
        if goal is True:
            return True
        if goal is not False:
            g2 = z3.simplify(goal)
            if z3.is_true(g2):
                return True
            if z3.is_false(g2):
                goal = False
        key = (tuple(c.get_id() for _, c in st.pc), None if goal is False else goal.get_id(), len(self.axioms))
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        if self.deadline and time.time() > self.deadline:
            raise Fail('time budget of this function exhausted')
        t0 = time.time()
        if self.nax != len(self.axioms) or self.nq % 400 == 399:
            self._mksolver()
        s = self.solver
        ids = key[0]
        k = 0
        while k < len(self.stack_ids) and k < len(ids) and self.stack_ids[k] == ids[k]:
            k += 1
        while len(self.stack_ids) > k:
            s.pop()
            self.stack_ids.pop()
        for i in range(k, len(ids)):
            s.push()
            s.add(self.absr(st.pc[i][1]))
            self.stack_ids.append(ids[i])
        s.push()
        if goal is not False:
            s.add(z3.Not(self.absr(goal)))
            for f in self.folds.step_facts(goal):
                s.add(self.absr(f))
        try:
            res = s.check()
        except z3.Z3Exception:
            res = z3.unknown
        ok = res == z3.unsat
        if not ok:
            inst = self.instances(st, goal)
            if inst:
                for f in inst:
                    s.add(self.absr(f))
                try:
                    ok = s.check() == z3.unsat
                except z3.Z3Exception:
                    ok = False
        s.pop()
        self.nq += 1
        self.tq += time.time() - t0
        self.cache[key] = (ok, list(st.pc), goal)
        return ok

    def forall(self, vs, body):
        """universally quantified fact with instantiation patterns"""
        ids = {v.get_id() for v in vs}
        pats = []
        seen = set()
        body = self.absr(body)

        def has(e):
            return any(c.get_id() in ids for c in consts_of(e))

        def go(e):
            if e.get_id() in seen or not has(e):
                return
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                return
            for x in e.children():
                go(x)
            if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if any(x.get_id() in ids for x in e.children()):
                    cs = {c.get_id() for c in consts_of(e)}
                    if ids <= cs:
                        pats.append(e)
        go(body)
        pats = [p for p in pats if not p.decl().eq(MUL) and not p.decl().eq(SLICE)] or pats
        plain = [p for p in pats if first_ite(p) is None]
        if pats and not plain:
            # conditional terms cannot occur in a pattern: name the ground ones
            sub, facts = [], []
            for p in pats:
                for x in p.children():
                    if not has(x) and first_ite(x) is not None and not any(y.eq(x) for y, _ in sub):
                        c = self.fresh('hole', x.sort())
                        sub.append((x, c))
                        facts.append(c == x)
            plain = [q for q in (z3.substitute(p, *sub) for p in pats) if first_ite(q) is None] if sub else []
            if plain:
                return z3.And(*facts, z3.ForAll(vs, z3.substitute(body, *sub), patterns=plain[:6]))
        pats = plain
        if pats:
            r = z3.ForAll(vs, body, patterns=pats[:6])
        else:
            r = z3.ForAll(vs, body)
        if len(vs) == 1 and z3.is_int(vs[0]):
            self.alls[r.get_id()] = (r, vs[0], body)
        return r

    def instances(self, st, goal):
        """ground instances of the index-quantified facts at the index terms of the query"""
        fs = [self.alls[c.get_id()] for _, c in st.pc if c.get_id() in self.alls]
        if not fs:
            return []
        cand = {}

        def coll(top):
            hit = self.indcache.get(top.get_id())
            if hit is None:
                found = {}
                seen = set()
                work = [top]
                while work:
                    x = work.pop()
                    i = x.get_id()
                    if i in seen or not isinstance(x, z3.ExprRef) or not z3.is_app(x):
                        continue
                    seen.add(i)
                    ch = x.children()
                    if not ch:
                        if z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name()[:2] in ('t!', 'm!', 'k!'):
                            found[i] = x
                    elif z3.is_int(x) and x.decl().name() in self.folds.byname and x.decl().name().startswith('first'):
                        found[i] = x
                    work.extend(ch)
                hit = (top, found)
                self.indcache[top.get_id()] = hit
            for i, x in hit[1].items():
                cand.setdefault(i, x)
        if goal is not False:
            coll(goal)
        for _, c in st.pc:
            coll(c)
        out = []
        for r, v, body in fs:
            for x in [z3.IntVal(0)] + list(cand.values())[:6]:
                for d in (0, -1, 1) if x.num_args() or not z3.is_int_value(x) else (0,):
                    b = renorm(z3.substitute(body, (v, ex(iadd(unint(x), d)))))
                    if isinstance(b, z3.ExprRef):
                        out.append(b)
        return out

    def prove_eq(self, st, a, b, depth=1):
        a, b = ex(a), ex(b)
        if z3.is_bool(a) and z3.is_int(b):
            a = z3.simplify(z3.If(a, z3.IntVal(1), z3.IntVal(0)))
        elif z3.is_bool(b) and z3.is_int(a):
            b = z3.simplify(z3.If(b, z3.IntVal(1), z3.IntVal(0)))
        if a.eq(b):
            return True
        if not a.sort().eq(b.sort()):
            return False
        if z3.is_int(a):
            g = cmp_eq(unint(a), unint(b))
        else:
            g = a == b
        if st.prove(g):
            return True
        if depth >= 3:
            return False
        s2 = st
        fs = self.folds.lemmas(st, a, b) if self.folds.tab else []
        if fs:
            s2 = st.clone()
            for f in fs:
                s2.assume(f)
            if s2.prove(g):
                return True
        # congruence: same head symbol, equal arguments
        if z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return all(self.prove_eq(s2, x, y, depth + 1) for x, y in zip(a.children(), b.children()))
        return self.split_ite(s2, a, b, depth)

    def split_ite(self, st, a, b, depth, budget=None):
        """case analysis on the conditions of if-then-else subterms, outermost first"""
        if budget is None:
            budget = [40]
        c = first_ite(a)
        if c is None:
            c = first_ite(b)
        if c is None or budget[0] <= 0:
            return False
        budget[0] -= 1
        for pos in (True, False):
            s2 = st.clone()
            s2.assume(c if pos else z3.Not(c))
            if not s2.feasible():
                continue
            a2, b2 = take_ite(a, c, pos), take_ite(b, c, pos)
            pr = solve_eq(c) if pos else None
            if pr is not None:
                a2, b2 = z3.substitute(a2, pr), z3.substitute(b2, pr)
            a2, b2 = ex(renorm(a2)), ex(renorm(b2))
            if a2.eq(b2):
                continue
            if s2.prove(cmp_eq(unint(a2), unint(b2)) if z3.is_int(a2) else a2 == b2):
                continue
            if self.folds.tab or not (first_ite(a2) is not None or first_ite(b2) is not None):
                fs = self.folds.lemmas(s2, a2, b2) if self.folds.tab else []
                if fs:
                    for f in fs:
                        s2.assume(f)
                    if s2.prove(a2 == b2):
                        continue
                if z3.is_app(a2) and z3.is_app(b2) and a2.num_args() and a2.decl().eq(b2.decl()) \
                        and a2.decl().kind() == z3.Z3_OP_UNINTERPRETED and depth < 3 \
                        and all(self.prove_eq(s2, x, y, depth + 1) for x, y in zip(a2.children(), b2.children())):
                    continue
            if not self.split_ite(s2, a2, b2, depth, budget):
                return False
        return True

    def prove_same_arr(self, st, a, b, n):
        """arrays agree on [0,n)"""
        if a is b:
            return True
        if a.fn is not None and b.fn is not None and a.tag is not None and b.tag is not None:
            if a.tag.eq(b.tag):
                return True
            if self.prove_eq(st, a.tag, b.tag):
                return True
        strides = []

        def coll(x):
            while x is not None:
                if x.stride is not None and not any(same(x.stride, y) for y in strides):
                    strides.append(x.stride)
                x = x.parent
        coll(a)
        coll(b)
        def depth(c):
            g = inner(c)
            return 1 + depth(g[1]) if g else 0
        strides.sort(key=lambda c: -depth(c))
        # rows of different lengths made of the same smaller rows: compare by the smaller ones
        ins = [inner(c)[0] for c in strides if inner(c)]
        for g in ins:
            if not isint(g) and sum(1 for h in ins + strides if same(g, h)) > 1:
                strides = [g] + [c for c in strides if not same(c, g)]
                break
        for c in strides[:3] + [None]:
            if c is not None:
                if isint(c) and c <= 1:
                    continue
                if isint(c) and c <= 16:
                    ok = True
                    q = self.fresh('k')
                    for r in range(c):
                        s2 = st.clone()
                        m = iadd(iscale(q, c), r)
                        s2.assume(q >= 0)
                        s2.assume(cmp_lt(m, n))
                        if not self.prove_same(s2, at(a, m, s2), at(b, m, s2)):
                            ok = False
                            break
                    if ok:
                        return True
                    continue
                s2 = st.clone()
                s2.assume(cmp_lt(0, c))
                q = self.fresh('k')
                s2.assume(q >= 0)
                rs = self.remainders(s2, c)
                s2.assume(cmp_lt(imul(q, c), n))
                # an empty row length leaves nothing to compare
                if not (st.prove(cmp_lt(0, c)) or st.clone().assume(bnot(cmp_lt(0, c))).prove(cmp_le(n, 0))):
                    continue
                ok = True
                for r in rs:
                    s3 = s2.clone()
                    s3.assume(cmp_lt(iadd(imul(q, c), r), n))
                    if not self.same_rows(s3, a, b, q, r, c):
                        ok = False
                        break
                if ok:
                    return True
            else:
                s2 = st.clone()
                m = self.fresh('m')
                s2.assume(m >= 0)
                s2.assume(cmp_lt(m, n))
                if not s2.feasible():
                    return True
                if self.prove_same(s2, at(a, m, s2), at(b, m, s2)):
                    return True
                if self.log and not self.quiet:
                    self.log('      element %s (n=%s) differs:\n        %s\n        %s' % (m, n, show(at(a, m, s2)), show(at(b, m, s2))))
        return False

    def same_rows(self, st, a, b, q, r, c):
        """element r of row q agrees; the row is first placed relative to the row boundaries of the layers"""
        rows = []
        for x in (a, b):
            while x is not None and x.fn is None:
                for e in (x.lo, iadd(x.lo, x.n)):
                    if isint(e) and e == 0:
                        continue
                    if isint(e):
                        continue
                    row, rem = rowpart(e, c)
                    if any(same(row, y) for y in rows):
                        continue
                    if isint(rem) and rem == 0 or summands(c) and st.prove(band(cmp_le(0, rem), cmp_lt(rem, c))):
                        rows.append(row)
                x = x.parent

        def go(st, todo):
            if not todo:
                m = iadd(imul(q, c), r)
                x, y = at(a, m, st), at(b, m, st)
                if self.prove_same(st, x, y):
                    return True
                if self.log and not self.quiet:
                    self.log(('      row element %s differs:\n        %s\n        %s' % (m, show(x), show(y)))[:3000])
                return False
            R = todo[0]
            s2 = st.clone()
            s2.assume(cmp_lt(q, R))
            s2.assume(cmp_le(iadd(imul(q, c), c), imul(R, c)))
            if s2.feasible() and not go(s2, todo[1:]):
                return False
            s2 = st.clone()
            s2.assume(cmp_lt(R, q))
            s2.assume(cmp_le(iadd(imul(R, c), c), imul(q, c)))
            if s2.feasible() and not go(s2, todo[1:]):
                return False
            s2 = st.clone()
            s2.assume(cmp_eq(q, R))
            s2.assume(cmp_eq(imul(q, c), imul(R, c)))
            if s2.feasible():
                m = iadd(imul(R, c), r)
                x, y = at(a, m, s2), at(b, m, s2)
                if not self.prove_same(s2, x, y):
                    if self.log and not self.quiet:
                        self.log(('      row element (row=%s) %s differs:\n        %s\n        %s' % (R, m, show(x), show(y)))[:3000])
                    return False
            return True
        return go(st, rows[:3])

    def prove_same(self, st, a, b):
        """equality of two abstract values"""
        if a is b:
            return True
        if isinstance(b, Opaque) and b.tag == 'any':
            return True
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return True
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.ety != b.ety or not self.prove_eq(st, a.n, b.n):
                return False
            if self.folds.tab and isinstance(a.n, z3.ExprRef) and isinstance(b.n, z3.ExprRef) and not a.n.eq(b.n):
                fs = self.folds.lemmas(st, a.n, b.n)
                if fs:
                    st = st.clone()
                    for f in fs:
                        st.assume(f)
            return self.prove_same_arr(st, a.arr, b.arr, a.n)
        if isinstance(a, Rec) and isinstance(b, Rec):
            ks = set(a.f) | set(b.f)
            return all(k in a.f and k in b.f and self.prove_same(st, a.f[k], b.f[k]) for k in ks)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.rid == b.rid and len(a.path) == len(b.path) and all(self.prove_eq(st, x, y) for x, y in zip(a.path, b.path))
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if isinstance(a, Agg) and isinstance(b, Agg):
            return len(a.vals) == len(b.vals) and all(self.prove_same(st, x, y) for x, y in zip(a.vals, b.vals))
        if isinstance(a, Pack) and isinstance(b, Pack):
            return len(a.parts) == len(b.parts) and all(x[0] == y[0] and self.prove_same(st, x[2], y[2]) for x, y in zip(a.parts, b.parts))
        if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
            return self.prove_eq(st, a, b)
        return False

    # ------------------------------------------------------------ obligations
    def oblig(self, st, goal, kind, label):
        goal = unint(goal)
        if self.quiet:
            if goal is not True:
                st.assume(goal)
            return True
        t0 = time.time()
        ok = self.prove(st, goal)
        if not ok and goal is not False and z3.is_and(goal):
            ok = all(self.prove(st, g) for g in goal.children())
        if not ok:
            import spec
            if spec.lost(goal) or any(k == 'br' and spec.lost(x) for k, x in st.pc):
                kind = 'reach'
                label += ' (content that a loop gave up)'
        self.obligs.append(Oblig(fn=self.cur, kind=kind, label=label, ok=ok, goal=None if ok else goal,
                                 pc=None if ok else list(st.pc), time=time.time() - t0))
        if goal is not True:
            st.assume(goal)
        return ok

    def conc(self, st, e):
        """concrete value of an integer term forced by the path condition"""
        e = unint(e)
        if isint(e):
            return e
        x = z3.simplify(e)
        if z3.is_int_value(x):
            return x.as_long()
        raise Fail('symbolic byte offset %s' % e)

    # ------------------------------------------------------------ ints
    def wrap(self, st, r, w):
        if isint(r):
            return r % (1 << w)
        if self.optim:
            return r
        lo = st.prove(cmp_le(0, r))
        hi = st.prove(cmp_lt(r, 1 << w))
        if lo and hi:
            return r
        if lo and st.prove(cmp_lt(r, 2 << w)) and st.prove(cmp_le(1 << w, r)):
            return isub(r, 1 << w)
        if hi and st.prove(cmp_lt(r, 0)) and st.prove(cmp_le(-(1 << w), r)):
            return iadd(r, 1 << w)
        return ex(r) % (1 << w)

    def sview(self, st, x, w):
        h = 1 << (w - 1)
        if isint(x):
            return x - (1 << w) if x >= h else x
        if self.optim or st.prove(cmp_lt(x, h)):
            return x
        if st.prove(cmp_le(h, x)):
            return isub(x, 1 << w)
        return z3.If(ex(x) < h, ex(x), ex(x) - (1 << w))

    def fsigned(self, st, r, w):
        """canonical representative of a signed result known to be in range"""
        if isint(r):
            return r % (1 << w)
        if self.optim or st.prove(cmp_le(0, r)):
            return r
        if st.prove(cmp_lt(r, 0)):
            return iadd(r, 1 << w)
        return z3.If(ex(r) >= 0, ex(r), ex(r) + (1 << w))

    def idiv(self, st, a, b):
        """a / b for 0<=a, b>0 (mathematical floor)"""
        if isint(b):
            if isint(a):
                return a // b
            if b == 1:
                return a
            return divmodc(a, b)[0]
        return self.dv(st, a, b)

    def irem(self, st, a, b):
        if isint(b):
            if isint(a):
                return a % b
            return divmodc(a, b)[1]
        return self.md(st, a, b)

    def split_row(self, st, m, c):
        """(row, rest) when m = row*c + rest with rest provably in [0,c)"""
        if isint(c):
            if c == 1:
                return m, 0
            d, con = lin(m) if not isint(m) else ({}, m)
            row = {}
            rest = {}
            for i, (x, co) in d.items():
                q = co // c
                if co % c == 0:
                    row[i] = (x, q)
                else:
                    rest[i] = (x, co)
            q = con // c
            r1, r2 = unlin(row, q), unlin(rest, con - q * c)
        else:
            if isint(m):
                if m == 0:
                    return 0, 0
                r1, r2 = 0, m
            elif summands(c):
                r1, r2 = sumpart(m, c)
            else:
                d, con = lin(m)
                r1 = 0
                rest = {}
                cid = ex(c).get_id()
                cd, cc = lin(c)
                for i, (x, co) in d.items():
                    if z3.is_app(x) and x.decl().eq(MUL) and (x.arg(1).eq(ex(c)) or x.arg(0).eq(ex(c))):
                        o = x.arg(0) if x.arg(1).eq(ex(c)) else x.arg(1)
                        r1 = iadd(r1, iscale(o, co))
                    elif i == cid:
                        r1 = iadd(r1, co)
                    else:
                        rest[i] = (x, co)
                r2 = unlin(rest, con)
        ok = band(cmp_le(0, r2), cmp_lt(r2, c))
        if st is not None and st.prove(ok):
            return r1, r2
        return None

    def dv(self, st, m, c):
        r = self.split_row(st, m, c)
        if r:
            return r[0]
        if isint(c):
            return ex(m) / c
        if st is not None and st.prove(cmp_eq(c, 1)):
            return m
        return DV(ex(m), ex(c))

    def md(self, st, m, c):
        r = self.split_row(st, m, c)
        if r:
            return r[1]
        if isint(c):
            return ex(m) % c
        if st is not None and st.prove(cmp_eq(c, 1)):
            return 0
        return MD(ex(m), ex(c))

    # ------------------------------------------------------------ doubles
    def dconst(self, x):
        if self.mode == 'real':
            if x != x or x in (float('inf'), float('-inf')):
                return z3.Const('fp_%r' % x, self.D)
            from fractions import Fraction
            fr = Fraction(x)
            # decimal literals are read as the decimal they were written as (real mode is mathematical)
            dec = Fraction(repr(x))
            return z3.RealVal(str(dec.numerator)) / z3.RealVal(str(dec.denominator)) if dec.denominator != 1 else z3.RealVal(str(dec.numerator))
        if x == 0 and str(x) == '-0.0':
            return z3.Const('d_negzero', self.D)
        return z3.Const('d_%s' % struct.pack('>d', x).hex(), self.D)

    def i2d(self, x):
        x = unint(x)
        if isint(x):
            return self.dconst(float(x))
        if self.mode == 'real':
            return z3.ToReal(x)
        new = 'i2d' not in self.ufs
        f = self.uf('i2d', I, self.D)
        if new:
            self.add_axiom(z3.And(f(z3.IntVal(0)) == self.dconst(0.0), f(z3.IntVal(1)) == self.dconst(1.0)))
        return f(x)

    def fbin(self, op, a, b):
        if self.mode == 'real':
            if op == 'fadd':
                r = a + b
            elif op == 'fsub':
                r = a - b
            elif op == 'fmul':
                r = a * b
            elif op == 'fdiv':
                if z3.is_rational_value(z3.simplify(b)):
                    r = a / b
                else:
                    r = a * self.rinv(b)
            else:
                r = self.uf(op, self.D, self.D, self.D)(a, b)
            return rnorm(r)
        x, y = self.dval(a), self.dval(b)
        if x is not None and y is not None:
            r = fold2(op, x, y)
            if r is not None:
                return self.dconst(r)
        if op == 'fsub':
            op, b = 'fadd', self.fneg(b)
        if op in ('fadd', 'fmul'):
            ng = False
            if op == 'fmul':
                # (-a)*b == -(a*b) exactly; -1*x == -x exactly
                def strip(x):
                    if z3.is_app(x) and x.decl().name() == 'fneg':
                        return x.arg(0), True
                    return x, False
                a, n1 = strip(a)
                b, n2 = strip(b)
                ng = n1 != n2
                one = self.dconst(1.0)
                mone = self.dconst(-1.0)
                for x, y in ((a, b), (b, a)):
                    if x.eq(one):
                        return self.fneg(y) if ng else y
                    if x.eq(mone):
                        return y if ng else self.fneg(y)
            if a.sexpr() > b.sexpr():
                a, b = b, a
            r = self.uf(op, self.D, self.D, self.D)(a, b)
            return self.fneg(r) if ng else r
        return self.uf(op, self.D, self.D, self.D)(a, b)

    def rinv(self, b):
        b = rnorm(b)
        return self.uf('rinv', self.D, self.D)(b)

    def fneg(self, a):
        if self.mode == 'real':
            return rnorm(-a)
        if z3.is_app(a) and a.decl().name() == 'fneg':
            return a.arg(0)
        nm = a.decl().name() if z3.is_const(a) else ''
        if nm.startswith('d_') and nm != 'd_negzero':
            return self.dconst(-struct.unpack('>d', bytes.fromhex(nm[2:]))[0])
        return self.uf('fneg', self.D, self.D)(a)

    def _pair(self, f, a, b):
        return f(a, b)

    def fcmp(self, c, a, b):
        if self.mode == 'real':
            c2 = c[1:] if c not in ('ord', 'uno', 'true', 'false') else c
            if c == 'ord':
                return True
            if c == 'uno':
                return False
            return unint(z3.simplify({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[c2]))
        x, y = self.dval(a), self.dval(b)
        if x is not None and y is not None and x == x and y == y:
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'ord': True, 'rd': True, 'uno': False}[c if c in ('ord', 'uno') else c[1:]]
        B = z3.BoolSort()
        lt = self.uf('flt', self.D, self.D, B)
        le = self.uf('fle', self.D, self.D, B)
        eq = self.uf('feq', self.D, self.D, B)
        nan = self.uf('fnan', self.D, B)
        if a.sexpr() <= b.sexpr():
            e = eq(a, b)
        else:
            e = eq(b, a)
        return {'olt': lt(a, b), 'ogt': lt(b, a), 'ole': le(a, b), 'oge': le(b, a), 'oeq': e,
                'une': z3.Not(e), 'ult': z3.Not(le(b, a)), 'ugt': z3.Not(le(a, b)),
                'ule': z3.Not(lt(b, a)), 'uge': z3.Not(lt(a, b)), 'one': z3.Or(lt(a, b), lt(b, a)),
                'ueq': z3.Not(z3.Or(lt(a, b), lt(b, a))),
                'uno': z3.Or(nan(a), nan(b)), 'ord': z3.Not(z3.Or(nan(a), nan(b)))}[c]

    def f32(self, x):
        """rounding to single precision, not interpreted"""
        v = self.dval(x)
        if v is not None:
            try:
                f = struct.unpack('>f', struct.pack('>f', float(v)))[0]
                if f == v:
                    return self.dconst(f)
            except OverflowError:
                pass
        if z3.is_app(x) and x.decl().name() == 'f32':
            return x
        return self.uf('f32', self.D, self.D)(x)

    def dval(self, t):
        """the double a constant term stands for"""
        if self.mode == 'real':
            t = z3.simplify(t)
            if z3.is_rational_value(t):
                return t.as_fraction()
            return None
        if z3.is_const(t):
            nm = t.decl().name()
            if nm == 'd_negzero':
                return -0.0
            if nm.startswith('d_'):
                return struct.unpack('>d', bytes.fromhex(nm[2:]))[0]
        return None

    def ffun(self, name, *args):
        if name in ('sqrt', 'fabs', 'floor', 'ceil') and len(args) == 1:
            x = self.dval(args[0])
            if x is not None:
                r = None
                if name == 'sqrt':
                    if x >= 0 and (self.mode != 'real' or math.sqrt(x) ** 2 == x):
                        r = math.sqrt(x)
                elif x == x and 0 < x < 2.0**52:
                    r = {'fabs': abs, 'floor': math.floor, 'ceil': math.ceil}[name](x)
                if r is not None:
                    return self.dconst(float(r))
        if self.mode == 'real' and name in ('floor', 'ceil', 'trunc'):
            x = args[0]
            fl = lambda y: z3.ToReal(z3.ToInt(y))
            if name == 'floor':
                return fl(x)
            if name == 'ceil':
                return rnorm(-fl(rnorm(-x)))
            return z3.If(x >= 0, fl(x), rnorm(-fl(rnorm(-x))))
        if self.mode == 'real' and name == 'fabs':
            return z3.If(args[0] >= 0, args[0], rnorm(-args[0]))
        return self.uf(name, *([self.D] * (len(args) + 1)))(*args)

    # ------------------------------------------------------------ vectors
    def vec_of(self, v, tag_mode='double'):
        """Vec for a V term"""
        return Vec(vlen(v), self.leaf(v), 'double', 8)

    def leaf(self, v):
        vat = self.vat
        return Arr(fn=lambda m: self.vat_s(v, m), tag=v)

    def vat_s(self, v, m):
        if z3.is_app(v) and v.decl().eq(SLICE):
            return self.vat_s(v.arg(0), iadd(unint(v.arg(1)), m))
        return self.vat(v, ex(m))

    def mkslice(self, b, lo, n):
        while z3.is_app(b) and b.decl().eq(SLICE):
            lo = iadd(unint(b.arg(1)), lo)
            b = b.arg(0)
        return SLICE(b, ex(lo), ex(n))

    def reify(self, st, vec):
        """a V term equal (as a sequence) to the vector"""
        if vec.ety != 'double':
            raise Fail('reify of vector<%s>' % vec.ety)
        a = vec.arr
        if a.fn is not None and a.tag is not None:
            if same(vlen(a.tag), vec.n) or st.prove(cmp_eq(vlen(a.tag), vec.n)):
                return a.tag
            if st.prove(band(cmp_le(0, vec.n))):
                pass
        n = unint(vec.n)
        if not isint(n):
            x = z3.simplify(n)
            if z3.is_int_value(x):
                n = x.as_long()
        j = z3.Int('m!reify')
        st2 = st.clone()
        st2.assume(j >= 0)
        st2.assume(cmp_lt(j, n))
        e = at(a, 0 if n == 1 else j, st2)
        if isinstance(e, z3.ExprRef) and z3.is_app(e) and e.decl().eq(self.vat):
            b = e.arg(0)
            lo = unint(e.arg(1)) if n == 1 else isub(unint(e.arg(1)), j)
            if not mentions(ex(lo), {j.get_id()}) and not mentions(b, {j.get_id()}):
                if st.prove(band(cmp_eq(lo, 0), cmp_eq(vlen(b), n))):
                    return b
                return self.mkslice(b, lo, n)
        if isint(n) and n <= 16:
            f = self.uf('vec%d' % n, *([self.D] * n + [V])) if n else None
            if n == 0:
                t = z3.Const('vec0', V)
            else:
                es = [at(a, i, st) for i in range(n)]
                t = f(*es)
                st.assume(band(*[self.vat(t, i) == es[i] for i in range(n)]))
            st.assume(vlen(t) == n)
            return t
        mk = self.uf('mkvec', I, z3.ArraySort(I, self.D), V)
        t = mk(ex(n), z3.Lambda([j], ex(e)))
        st.assume(vlen(t) == ex(n))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ex(n)), self.vat(t, j) == e), patterns=[self.vat(t, j)]))
        return t

    # ------------------------------------------------------------ values of operands
    def gval(self, st, fr, name):
        m = fr.mod
        g = m.globals.get(name)
        if g is not None and g[0] == 'alias':
            return self.val(st, fr, {}, ('ptr',), g[1])
        if name in m.fns or name in m.decls:
            return FnPtr(name)
        rid = self.globs.get(name)
        if rid is not None and rid in st.regs:
            return Ptr(rid)
        # materialise the constant
        if rid is None:
            rid = self.new_rid()
            self.globs[name] = rid
        gm = m
        if g is None or g[1] is None:
            for mm in self.prog.mods:
                g2 = mm.globals.get(name)
                if g2 is not None and g2[0] != 'alias' and g2[1] is not None:
                    g, gm = g2, mm
                    break
        r = Region('@' + name, 'global', gm.sizeof(g[0]) if g is not None else None)
        st.regs[rid] = r
        if g is not None and g[1] is not None:
            self.init_const(st, gm, r, 0, g[0], g[1], fr)
            inits = [f for f in gm.changed(name) if f.startswith('__cxx_global_var_init')] if name in gm.mutable and name in gm.internal else []
            if inits:
                self.file_static(st, gm, rid, name, inits)
            elif name in gm.mutable and not name.startswith('_ZGV') and not self.guarded(name):
                if any(name in mm.mutable and mm.changed(name) for mm in self.prog.mods):
                    # an object the program changes: it may hold anything
                    r.cells, r.zero, r.kind = {}, False, 'shared'
                    t = gm.resolve(g[0])
                    if t[0] == 'double':
                        r.cells[0] = self.fresh('global', self.D)
                    elif t[0] == 'i':
                        x = self.fresh('global')
                        st.assume(z3.And(x >= 0, x < (1 << t[1])))
                        r.cells[0] = x
        return Ptr(rid)

    def guarded(self, name):
        """a static object of a function, initialised the first time"""
        return any('_ZGV' + name[2:] in mm.globals for mm in self.prog.mods)

    def file_static(self, st, mod, rid, name, inits):
        """an object of one source file, initialised before main: it has its initial value when a function is called,
        because every function that is verified leaves it as it is"""
        if len(inits) != 1:
            raise Fail('initialisation of %s' % self.prog.demangle(name))
        s = st.clone()
        self.quiet += 1
        try:
            outs = self.run_function(inits[0], [], s, mod=mod)
        finally:
            self.quiet -= 1
        outs = [o for o in outs if o.kind == 'ret']
        if len(outs) != 1:
            raise Fail('initialisation of %s' % self.prog.demangle(name))
        r = outs[0].st.regs[rid]
        st.regs[rid] = r
        st.ghost['statics'] = tuple(st.ghost.get('statics', ())) + ((name, r),)
        self.assumed.add('the static object %s is changed by no function outside the contracts' % self.prog.demangle(name))

    def statics_kept(self, st):
        """static objects keep the value of their initialisation"""
        for name, r in st.ghost.get('statics', ()):
            if st.regs.get(self.globs.get(name)) is not r:
                raise Fail('a static object is changed: %s' % self.prog.demangle(name))

    def init_const(self, st, m, r, off, ty, v, fr):
        rt = m.resolve(ty)
        if v[0] in ('zero', 'undef'):
            r.zero = v[0] == 'zero'
            return
        if v[0] == 'agg':
            if rt[0] == 'array':
                es = m.sizeof(rt[2])
                for i, (t, x) in enumerate(v[1]):
                    self.init_const(st, m, r, off + i * es, t, x, fr)
            else:
                for i, (t, x) in enumerate(v[1]):
                    o, _ = m.field(ty, i)
                    self.init_const(st, m, r, off + o, t, x, fr)
            return
        if v[0] == 'cstr':
            s = v[1]
            if s[:2] == 'c"':
                s = re.sub(r'\\([0-9A-Fa-f]{2}|\\)', lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), s[2:-1])
            r.cells[off] = Opaque('cstr', s)
            return
        if v[0] == 'int':
            r.cells[off] = v[1] % (1 << rt[1])
        elif v[0] == 'fp':
            r.cells[off] = self.dconst(v[1])
        elif v[0] == 'null':
            r.cells[off] = Ptr(None)
        elif v[0] == 'glob':
            f2 = Frame(None, m, 0)
            r.cells[off] = self.gval(st, f2, v[1])
        elif v[0] == 'gep':
            f2 = Frame(None, m, 0)
            r.cells[off] = self.val(st, f2, {}, ('ptr',), v)
        else:
            r.cells[off] = Opaque('const')

    def val(self, st, fr, env, ty, v):
        k = v[0]
        if k == 'reg':
            return env[v[1]]
        if k == 'int':
            w = ty[1]
            if w == 1:
                return bool(v[1] & 1)
            return v[1] % (1 << w)
        if k == 'fp':
            if v[1] is None:
                raise Fail('x86_fp80 constant')
            return self.dconst(v[1])
        if k == 'null':
            return Ptr(None)
        if k == 'glob':
            return self.gval(st, fr, v[1])
        if k == 'gep':
            return self.gep(st, fr, env, v[1], self.val(st, fr, env, v[2][0][0], v[2][0][1]), v[2][1:])
        if k in ('undef', 'zero'):
            return self.undef(fr.mod, ty, k == 'zero')
        if k == 'agg':
            return Agg([self.val(st, fr, env, t, x) for t, x in v[1]])
        raise Fail('operand %r' % (v,))

    def undef(self, m, ty, zero):
        t = m.resolve(ty)
        if t[0] == 'i':
            return 0 if t[1] > 1 else False
        if t[0] == 'double':
            return self.dconst(0.0)
        if t[0] == 'ptr':
            return Ptr(None)
        if t[0] == 'lit':
            return Agg([self.undef(m, x, zero) for x in t[1]])
        if t[0] == 'array':
            return Agg([self.undef(m, t[2], zero) for _ in range(t[1])])
        raise Fail('undef of %r' % (t,))

    def gep(self, st, fr, env, bt, base, idxs):
        m = fr.mod
        if isinstance(base, Opaque):
            return base
        if not isinstance(base, Ptr):
            raise Fail('gep on %r' % (base,))
        ty = bt
        p = base
        first = True
        for (it, iv) in idxs:
            x = self.val(st, fr, env, it, iv)
            if first:
                first = False
                es = m.sizeof(ty)
                x = self.sview(st, x, it[1])
                p = self.padd(st, p, x, es)
                continue
            rt = m.resolve(ty)
            if rt[0] == 'lit':
                i = unint(x)
                off, ft = m.field(ty, i)
                p = p.add(off)
                ty = ft
            elif rt[0] == 'array':
                x = self.sview(st, x, it[1])
                es = m.sizeof(rt[2])
                ty = rt[2]
                p = self.padd(st, p, x, es)
            else:
                raise Fail('gep into %r' % (rt,))
        return p

    def padd(self, st, p, x, es):
        """pointer + x elements of es bytes"""
        if isint(x) and x == 0:
            return p
        if p.rid is None:
            if len(p.path) == 1:
                return Ptr(None, (iadd(p.path[0], iscale(x, es)),))
        if len(p.path) >= 3:
            # inside a vector: element arithmetic when aligned with the element size
            ves = self.vec_es(st, p)
            if ves is not None and isint(p.path[-1]) and p.path[-1] == 0 and (es == ves):
                return Ptr(p.rid, p.path[:-2] + (iadd(p.path[-2], x), 0))
            if isint(x) and ves is not None and isint(p.path[-1]):
                tot = p.path[-1] + x * es
                q, r = divmod(tot, ves)
                if q == 0:
                    return Ptr(p.rid, p.path[:-1] + (r,))
                if r == 0:
                    return Ptr(p.rid, p.path[:-2] + (iadd(p.path[-2], q), 0))
            if ves is not None and es % ves == 0 and isint(p.path[-1]) and p.path[-1] == 0:
                return Ptr(p.rid, p.path[:-2] + (iadd(p.path[-2], iscale(x, es // ves)), 0))
            if ves is not None and es == 1 and not isint(x):
                d, c = lin(x)
                if c % ves == 0 and all(co % ves == 0 for _, co in d.values()):
                    q = unlin({i: (a, co // ves) for i, (a, co) in d.items()}, c // ves)
                    return Ptr(p.rid, p.path[:-2] + (iadd(p.path[-2], q), 0))
        return p.add(iscale(x, es))

    def vec_es(self, st, p):
        r = st.regs.get(p.rid)
        if r is None:
            return None
        v = r.cells.get(p.path[0])
        i = 1
        while True:
            if not isinstance(v, Vec):
                return None
            if i + 2 >= len(p.path):
                return v.es
            el = at(v.arr, p.path[i], st)
            if not isinstance(el, Rec):
                return None
            v = el.f.get(p.path[i + 1])
            i += 2

    # ------------------------------------------------------------ loads and stores
    def load(self, st, fr, ty, p):
        m = fr.mod
        if isinstance(p, Opaque):
            return Opaque(p.tag)
        if not isinstance(p, Ptr):
            raise Fail('load through %r' % (p,))
        t = m.resolve(ty)
        if t[0] in ('lit', 'array'):
            n = len(t[1]) if t[0] == 'lit' else t[1]
            vals = []
            for i in range(n):
                if t[0] == 'lit':
                    off, ft = m.field(ty, i)
                else:
                    off, ft = i * m.sizeof(t[2]), t[2]
                vals.append(self.load(st, fr, ft, p.add(off)))
            return Agg(vals)
        sz = m.sizeof(ty)
        reg = st.region(p)
        if reg.kind == 'opaque':
            return Opaque(reg.name)
        v = st.read(p, sz)
        if t[0] == 'i' and t[1] > 8 and len(p.path) == 1 and isint(p.path[0]) and v is not None \
                and not isinstance(v, (Pack, Vec, Rec)) and v is not DEAD:
            o = p.path[0]
            w = self.cellw.get((p.rid, o))
            if any(isint(k) and o < k < o + sz for k in reg.cells):
                return Pack([(k - o, None, c) for k, c in sorted((k, c) for k, c in reg.cells.items() if isint(k))
                             if o <= k < o + sz], sz)
            if w is not None and w < t[1]:
                raise Fail('load wider than the stored object')
            if w is not None and w > t[1]:
                if isinstance(v, (bool, int)) or (isinstance(v, z3.ExprRef) and z3.is_int(v)):
                    v = self.wrap(st, v, t[1])
                else:
                    raise Fail('partial load')
        if v is DEAD:
            self.oblig(st, False, 'memory', 'use of a destroyed object')
            raise Fail('destroyed object')
        if v is None:
            if reg.zero:
                return self.undef(m, ty, True)
            if t[0] == 'i' and t[1] > 8 and len(p.path) == 1:
                parts = []
                o = unint(p.path[0])
                for k, c in sorted(reg.cells.items()):
                    if o <= k < o + sz:
                        parts.append((k - o, None, c))
                if parts:
                    return Pack(parts, sz)
            self.oblig(st, False, 'memory', 'read of an uninitialised object')
            raise Fail('uninitialised read at %r of %s' % (p, reg.name))
        if isinstance(v, Pack):
            if v.parts and v.parts[0][0] == 0 and sz < v.size:
                v = v.parts[0][2]
        if isinstance(v, (Vec, Rec)):
            raise Fail('raw load of a container at %r' % (p,))
        if t[0] == 'i' and t[1] > 1 and isinstance(v, bool):
            return int(v)
        if t[0] == 'i' and isinstance(v, z3.ExprRef) and z3.is_bool(v) and t[1] > 1:
            return z3.If(v, 1, 0)
        if t == ('i', 64) and isinstance(v, z3.ExprRef) and v.sort().eq(self.D):
            return self.bits(st, v)
        if t[0] == 'double' and not (isinstance(v, z3.ExprRef) and v.sort().eq(self.D)):
            if isint(v) and v == 0:
                return self.dconst(0.0)
            if isinstance(v, z3.ExprRef) and v.decl().name() == 'bits':
                return v.arg(0)
            raise Fail('type punning load of double')
        if t[0] == 'i' and isinstance(v, z3.ExprRef) and v.sort().eq(self.D):
            return v    # moved around as an integer register
        return v

    def store(self, st, fr, ty, v, p):
        if isinstance(p, Opaque):
            return
        if not isinstance(p, Ptr):
            raise Fail('store through %r' % (p,))
        t = fr.mod.resolve(ty)
        reg = st.region(p)
        if reg.kind == 'opaque':
            return
        if isinstance(v, Agg):
            for i, x in enumerate(v.vals):
                if t[0] == 'lit':
                    off, ft = fr.mod.field(ty, i)
                else:
                    off, ft = i * fr.mod.sizeof(t[2]), t[2]
                self.store(st, fr, ft, x, p.add(off))
            return
        if isinstance(v, Pack):
            for o, s, x in v.parts:
                st.write(p.add(o), x)
            return
        if reg.kind == 'const':
            self.oblig(st, False, 'frame', 'write to constant memory')
        if len(p.path) == 1 and reg.size is not None and isint(p.path[0]):
            sz = fr.mod.sizeof(ty)
            if p.path[0] < 0 or p.path[0] + sz > reg.size:
                self.oblig(st, False, 'bounds', 'write outside the object')
        if t[0] == 'i' and len(p.path) == 1:
            self.cellw[(p.rid, p.path[0])] = t[1]
        if len(p.path) == 1 and isint(p.path[0]):
            sz = fr.mod.sizeof(ty)
            if any(isint(k) and p.path[0] < k < p.path[0] + sz for k in reg.cells):
                r = st.wreg(p.rid)
                for k in [k for k in r.cells if isint(k) and p.path[0] < k < p.path[0] + sz]:
                    del r.cells[k]
        st.write(p, v)

    # ------------------------------------------------------------ instructions
    def step(self, st, fr, env, ins):
        """execute a non-terminator, non-call instruction"""
        op = ins.op
        a = ins.a
        if op == 'load':
            env[ins.res] = self.load(st, fr, a['ty'], self.val(st, fr, env, ('ptr',), a['ptr']))
        elif op == 'store':
            self.store(st, fr, a['ty'], self.val(st, fr, env, a['ty'], a['val']), self.val(st, fr, env, ('ptr',), a['ptr']))
        elif op == 'gep':
            env[ins.res] = self.gep(st, fr, env, a['bt'], self.val(st, fr, env, a['ops'][0][0], a['ops'][0][1]), a['ops'][1:])
        elif op == 'alloca':
            n = 1
            if a['n'] is not None:
                n = unint(self.val(st, fr, env, a['n'][0], a['n'][1]))
                if not isint(n):
                    raise Fail('variable-length array')
            rid = st.new_region('%s:%s' % (fr.fn.name[:40], ins.res), 'stack', fr.mod.sizeof(a['ty']) * n)
            env[ins.res] = Ptr(rid)
            env.setdefault('#allocas', []).append(rid)
        elif op == 'bin':
            env[ins.res] = self.binop(st, fr, a, self.val(st, fr, env, a['ty'], a['x']), self.val(st, fr, env, a['ty'], a['y']))
        elif op == 'fneg':
            env[ins.res] = self.fneg(self.val(st, fr, env, a['ty'], a['x']))
        elif op == 'icmp':
            env[ins.res] = self.icmp(st, fr, a['c'], a['ty'], self.val(st, fr, env, a['ty'], a['x']),
                                     self.val(st, fr, env, a['ty'], a['y']))
        elif op == 'fcmp':
            env[ins.res] = self.fcmp(a['c'], self.val(st, fr, env, a['ty'], a['x']), self.val(st, fr, env, a['ty'], a['y']))
        elif op == 'cast':
            env[ins.res] = self.cast(st, fr, a, self.val(st, fr, env, a['ty'], a['x']))
        elif op == 'select':
            c = unint(self.val(st, fr, env, ('i', 1), a['c']))
            x = self.val(st, fr, env, a['ty'], a['x'])
            y = self.val(st, fr, env, a['ty'], a['y'])
            env[ins.res] = ite(c, x, y)
        elif op == 'extract':
            v = self.val(st, fr, env, a['ty'], a['x'])
            for i in a['ix']:
                if isinstance(v, Opaque):
                    break
                v = v.vals[i]
            env[ins.res] = v
        elif op == 'insert':
            v = self.val(st, fr, env, a['ty'], a['x'])
            y = self.val(st, fr, env, ('ptr',), a['y']) if a['y'][0] == 'reg' else a['y']
            if isinstance(y, tuple):
                y = self.undef(fr.mod, ('ptr',), False)

            def ins_at(v, ix):
                w = Agg(v.vals)
                w.vals[ix[0]] = y if len(ix) == 1 else ins_at(v.vals[ix[0]], ix[1:])
                return w
            env[ins.res] = ins_at(v, a['ix'])
        elif op == 'freeze':
            env[ins.res] = env[a['x'][1]]
        elif op == 'nop':
            pass
        else:
            raise Fail('unsupported instruction: %s' % ins.text.strip()[:120])

    def tobool(self, x):
        return x if isinstance(x, bool) or (isinstance(x, z3.ExprRef) and z3.is_bool(x)) else ex(x) != 0

    def binop(self, st, fr, a, x, y):
        op = a['o']
        if op[0] == 'f':
            r = self.fbin(op, x, y)
            return self.f32(r) if a['ty'][0] == 'float' else r
        w = a['ty'][1]
        fl = a['fl']
        if w == 1 or isinstance(x, bool) or isinstance(y, bool) or (isinstance(x, z3.ExprRef) and z3.is_bool(x)):
            x, y = self.tobool(x), self.tobool(y)
            if op == 'and':
                return band(x, y)
            if op == 'or':
                return bor(x, y)
            if op == 'xor':
                if isinstance(y, bool):
                    return bnot(x) if y else x
                if isinstance(x, bool):
                    return bnot(y) if x else y
                return z3.Xor(x, y)
            raise Fail('boolean op ' + op)
        if isinstance(x, PInt) or isinstance(y, PInt):
            if op == 'sub' and isinstance(x, PInt) and isinstance(y, PInt):
                return self.pdiff(st, x.p, y.p)
            raise Fail('pointer arithmetic through integers')
        if op == 'mul' and not isint(x) and not isint(y):
            # a factor that the path leaves one value
            x, y = pinned(st, x), pinned(st, y)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                sx, sy = self.sview(st, x, w), self.sview(st, y, w)
                r = iadd(sx, sy) if op == 'add' else isub(sx, sy) if op == 'sub' else imul(sx, sy)
                if not isint(r) or not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                    if not self.optim:
                        self.oblig(st, band(cmp_le(-(1 << (w - 1)), r), cmp_lt(r, 1 << (w - 1))), 'overflow',
                                   'signed %s does not overflow' % op)
                return self.fsigned(st, r, w)
            if op == 'add':
                # adding a large constant is a subtraction
                if isint(y) and y >= (1 << (w - 1)) and not isint(x):
                    return self.wrap(st, isub(x, (1 << w) - y), w)
                return self.wrap(st, iadd(x, y), w)
            if op == 'sub':
                return self.wrap(st, isub(x, y), w)
            return self.wrap(st, imul(x, y), w)
        if op in ('udiv', 'urem'):
            self.oblig(st, bnot(cmp_eq(y, 0)), 'arith', 'division by zero')
            return self.idiv(st, x, y) if op == 'udiv' else self.irem(st, x, y)
        if op in ('sdiv', 'srem'):
            self.oblig(st, bnot(cmp_eq(y, 0)), 'arith', 'division by zero')
            sx, sy = self.sview(st, x, w), self.sview(st, y, w)
            if isint(sx) and isint(sy):
                q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
                return (q if op == 'sdiv' else sx - q * sy) % (1 << w)
            if isint(sy) and sy > 0:
                d, c = lin(sx)
                if op == 'sdiv' and c % sy == 0 and all(co % sy == 0 for _, co in d.values()):
                    return self.fsigned(st, unlin({i: (u, co // sy) for i, (u, co) in d.items()}, c // sy), w)
            if st.prove(cmp_le(0, sx)) and (isint(sy) and sy > 0 or st.prove(cmp_lt(0, sy))):
                return self.idiv(st, sx, sy) if op == 'sdiv' else self.irem(st, sx, sy)
            raise Fail('signed division with negative operands')
        if op == 'shl' and isint(y):
            return self.wrap(st, iscale(x, 1 << y), w)
        if op == 'lshr' and isint(y):
            return self.idiv(st, x, 1 << y)
        if op == 'ashr' and isint(y):
            sx = self.sview(st, x, w)
            if isint(sx):
                return (sx >> y) % (1 << w)
            if st.prove(cmp_le(0, sx)):
                return self.idiv(st, sx, 1 << y)
        if op in ('and', 'or', 'xor') and isint(x) and isint(y):
            return {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        if op == 'and' and isint(y) and (y & (y + 1)) == 0:
            return self.irem(st, x, y + 1)
        if op == 'xor' and isint(y) and y == (1 << w) - 1:
            return isub(y, x)
        if op in ('and', 'or'):
            # 0/1 valued operands
            if st.prove(band(cmp_le(x, 1), cmp_le(y, 1), cmp_le(0, x), cmp_le(0, y))):
                c = band(cmp_eq(x, 1), cmp_eq(y, 1)) if op == 'and' else bor(cmp_eq(x, 1), cmp_eq(y, 1))
                return ite(c, 1, 0)
        raise Fail('integer operation %s on symbolic operands' % op)

    def pdiff(self, st, p, q):
        if p.rid == q.rid:
            if len(p.path) == len(q.path) and len(p.path) >= 3:
                if all(same(x, y) for x, y in zip(p.path[:-2], q.path[:-2])):
                    es = self.vec_es(st, p)
                    return iadd(iscale(isub(p.path[-2], q.path[-2]), es), isub(p.path[-1], q.path[-1]))
            if len(p.path) == 1 and len(q.path) == 1:
                return isub(p.path[0], q.path[0])
        raise Fail('difference of unrelated pointers %r %r' % (p, q))

    def peq(self, st, p, q):
        if p.rid != q.rid:
            return False
        if p.rid is None:
            return True
        if len(p.path) != len(q.path):
            return False
        return band(*[cmp_eq(x, y) for x, y in zip(p.path, q.path)])

    def icmp(self, st, fr, c, ty, x, y):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if isinstance(x, Opaque) and isinstance(y, Ptr) and y.rid is None:
                return c == 'ne'
            return self.fresh('opq', z3.BoolSort())
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            r = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
            return r if c == 'eq' else not r
        if isinstance(x, PInt) and isinstance(y, PInt):
            x, y = x.p, y.p
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if c == 'eq':
                return self.peq(st, x, y)
            if c == 'ne':
                return bnot(self.peq(st, x, y))
            d = self.pdiff(st, x, y)
            return {'ult': cmp_lt(d, 0), 'ule': cmp_le(d, 0), 'ugt': cmp_lt(0, d), 'uge': cmp_le(0, d),
                    'slt': cmp_lt(d, 0), 'sle': cmp_le(d, 0), 'sgt': cmp_lt(0, d), 'sge': cmp_le(0, d)}[c]
        w = ty[1]
        if w == 1 or isinstance(x, bool) or isinstance(y, bool) or (isinstance(x, z3.ExprRef) and z3.is_bool(x)):
            x, y = self.tobool(x), self.tobool(y)
            e = None
            if isinstance(y, bool):
                e = x if y else bnot(x)
            elif isinstance(x, bool):
                e = y if x else bnot(y)
            else:
                e = x == y
            return e if c == 'eq' else bnot(e)
        if c[0] == 's':
            x, y = self.sview(st, x, w), self.sview(st, y, w)
        b = self.unbool(x, y, c)
        if b is not None:
            return b
        return {'eq': cmp_eq(x, y), 'ne': bnot(cmp_eq(x, y)), 'lt': cmp_lt(x, y), 'le': cmp_le(x, y),
                'gt': cmp_lt(y, x), 'ge': cmp_le(y, x)}[c if c in ('eq', 'ne') else c[1:]]

    def unbool(self, x, y, c):
        """comparisons of zext'ed booleans with constants"""
        if isinstance(x, z3.ExprRef) and isint(y) and c in ('eq', 'ne') and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            a, b = unint(x.arg(1)), unint(x.arg(2))
            if isint(a) and isint(b):
                p, q = a == y, b == y
                r = True if p and q else x.arg(0) if p else bnot(x.arg(0)) if q else False
                return r if c == 'eq' else bnot(r)
        return None

    def bits(self, st, x):
        """the representation of a double: another one for every other double"""
        if self.mode == 'real':
            raise Fail('representation of a double (mode real)')
        new = 'bits' not in self.ufs
        f, g = self.uf('bits', self.D, I), self.uf('unbits', I, self.D)
        if new:
            y = z3.Const('y!bits', self.D)
            self.add_axiom(z3.ForAll([y], z3.And(f(y) >= 0, f(y) < (1 << 64), g(f(y)) == y), patterns=[f(y)]))
        return f(x)

    def cast(self, st, fr, a, x):
        o = a['o']
        ft, tt = a['ty'], a['to']
        if o == 'bitcast' and isinstance(x, z3.ExprRef) and x.sort().eq(self.D) and tt == ('i', 64):
            return self.bits(st, x)
        if o == 'zext':
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, z3.ExprRef) and z3.is_bool(x):
                return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            return x
        if o == 'sext':
            if isinstance(x, bool):
                return (1 << tt[1]) - 1 if x else 0
            s = self.sview(st, x, ft[1])
            return self.fsigned(st, s, tt[1])
        if o == 'trunc':
            w = tt[1]
            if isinstance(x, bool) or (isinstance(x, z3.ExprRef) and z3.is_bool(x)):
                return x
            if w == 1:
                if isint(x):
                    return bool(x & 1)
                r = self.unbool(x, 1, 'eq')
                if r is not None:
                    return r
                if st.prove(band(cmp_le(0, x), cmp_le(x, 1))):
                    return cmp_eq(x, 1)
                return ex(x) % 2 == 1
            return self.wrap(st, x, w)
        if o in ('uitofp', 'sitofp'):
            if o == 'sitofp':
                # the sign of an arbitrary answer is not guessed
                f = self.optim and z3.is_expr(x) and x.num_args() and x.decl().name().startswith('cb_')
                x = z3.If(x < (1 << ft[1] - 1), x, x - (1 << ft[1])) if f else self.sview(st, x, ft[1])
            if tt[0] == 'float':
                return self.f32(self.i2d(x)) if isint(x) and abs(x) < 1 << 53 else self.uf('i2f', I, self.D)(ex(x))
            return self.i2d(x)
        if o == 'fpext' and (ft[0], tt[0]) == ('float', 'double'):
            return x
        if o == 'fptrunc' and (ft[0], tt[0]) == ('double', 'float'):
            return self.f32(x)
        if o in ('fptoui', 'fptosi'):
            return self.d2i(st, x, tt[1], o == 'fptosi')
        if o == 'ptrtoint':
            if isinstance(x, Ptr) and x.rid is None:
                return x.path[0]
            return PInt(x)
        if o == 'inttoptr':
            if isinstance(x, PInt):
                return x.p
            raise Fail('inttoptr')
        if o == 'bitcast':
            return x
        raise Fail('cast ' + o)

    def d2i(self, st, x, w, signed):
        if z3.is_const(x) and x.decl().name().startswith('d_') and self.mode == 'exact':
            n = x.decl().name()
            d = 0.0 if n == 'd_negzero' else struct.unpack('>d', bytes.fromhex(n[2:]))[0]
            return int(d) % (1 << w)
        if self.mode == 'real':
            xs = z3.simplify(x)
            if z3.is_rational_value(xs):
                f = xs.as_fraction()
                return int(f) % (1 << w)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                return self.wrap(st, unint(x.arg(0)), w)
            lo, hi = (-(1 << (w - 1)) - 1, 1 << (w - 1)) if signed else (-1, 1 << w)
            k = self.whole(x)
            if k is not None:
                self.oblig(st, band(cmp_lt(lo, k), cmp_lt(k, hi)), 'arith', 'floating value representable when converted to integer')
                return self.wrap(st, k, w)
            self.oblig(st, band(x > lo, x < hi), 'arith', 'floating value representable when converted to integer')
            tr = self.fresh('tr')
            st.assume(z3.Implies(x >= 0, z3.And(z3.ToReal(tr) <= x, x < z3.ToReal(tr) + 1, tr >= 0)))
            st.assume(z3.Implies(x < 0, z3.And(z3.ToReal(tr) >= x, x > z3.ToReal(tr) - 1, tr <= 0)))
            f = self.uf('d2i', self.D, I)
            st.assume(f(x) == tr)
            return self.fsigned(st, f(x), w)
        # exact mode: trunc(i2d(k)) = k
        if z3.is_app(x) and x.decl().name() == 'i2d' and x.num_args() == 1:
            return self.wrap(st, unint(x.arg(0)), w)
        nm = 'fits_%s%d' % ('s' if signed else 'u', w)
        ok = self.uf(nm, self.D, z3.BoolSort())(x)
        self.oblig(st, ok, 'arith', 'floating value representable when converted to integer')
        f = self.uf('d2i_%s%d' % ('s' if signed else 'u', w), self.D, I)
        st.assume(z3.And(f(x) >= 0, f(x) < (1 << w)))
        return f(x)

    def whole(self, x):
        """the integer a real term denotes when it is visibly one"""
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            f = x.as_fraction()
            return int(f) if f.denominator == 1 else None
        k = x.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return unint(x.arg(0))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ch = [self.whole(c) for c in x.children()]
            if any(c is None for c in ch):
                return None
            if k == z3.Z3_OP_ADD:
                r = ch[0]
                for c in ch[1:]:
                    r = iadd(r, c)
                return r
            if k == z3.Z3_OP_MUL:
                if len(ch) == 2 and (isint(ch[0]) or isint(ch[1])):
                    return iscale(ch[1], ch[0]) if isint(ch[0]) else iscale(ch[0], ch[1])
                return None
            if k == z3.Z3_OP_UMINUS:
                return iscale(ch[0], -1)
            return isub(ch[0], ch[1]) if len(ch) == 2 else None
        return None

    # ------------------------------------------------------------ functions
    def run_function(self, name, args, st, depth=0, mod=None):
        """inline execution; list of Out"""
        mod = mod or self.prog.where.get(name)
        if mod is None:
            raise Fail('no definition of %s' % self.prog.demangle(name))
        if depth > 60:
            raise Fail('recursion too deep in %s' % self.prog.demangle(name))
        fn = mod.fns[name]
        if fn.entry is None:
            raise Fail('empty function')
        fr = Frame(fn, mod, depth)
        env = {}
        for (t, n, at_), v in zip(fn.params, args):
            env[n] = v
        env['#allocas'] = []
        outs = []
        for o in self.run_blocks(fr, fn.entry, None, env, st):
            if isinstance(o, Edge):
                raise Fail('stray edge')
            # locals die
            outs.append(o)
        return outs

    def kill_locals(self, st, env):
        for rid in env.get('#allocas', ()):
            st.regs.pop(rid, None)

    def run_blocks(self, fr, label, prev, env, st, within=None, header=None, first=True):
        """execute from `label`; returns list of Out / Edge.  With `within` set, an edge to `header` or out
        of `within` is returned as Edge."""
        fn = fr.fn
        loops = fn.find_loops()
        res = []
        work = [(label, prev, env, st, first)]
        waiting = {}        # loop -> states that arrived there
        while work or waiting:
            if not work:
                lab = next((l for l in waiting if not any(m != l and l in fn.reach(m) for m in waiting)), next(iter(waiting)))
                items = waiting.pop(lab)
                if len(items) >= 8 and (len({p for p, _, _ in items}) == 1 or fn.block(lab)[0].op != 'phi'):
                    import join
                    n = len(items)
                    items = join.groups(self, fr, lab, items)
                    if self.log: self.log('JOIN %d -> %d at %s' % (n, len(items), lab))
                import loops as L
                for prv, env, st in items:
                    for o in L.handle_loop(self, fr, lab, prv, env, st):
                        if isinstance(o, Edge):
                            work.append((o.to, o.frm, o.env, o.st, False))
                        else:
                            res.append(o)
                continue
            lab, prv, env, st, frst = work.pop()
            if not frst and lab in loops and lab != header and within is None and self.loopnest == 0:
                waiting.setdefault(lab, []).append((prv, env, st))
                continue
            if not frst:
                if header is not None and lab == header:
                    res.append(Edge(prv, lab, env, st))
                    continue
                if within is not None and lab not in within:
                    res.append(Edge(prv, lab, env, st))
                    continue
                if lab in loops:
                    import loops as L
                    for o in L.handle_loop(self, fr, lab, prv, env, st):
                        if isinstance(o, Edge):
                            work.append((o.to, o.frm, o.env, o.st, False))
                        else:
                            res.append(o)
                    continue
            elif header is None and lab in loops:
                import loops as L
                for o in L.handle_loop(self, fr, lab, prv, env, st):
                    if isinstance(o, Edge):
                        work.append((o.to, o.frm, o.env, o.st, False))
                    else:
                        res.append(o)
                continue
            for nx in self.run_block(fr, lab, prv, env, st):
                if isinstance(nx, Out):
                    res.append(nx)
                else:
                    work.append((nx.to, nx.frm, nx.env, nx.st, False))
            if len(res) + len(work) > 600:
                raise Fail('too many paths')
        return res

    def run_block(self, fr, lab, prv, env, st):
        """run one block; list of Edge/Out"""
        blk = fr.fn.block(lab)
        # phis read the values of the incoming edge simultaneously
        newv = {}
        i0 = 0
        for ins in blk:
            if ins.op != 'phi':
                break
            i0 += 1
            for v, l in ins.a['inc']:
                if l == prv:
                    newv[ins.res] = self.val(st, fr, env, ins.a['ty'], v)
                    break
            else:
                raise Fail('phi without incoming edge')
        env.update(newv)
        return self.run_insts(fr, lab, env, st, i0)

    def run_insts(self, fr, lab, env, st, i):
        blk = fr.fn.block(lab)
        while i < len(blk):
            ins = blk[i]
            op = ins.op
            if op in ('call', 'invoke'):
                outs = self.call(fr, env, st, ins)
                if op == 'call' and len(outs) == 1 and outs[0].kind == 'ret':
                    st = outs[0].st
                    if ins.res is not None:
                        env[ins.res] = outs[0].val
                    i += 1
                    continue
                res = []
                multi = len(outs) > 1
                for o in outs:
                    e2 = dict(env) if multi else env
                    if multi:
                        e2['#allocas'] = list(env['#allocas'])
                    if o.kind == 'ret':
                        if ins.res is not None:
                            e2[ins.res] = o.val
                        if op == 'call':
                            res.extend(self.run_insts(fr, lab, e2, o.st, i + 1))
                        else:
                            res.append(Edge(lab, ins.a['nrm'], e2, o.st))
                    elif o.kind == 'throw':
                        if op == 'invoke':
                            lp = self.catch(fr, ins.a['unw'], o)
                            if lp is not None:
                                o.st.exc = o.val
                                res.append(Edge(lab, ins.a['unw'], e2, o.st))
                                continue
                        self.kill_locals(o.st, e2)
                        res.append(Out('throw', o.val, o.st))
                    else:
                        res.append(o)
                return res
            if op == 'br':
                return [Edge(lab, ins.a['to'], env, st)]
            if op == 'condbr':
                c = unint(self.val(st, fr, env, ('i', 1), ins.a['c']))
                if isinstance(c, z3.ExprRef):
                    c2 = z3.simplify(c)
                    if z3.is_true(c2):
                        c = True
                    elif z3.is_false(c2):
                        c = False
                if c is True:
                    return [Edge(lab, ins.a['a'], env, st)]
                if c is False:
                    return [Edge(lab, ins.a['b'], env, st)]
                ft = st.feasible(c)
                ff = st.feasible(bnot(c))
                res = []
                if ft and ff:
                    s2 = st.clone()
                    e2 = dict(env)
                    e2['#allocas'] = list(env['#allocas'])
                    st.assume(c, 'br')
                    s2.assume(bnot(c), 'br')
                    return [Edge(lab, ins.a['b'], e2, s2), Edge(lab, ins.a['a'], env, st)]
                if ft:
                    return [Edge(lab, ins.a['a'], env, st)]
                if ff:
                    return [Edge(lab, ins.a['b'], env, st)]
                return []    # dead path
            if op == 'switch':
                x = self.val(st, fr, env, ins.a['ty'], ins.a['x'])
                res = []
                rest = True
                for cv, l in ins.a['cs']:
                    c = unint(cmp_eq(x, cv % (1 << ins.a['ty'][1])))
                    if c is True:
                        return [Edge(lab, l, env, st)]
                    if c is False:
                        continue
                    s2 = st.clone()
                    s2.assume(rest)
                    if s2.feasible(c):
                        s2.assume(c, 'br')
                        e2 = dict(env)
                        e2['#allocas'] = list(env['#allocas'])
                        res.append(Edge(lab, l, e2, s2))
                    rest = band(rest, bnot(c))
                if rest is not False and st.feasible(rest):
                    st.assume(rest, 'br')
                    res.append(Edge(lab, ins.a['d'], env, st))
                return res
            if op == 'ret':
                v = None
                if ins.a['v'] is not None:
                    v = self.val(st, fr, env, ins.a['v'][0], ins.a['v'][1])
                self.kill_locals(st, env)
                return [Out('ret', v, st)]
            if op == 'unreachable':
                if st.feasible():
                    self.oblig(st, False, 'memory', 'unreachable code (undefined behaviour) reached')
                return []
            if op == 'landingpad':
                sel = 0
                for cv in ins.a['catches']:
                    if self.exc_match(st.exc, cv):
                        sel = self.typeid(cv)
                        break
                env[ins.res] = Agg([Opaque('exc', st.exc), sel])
                i += 1
                continue
            if op == 'resume':
                self.kill_locals(st, env)
                return [Out('throw', st.exc, st)]
            self.step(st, fr, env, ins)
            i += 1
        raise Fail('block without terminator')

    # ------------------------------------------------------------ exceptions
    HIER = {'_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
            '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
            '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt9exception': None}

    def typeid(self, cv):
        n = cv[1] if cv[0] == 'glob' else '*'
        return self.typeids.setdefault(n, len(self.typeids) + 1)

    def exc_match(self, exc, cv):
        if cv[0] == 'null':
            return True
        t = exc
        while t is not None:
            if t == cv[1]:
                return True
            t = self.HIER.get(t)
        return False

    def catch(self, fr, lab, o):
        for ins in fr.fn.block(lab):
            if ins.op == 'landingpad':
                for cv in ins.a['catches']:
                    if self.exc_match(o.val, cv):
                        return ins
                return None
        return None

    # ------------------------------------------------------------ calls
    def call(self, fr, env, st, ins):
        a = ins.a
        callee = self.val(st, fr, env, ('ptr',), a['callee'])
        if isinstance(callee, Opaque):
            r = fr.mod.resolve(a['rt'])
            return [Out('ret', None if r[0] == 'void' else Opaque('opq'), st)]
        if not isinstance(callee, FnPtr):
            raise Fail('indirect call')
        name = callee.name
        args = []
        for t, v, at_ in a['args']:
            if t == ('metadata',) or v[0] == 'meta':
                args.append(None)
            else:
                args.append(self.val(st, fr, env, t, v))
        return self.call_name(fr, st, name, args, a['rt'], [t for t, _, _ in a['args']])

    def call_name(self, fr, st, name, args, rt, tys=None):
        dem = self.prog.demangle(name)
        if name not in self.no_contract:
            c = self.contract_of.get(name, 0)
            if c == 0:
                c = self.contract_of[name] = next((c for c in self.contracts if c.matches(name, dem)), None)
            if c is not None:
                self.used_contracts.add(c.name)
                return c.apply(self, st, args, name)
        r = self.lib.call(self, fr, st, name, dem, args, rt, tys)
        if r is not NotImplemented:
            return r
        if name in self.prog.where:
            self.inlined.add(dem)
            # a function private to a unit is that of the calling unit
            mod = fr.mod if fr is not None and fr.mod is not None and name in fr.mod.private and name in fr.mod.fns else None
            return self.run_function(name, args, st, fr.depth + 1, mod)
        if name in self.prog.alias:
            return self.call_name(fr, st, self.prog.alias[name], args, rt, tys)
        self.missing.add(name)
        raise Fail('call of external function without a contract: %s' % dem)
