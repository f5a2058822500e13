"""Proof of the iterative decomposition of one symmetric matrix (algebra::symmetricEigen), over the real numbers.

The body is executed from an arbitrary matrix A of order n (2 or 3).  Where it arrives at a loop whose number of
iterations depends on values, and wherever inside it the invariant below holds again, the path is cut: the working
matrix, the vectors and the rest of the off-diagonal become arbitrary values of which only the invariant is known.

    V Vt = 1     A = Vt a V     rest = sum of a_ij^2 over i < j     rest <= bound(g)

g counts the iterations; bound(0) is the sum of the squares of A off the diagonal and bound(g + 1) = bound(g) (1 - 1/p)
for the p = n(n+1)/2 of the code's threshold.  Inside an iteration that began with rest T it is also kept, per pair
i < j, whether "a_ij^2 < T/p or rest <= T - T/p" is known.  Identities are decided in the ring of polynomials modulo
sin^2 + cos^2 = 1, the double angle of -atan(y)/2 and the equations of the path; inequalities linearly over monomials."""
import itertools
import math
import time
import z3
from fractions import Fraction
from core import *
from execu import Out, Edge, first_ite
from spec import Ctx
import join
import loops


def atoms_of(e):
    out = {}
    seen = set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
        for c in x.children():
            go(c)
    go(e)
    return out


class Ring:
    """membership in an ideal"""

    @staticmethod
    def zero(goals, gens, trig, first):
        """are all goals in the ideal of gens + trig (lists of real terms)?  `first`: atoms by decreasing order"""
        from sympy.polys.rings import ring
        from sympy.polys.domains import QQ
        from sympy.polys.orderings import lex
        from sympy.polys.groebnertools import groebner
        gp, np_, tp = [poly(x) for x in goals], [poly(x) for x in gens], [poly(x) for x in trig]
        if all(not p for p in gp):
            return True
        ats = {}
        for p in gp + np_ + tp:
            for c, f in p.values():
                for a in f:
                    ats.setdefault(a.get_id(), a)
        order = [a for a in first if a.get_id() in ats]
        own = {a.get_id() for a in order}
        tid = {a.get_id() for p in tp for c, f in p.values() for a in f}
        order += sorted((a for k, a in ats.items() if k not in own), key=lambda a: (a.get_id() not in tid, a.num_args() == 0, a.sexpr()))
        pos = {a.get_id(): i for i, a in enumerate(order)}
        R = ring(['x%d' % i for i in range(len(order))], QQ, lex)[0]

        def conv(p):
            d = {}
            for c, f in p.values():
                m = [0] * len(order)
                for a in f:
                    m[pos[a.get_id()]] += 1
                d[tuple(m)] = QQ(c.numerator, c.denominator)
            return R.from_dict(d)
        T = [conv(p) for p in tp if p]
        if len(T) > 1:
            T = groebner(T, R)
        G = [conv(p) for p in np_ if p] + list(T)
        for p in gp:
            q = conv(p)
            if q and q.rem(G):
                return False
        return True


class Linear:
    """formulas over the reals with their monomials as unknowns"""
    lost = 0

    def __init__(self):
        self.mons = {}
        self.sq = []

    def term(self, e):
        ts = []
        for m, (c, f) in poly(e).items():
            if len(f) == 1:
                t = f[0]
            elif not f:
                t = None
            else:
                if m not in self.mons:
                    x = z3.Real('mon!%d' % len(self.mons))
                    self.mons[m] = (x, f)
                    if all(sum(1 for b in f if b.get_id() == a.get_id()) % 2 == 0 for a in f):
                        self.sq.append(x >= 0)
                t = self.mons[m][0]
            ts.append(rval(c) if t is None else rval(c) * t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def form(self, e):
        if z3.is_not(e) or z3.is_and(e) or z3.is_or(e) or z3.is_implies(e):
            return e.decl()(*[self.form(c) for c in e.children()])
        if z3.is_app(e) and e.num_args() == 2 and z3.is_real(e.arg(0)):
            k = e.decl().kind()
            d = self.term(e.arg(0) - e.arg(1))
            z = z3.RealVal(0)
            ops = {z3.Z3_OP_LE: lambda: d <= z, z3.Z3_OP_LT: lambda: d < z, z3.Z3_OP_GE: lambda: d >= z, z3.Z3_OP_GT: lambda: d > z,
                   z3.Z3_OP_EQ: lambda: d == z, z3.Z3_OP_DISTINCT: lambda: d != z}
            if k in ops:
                return ops[k]()
        return e

    def prove(self, facts, goal):
        fs = [self.form(f) for f in facts]
        g = self.form(goal)
        s = z3.Solver()
        s.set('rlimit', 20000000)
        s.set('timeout', 40000)
        t = time.time()
        s.add(*fs)
        s.add(*self.sq)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unknown:
            Linear.lost += time.time() - t
            if Linear.lost > 60:
                Linear.lost = 0
                raise Fail('the arithmetic of the rotations is not decided in time')
        return r == z3.unsat


class Cutter:
    def __init__(self, E, n, mat, rid, log=None):
        self.E = E
        self.n = n
        self.nn = n * (n + 1) // 2
        self.mat = mat              # the matrix, packed
        self.rid = rid
        self.phase = None
        self.log = log or (lambda *a: None)
        self.pairs = [(i, j) for i in range(n) for j in range(i)]
        self.bad = []
        self.ok = 0
        self.nloops = 0
        self.lastid = 0
        self.inloop = 0

    # ---------------------------------------------------------------- the invariant
    def pk(self, x, i, j):
        """entry of a packed matrix"""
        i, j = max(i, j), min(i, j)
        return x[i * (i + 1) // 2 + j]

    def off(self, a):
        t = z3.RealVal(0)
        for i, j in self.pairs:
            t = t + self.pk(a, i, j) * self.pk(a, i, j)
        return rnorm(t)

    def ortho(self, v):
        n = self.n
        return [rnorm(z3.Sum([v[k * n + i] * v[j * n + i] for i in range(n)]) - (1 if k == j else 0)) for k in range(n) for j in range(k + 1)]

    def same_matrix(self, a, v):
        n = self.n
        return [rnorm(self.pk(self.mat, p, q) - z3.Sum([v[i * n + p] * self.pk(a, i, j) * v[j * n + q] for i in range(n) for j in range(n)]))
                for p in range(n) for q in range(p + 1)]

    # ---------------------------------------------------------------- facts of a path
    def facts(self, st):
        return [c for _, c in st.pc] + list(st.ghost.get('cutfacts', ()))

    def resolve(self, st, t):
        """t without case distinctions"""
        for _ in range(40):
            if not isinstance(t, z3.ExprRef):
                return None
            c = first_ite(t)
            if c is None:
                return rnorm(t)
            fs = self.facts(st)
            if Linear().prove(fs, c):
                v = z3.BoolVal(True)
            elif Linear().prove(fs, z3.Not(c)):
                v = z3.BoolVal(False)
            else:
                return None
            t = z3.simplify(z3.substitute(t, (c, v)), som=False)
        return None

    def trig(self, st, terms):
        """equations of the path and of the functions in the terms"""
        E = self.E
        gens = []
        todo = list(terms)
        nz = []
        for _, c in st.pc:
            c2 = c.arg(0) if z3.is_not(c) else c
            if z3.is_eq(c2) and z3.is_real(c2.arg(0)):
                d = rnorm(c2.arg(0) - c2.arg(1))
                (nz if z3.is_not(c) else gens).append(d)
        gens = [g for g in gens if poly(g)]
        seen = set()

        def atoms(t):
            for c, f in poly(t).values():
                for a in f:
                    yield a
        angles = {}
        while todo:
            t = todo.pop()
            for a in atoms(t):
                if a.get_id() in seen or not z3.is_app(a) or a.num_args() != 1:
                    continue
                seen.add(a.get_id())
                nm = a.decl().name()
                x = a.arg(0)
                if nm in ('sin', 'cos'):
                    angles[x.get_id()] = x
                elif nm == 'rinv':
                    if any(poly(rnorm(d - x)) == {} or poly(rnorm(d + x)) == {} for d in nz) or self.nonzero(st, x):
                        gens.append(rnorm(a * x - 1))
                if nm in ('sin', 'cos', 'rinv'):
                    todo.append(x)
        sin, cos = (E.uf(f, E.D, E.D) for f in ('sin', 'cos'))
        for x in list(angles.values()):
            s, c = sin(x), cos(x)
            gens.append(rnorm(s * s + c * c - 1))
            p = list(poly(x).values())
            if len(p) == 1:
                q, f = p[0]
                if not f:
                    if abs(float(q)) == math.pi / 4:
                        gens.append(rnorm(s * s - c * c))
                elif len(f) == 1 and f[0].decl().name() == 'atan' and abs(q) == Fraction(1, 2):
                    # tan(2x) = y, with the sign of the factor, and cos(2x) != 0
                    y = f[0].arg(0) if q > 0 else -f[0].arg(0)
                    e = rnorm(2 * s * c - y * (c * c - s * s))
                    gens.append(e)
                    for a in atoms(rnorm(y)):
                        if a.decl().name() == 'rinv':
                            if a.get_id() not in seen:
                                seen.add(a.get_id())
                                if any(poly(rnorm(d - a.arg(0))) == {} or poly(rnorm(d + a.arg(0))) == {} for d in nz):
                                    gens.append(rnorm(a * a.arg(0) - 1))
        return gens

    def nonzero(self, st, x):
        return Linear().prove(self.facts(st), x != 0)

    def identities(self, st, goals):
        gens = list(st.ghost.get('cutgens', ()))
        first = list(st.ghost.get('cutorder', ()))
        return Ring.zero(goals, gens, self.trig(st, goals), first)

    # ---------------------------------------------------------------- cells
    def cells(self, st, rid, count):
        r = st.regs.get(rid)
        if r is None or r.dead or set(r.cells) != {8 * i for i in range(count)}:
            return None
        vs = [r.cells[8 * i] for i in range(count)]
        if not all(isinstance(x, z3.ExprRef) and z3.is_real(x) for x in vs):
            return None
        return vs

    def candidates(self, st, count):
        for rid in st.regs:
            if rid != self.rid:
                vs = self.cells(st, rid, count)
                if vs is not None:
                    yield rid, vs

    def wcells(self, st, rid, vs):
        w = st.wreg(rid)
        w.cells = dict(w.cells)
        for i, x in enumerate(vs):
            w.cells[8 * i] = x

    def scalars(self, st):
        for rid, r in st.regs.items():
            if r.kind == 'stack' and not r.dead:
                for o, x in r.cells.items():
                    yield (rid, o), x

    # ---------------------------------------------------------------- hooks of the loop rules
    def symbolic(self, fr, header, prev, env, st, body):
        """does the condition of the loop depend on values?"""
        E = self.E
        n0 = len(E.obligs)
        lab, prv, en, s = header, prev, loops.cpenv(env), st.clone()
        try:
            for _ in range(12):
                if lab not in body:
                    return False
                nx = E.run_block(fr, lab, prv, en, s)
                if any(isinstance(o, Out) for o in nx):
                    return False
                if len(nx) != 1:
                    return True
                lab, prv, en, s = nx[0].to, nx[0].frm, nx[0].env, nx[0].st
                if lab in fr.fn.find_loops():
                    return False
            return False
        finally:
            del E.obligs[n0:]

    def at_loop(self, fr, header, prev, env, st, body):
        """[Edge/Out] when the loop is handled here, otherwise None"""
        if self.phase is None and self.symbolic(fr, header, prev, env, st, body):
            return self.iteration(fr, header, prev, env, st, body)
        return None

    def ints(self, st, env):
        xs = [(rid, o, x) for rid, r in st.regs.items() if r.kind in ('stack', 'heap') and not r.dead for o, x in sorted(r.cells.items()) if isint(x)]
        return tuple(xs)

    def arrive(self, fr, header, env, st):
        """(env, state) to go on with, or None when this is covered by a path followed already"""
        if self.phase is None or fr.fn.block(header)[0].op == 'phi':
            return env, st
        a, v = self.cells(st, self.ra, self.nn), self.cells(st, self.rv, self.n ** 2)
        if a is None or v is None:
            return env, st
        if self.phase == 'scan':
            s = st.clone()
            self.wcells(s, self.ra, [self.E.fresh('scan', self.E.D) for _ in a])
            self.wcells(s, self.rv, [self.E.fresh('scan', self.E.D) for _ in v])
            return env, s
        return self.cut(fr, header, env, st, a, v)

    # ---------------------------------------------------------------- a cut inside an iteration
    def allowed(self, e):
        return all(k in self.keep for k in atoms_of(e))

    def cut(self, fr, header, env, st, a, v):
        E = self.E
        thr = st.regs[self.thr[0]].cells.get(self.thr[1])
        # values that depend on the present ones must not be in use
        for key, x in self.scalars(st):
            if key != self.thr and isinstance(x, z3.ExprRef) and not self.allowed(x):
                return env, st
        inv = self.holds(st, a, v, thr)
        if inv is None:
            return env, st
        a, v, thr = inv
        fs = self.facts(st)
        T = self.T
        low = thr <= T * z3.Q(self.nn - 1, self.nn)
        if not Linear().prove(fs, thr <= T):
            return env, st
        known = []
        isl = Linear().prove(fs, low)
        for i, j in self.pairs:
            x = self.pk(a, i, j)
            if isl or Linear().prove(fs, z3.Or(x * x < T * z3.Q(1, self.nn), low)):
                known.append((i, j))
        key = (fr, header, self.ints(st, env), tuple(known), isl)
        ids = self.seen.setdefault(key, [len(self.seen), []])
        nm = 'cut%d_%d_' % (self.nloops, ids[0])
        na, nv, nt, gens, order, facts = self.anew(nm)
        nlow = nt <= T * z3.Q(self.nn - 1, self.nn)
        facts.append(nt <= T)
        for i, j in known:
            x = self.pk(na, i, j)
            facts.append(nlow if isl else z3.Or(x * x < T * z3.Q(1, self.nn), nlow))
        s = st.clone()
        s.pc = [(k, c) for k, c in st.pc if self.allowed(c)]
        self.put(s, na, nv, nt)
        s.ghost['cutgens'] = tuple(gens)
        s.ghost['cutinv'] = (na, nv)
        s.ghost['cutorder'] = tuple(order)
        s.ghost['cutfacts'] = tuple(self.base) + tuple(facts)
        en = {k: x for k, x in env.items() if k in self.env0 or k == '#allocas'}
        for en2, s2 in ids[1]:
            if self.same(en2, s2, en, s):
                return None
        ids[1].append((loops.cpenv(en), s.clone()))
        self.log('cut %s %s known %s low %s' % (nm, header, known, isl))
        return en, s

    def same(self, e1, s1, e2, s2):
        if set(e1) != set(e2) or any(k != '#allocas' and not join.agree(x, e2[k]) for k, x in e1.items()) or list(e1['#allocas']) != list(e2['#allocas']):
            return False
        l1, l2 = ({rid: r for rid, r in s.regs.items() if not r.dead} for s in (s1, s2))
        if set(l1) != set(l2):
            return False
        for rid, r in l1.items():
            q = l2[rid]
            if r is not q and (set(r.cells) != set(q.cells) or any(not join.agree(x, q.cells[o]) for o, x in r.cells.items())):
                return False
        p1, p2 = ({c.get_id() for _, c in s.pc} for s in (s1, s2))
        return p1 <= p2 and s1.ghost.get('trace') == s2.ghost.get('trace')

    def anew(self, nm):
        """arbitrary values with the invariant: a, v, rest, equations, order of the unknowns, facts"""
        D = self.E.D
        n = self.n
        a = [z3.Const('%sa%d' % (nm, i), D) for i in range(self.nn)]
        v = [z3.Const('%sv%d' % (nm, i), D) for i in range(n * n)]
        t = z3.Const(nm + 'rest', D)
        off = self.off(a)
        gens = self.same_matrix(a, v) + self.ortho(v) + [rnorm(t - off)]
        order = list(self.mat) + [t] + [v[k * n + i] for i in reversed(range(n)) for k in range(n)]
        return a, v, t, gens, order, [t == off]

    def put(self, s, a, v, t):
        self.wcells(s, self.ra, a)
        self.wcells(s, self.rv, v)
        w = s.wreg(self.thr[0])
        w.cells = dict(w.cells)
        w.cells[self.thr[1]] = t

    def holds(self, st, a, v, thr):
        """(a, v, rest) without case distinctions when the invariant holds of them"""
        vals = [self.resolve(st, x) for x in [thr] + a + v] if isinstance(thr, z3.ExprRef) and z3.is_real(thr) else [None]
        if any(x is None for x in vals):
            return None
        thr, a, v = vals[0], vals[1:1 + self.nn], vals[1 + self.nn:]
        for goals in (self.ortho(v), [rnorm(thr - self.off(a))], self.same_matrix(a, v)):
            if not self.identities(st, goals):
                return None
        return a, v, thr

    # ---------------------------------------------------------------- the loop itself
    def scan(self, fr, header, prev, env, st, body, ints):
        """{cell: [(before, after)]} of the scalars that some iteration changes"""
        E = self.E
        self.phase = 'scan'
        n0 = len(E.obligs)
        s = st.clone()
        self.wcells(s, self.ra, [E.fresh('scan', E.D) for _ in range(self.nn)])
        self.wcells(s, self.rv, [E.fresh('scan', E.D) for _ in range(self.n ** 2)])
        for k, x in ints.items():
            w = s.wreg(k[0])
            w.cells = dict(w.cells)
            w.cells[k[1]] = x
            s.assume(z3.And(x >= 0, x < 1 << 30))
        st = s.clone()
        E.loopnest += 1
        try:
            res = E.run_blocks(fr, header, prev, loops.cpenv(env), s, within=body, header=header)
        finally:
            E.loopnest -= 1
            self.phase = None
        del E.obligs[n0:]
        changed = {}
        for o in res:
            if isinstance(o, Edge) and o.to == header:
                for key in set(k for k, _ in self.scalars(o.st)) | set(k for k, _ in self.scalars(st)):
                    x, y = (q.regs[key[0]].cells.get(key[1]) if key[0] in q.regs else None for q in (st, o.st))
                    if x is None or y is None or not join.agree(x, y):
                        changed.setdefault(key, []).append((x, y))
        return changed

    def need(self, ok, label):
        if not ok:
            raise Fail('symmetricEigen: ' + label)
        self.E.obligs.append(Oblig(fn=self.E.cur, kind='invariant', label=label, ok=True, time=0))

    def iteration(self, fr, header, prev, env, st, body):
        E = self.E
        self.nloops += 1
        n = self.n
        N = self.off(self.mat)
        if fr.fn.block(header)[0].op == 'phi':
            raise Fail('symmetricEigen: registers carried from one iteration to the next')
        for ra, a in self.candidates(st, self.nn):
            found = False
            for rv, v in self.candidates(st, n * n):
                if rv != ra and self.identities(st, self.ortho(v) + self.same_matrix(a, v)):
                    found = True
                    break
            if found:
                break
        else:
            return None
        self.ra, self.rv = ra, rv
        self.keep = set()
        # which other cells an iteration changes: the rest, counters, and those that are only written
        changed = self.scan(fr, header, prev, env, st, body, {})
        thr = [k for k, ps in changed.items() if all(x is not None and isinstance(x, z3.ExprRef) and z3.is_real(x) for x, _ in ps)]
        if len(thr) != 1:
            raise Fail('symmetricEigen: %d values that an iteration changes' % len(thr))
        self.thr = thr[0]
        syms = {k: E.fresh('count', I) for k, ps in changed.items() if all(isint(x) for x, _ in ps)}
        cnt = {}
        if syms:
            again = self.scan(fr, header, prev, env, st, body, syms)
            if set(again) != set(changed):
                raise Fail('symmetricEigen: cells that an iteration changes')
            for k, x in syms.items():
                ds = [unint(z3.simplify(ex(y) - x)) if y is not None else None for _, y in again[k]]
                if all(isint(d) and d == ds[0] for d in ds):
                    cnt[k] = ds[0]
        # the invariant holds at first
        t0 = st.regs[self.thr[0]].cells[self.thr[1]]
        self.need(self.holds(st, a, v, t0) is not None, 'the working matrix, the vectors and the rest are right before the first iteration')
        self.need(poly(rnorm(t0 - N)) == {}, 'the rest is the sum of the squares off the diagonal before the first iteration')
        # an arbitrary iteration
        nm = 'it%d_' % self.nloops
        ha, hv, ht, gens, order, facts = self.anew(nm)
        g = z3.Int(nm + 'g')
        B = z3.Real(nm + 'bound')
        G = 0
        while Fraction(self.nn - 1, self.nn) ** G > Fraction(1, 100000):
            G += 1
        facts += [g >= 0, ht <= B, B >= 0, z3.Implies(g >= G, B <= rnorm(N * z3.Q(1, 100000)))]
        h = st.clone()
        h.assume(g >= 0)
        if cnt:
            h.assume(g < 1 << 30)
        self.put(h, ha, hv, ht)
        for k, step in cnt.items():
            w = h.wreg(k[0])
            w.cells = dict(w.cells)
            w.cells[k[1]] = iadd(w.cells[k[1]], imul(step, g))
        for k in changed:
            if k != self.thr and k not in cnt:
                w = h.wreg(k[0])
                w.cells = dict(w.cells)
                w.cells.pop(k[1], None)
        h.ghost['cutgens'] = tuple(gens)
        h.ghost['cutinv'] = (ha, hv)
        h.ghost['cutorder'] = tuple(order)
        h.ghost['cutfacts'] = tuple(facts)
        self.base = facts
        self.T = ht
        self.keep = set()
        for x in ha + hv + [ht, g] + list(self.mat):
            self.keep |= set(atoms_of(x))
        self.seen = {}
        self.env0 = set(env)
        self.phase = 'check'
        E.loopnest += 1
        try:
            res = E.run_blocks(fr, header, prev, loops.cpenv(env), h.clone(), within=body, header=header)
        finally:
            E.loopnest -= 1
        self.phase = None
        outs = []
        nb = 0
        for o in res:
            if not (isinstance(o, Edge) and o.to == header):
                outs.append(o)
                continue
            s = o.st
            fs = self.facts(s)
            if Linear().prove(fs, z3.BoolVal(False)):
                continue
            nb += 1
            a, v, t = self.cells(s, self.ra, self.nn), self.cells(s, self.rv, n * n), s.regs[self.thr[0]].cells.get(self.thr[1])
            inv = a is not None and v is not None and self.holds(s, a, v, t)
            self.need(inv, 'an iteration keeps the vectors orthonormal and the matrix they turn the working matrix into')
            t = inv[2]
            self.need(Linear().prove(fs, t <= B * z3.Q(self.nn - 1, self.nn)), 'an iteration takes its share of what is left off the diagonal')
            if cnt:
                self.need(s.prove(g + 1 < 1 << 30), 'the number of iterations is bounded')
            for k2, step in cnt.items():
                c = s.regs[k2[0]].cells.get(k2[1])
                self.need(c is not None and s.prove(cmp_eq(c, iadd(h.regs[k2[0]].cells[k2[1]], step))), 'the iterations are counted')
            for rid, r in h.regs.items():
                q = s.regs.get(rid)
                if q is r or r.dead:
                    continue
                same = q is not None and not q.dead
                if same and rid not in (self.ra, self.rv):
                    for off in set(r.cells) | set(q.cells):
                        x, y = r.cells.get(off), q.cells.get(off)
                        same = same and ((rid, off) in changed or (x is not None and y is not None and join.agree(x, y)))
                self.need(same, 'nothing else changes from one iteration to the next')
        self.need(nb > 0, 'an iteration can end')
        return outs


def verify(E, fname, inputs, log=None):
    """obligations of the decomposition; all failures are of the kind `reach`"""
    for n in (2, 3):
        n0 = len(E.obligs)
        try:
            one(E, fname, Ctx(E), inputs(n), n, log)
        except (Fail, KeyError) as e:
            import traceback
            if log:
                log(traceback.format_exc())
            E.obligs.append(Oblig(fn=E.cur, kind='reach', label='decomposition of a matrix of order %d can be followed: %s' % (n, e), ok=False, time=0))
        finally:
            E.cutter = None
        for o in E.obligs[n0:]:
            if not o.ok:
                o.kind = 'reach'


def one(E, fname, ctx, inputs, n, log):
    args = inputs(ctx)
    st0 = ctx.st
    mp, vec, val = args[0], args[2], args[3]
    mat = [st0.read(mp.add(8 * i)) for i in range(n * (n + 1) // 2)]
    k = E.cutter = Cutter(E, n, mat, mp.rid, log)
    outs = E.run_function(fname, args, st0.clone())
    N = k.off(mat)
    done = 0
    for o in outs:
        st = o.st
        E.statics_kept(st)
        if Linear().prove(k.facts(st), z3.BoolVal(False)):
            continue
        k.need(o.kind == 'ret', 'it returns')
        done += 1
        k.need(all(join.agree(st.read(mp.add(8 * i)), x) for i, x in enumerate(mat)), 'the matrix given is unchanged')
        l = k.cells(st, val.rid, n)
        u = k.cells(st, vec.rid, n * n)
        k.need(l is not None and u is not None, 'all values and vectors are written')
        l, u = [rnorm(x) for x in l], [rnorm(x) for x in u]
        for i in range(n - 1):
            k.need(Linear().prove(k.facts(st), l[i] >= l[i + 1]), 'the values are in decreasing order')
        k.need(k.identities(st, k.ortho(u)), 'the vectors have length 1 and are orthogonal')
        # A v_k = sum of a_kj v_j, as A = Vt a V and V Vt = 1: what is left of it beside a_kk v_k is off the diagonal
        a, v = st.ghost.get('cutinv', (mat, [z3.RealVal(int(i % (n + 1) == 0)) for i in range(n * n)]))
        k.need(any(k.identities(st, [rnorm(u[x * n + i] - v[y * n + i]) for x, y in enumerate(p) for i in range(n)]
                                + [rnorm(l[x] - k.pk(a, y, y)) for x, y in enumerate(p)]) for p in itertools.permutations(range(n))),
               'each value goes with its vector')
        k.need(Linear().prove(k.facts(st), k.off(a) <= rnorm(N * z3.Q(1, 100000))),
               'what is left off the diagonal is at most 1e-5 of what was there (sums of squares)')
    k.need(done > 0, 'some outcome is reachable')
