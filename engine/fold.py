"""Recursively defined terms: left folds, ranks (counting) and first-index functions.

Each is an uninterpreted function whose name is determined by the *shape* of its body; the maximal
subterms of the body that do not depend on the iteration variable are parameters ("holes"), so equal
definitions written anywhere (code or specification) denote the same function."""
import zlib
import z3
from core import *

_tabs = {}


def symbols_of(e):
    from loops import symbols
    return symbols(e)


def has_const(e, ids):
    return any(c.get_id() in ids for c in consts_of(e))


COMM = {z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ}


def ordered(body, ids):
    """the arguments of sums, conjunctions, disjunctions and equations in an order that depends on their shape only
    (what does not depend on the iteration counts as one shape)"""
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if not has_const(e, ids):
            r = (e, 0)
        elif z3.is_quantifier(e) or e.num_args() == 0:
            r = (e, zlib.crc32(e.sexpr().encode()))
        else:
            ch = [go(x) for x in e.children()]
            d = e.decl()
            if d.kind() in COMM:
                ch.sort(key=lambda p: p[1])
            h = zlib.crc32(repr((d.name(), [p[1] for p in ch])).encode())
            xs = [p[0] for p in ch]
            if all(x.eq(y) for x, y in zip(xs, e.children())):
                r = (e, h)
            else:
                c = d.kind()
                r = (z3.And(*xs) if c == z3.Z3_OP_AND else z3.Or(*xs) if c == z3.Z3_OP_OR else z3.Sum(*xs) if c == z3.Z3_OP_ADD else d(*xs), h)
        memo[k] = r
        return r
    return go(body)[0]


def holes_of(body, vars_):
    """(skeleton with placeholder constants, holes)"""
    ids = {v.get_id() for v in vars_}
    body = ordered(body, ids)
    holes = []
    memo = {}
    place = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if not has_const(e, ids):
            if z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e) or z3.is_rational_value(e):
                r = e
            else:
                for i, h in enumerate(holes):
                    if h.eq(e):
                        r = z3.Const('hole%d_%s' % (i, e.sort().name()), e.sort())
                        break
                else:
                    holes.append(e)
                    r = z3.Const('hole%d_%s' % (len(holes) - 1, e.sort().name()), e.sort())
        elif z3.is_quantifier(e) or e.num_args() == 0:
            r = e
        else:
            ch = [go(x) for x in e.children()]
            if all(x.eq(y) for x, y in zip(ch, e.children())):
                r = e
            else:
                d = e.decl()
                if d.kind() == z3.Z3_OP_AND:
                    r = z3.And(*ch)
                elif d.kind() == z3.Z3_OP_OR:
                    r = z3.Or(*ch)
                elif d.kind() == z3.Z3_OP_ADD:
                    r = z3.Sum(*ch) if len(ch) > 1 else ch[0]
                else:
                    r = d(*ch)
        memo[k] = r
        return r
    sk = go(body)
    return sk, holes


class Defn:
    """one registered definition"""

    def __init__(self, kind, name, sk, sorts, acc, k, f, sel=None):
        self.kind = kind
        self.name = name
        self.sk = sk
        self.sorts = sorts
        self.acc = acc
        self.k = k
        self.f = f
        self.sel = sel
        self.places = [z3.Const('hole%d_%s' % (i, s.name()), s) for i, s in enumerate(sorts)]

    def inst(self, holes, pairs):
        return z3.substitute(self.sk, *(list(zip(self.places, holes)) + pairs))


K = z3.Int('fold_k')
NN = z3.Int('fold_n')
RR = z3.Int('fold_r')


def accc(sort):
    return z3.Const('fold_acc_' + sort.name(), sort)


def pruned(e):
    """without the true and false in conditions"""
    if not z3.is_bool(e) or not z3.is_app(e) or e.num_args() == 0:
        return e
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        c, a, b = [pruned(x) for x in e.children()]
        return ex(bor(band(unint(c), unint(a)), band(bnot(unint(c)), unint(b)))) if any(z3.is_true(x) or z3.is_false(x) for x in (a, b)) else z3.If(c, a, b)
    if k == z3.Z3_OP_OR:
        return ex(bor(*[unint(pruned(x)) for x in e.children()]))
    if k == z3.Z3_OP_AND:
        return ex(band(*[unint(pruned(x)) for x in e.children()]))
    if k == z3.Z3_OP_NOT:
        return ex(bnot(unint(pruned(e.arg(0)))))
    return e


class Folds:
    def __init__(self, E):
        self.E = E
        self.byname = {}
        self.tab = {}

    # ---------------------------------------------------------------- folds
    def fold(self, init, body, n):
        """F(n) where F(0)=init, F(k+1)=body(acc,k); body is an expression over accc(sort) and K"""
        init = ex(init)
        S = init.sort()
        A = accc(S)
        body = ex(renorm(body) if isinstance(body, z3.ExprRef) else body)
        if S.eq(z3.BoolSort()):
            t = self.some(init, A, body, n)
            if t is not None:
                return t
        sk, holes = holes_of(body, [A, K])
        key = ('fold', S.name(), sk.sexpr())
        d = self.tab.get(key)
        if d is None:
            nm = 'fold%d' % len(self.tab)
            sorts = [h.sort() for h in holes]
            f = z3.Function(nm, *([I, S] + sorts + [S]))
            d = Defn('fold', nm, sk, sorts, A, K, f)
            self.tab[key] = d
            self.byname[nm] = d
            self.E.add_axiom(z3.ForAll([A] + d.places, f(z3.IntVal(0), A, *d.places) == A,
                                       patterns=[f(z3.IntVal(0), A, *d.places)]))
            if S.eq(V) and z3.is_app(sk) and sk.decl().name().startswith('cb_'):
                # callback results have fewer than 2^31 elements (contract of the callbacks): so has every fold of one
                lim = lambda v: z3.And(vlen(v) >= 0, vlen(v) < (1 << 31))
                F = f(NN, A, *d.places)
                self.E.add_axiom(z3.ForAll([NN, A] + d.places, z3.Implies(lim(A), lim(F)), patterns=[vlen(F)]))
        return d.f(ex(n), init, *holes)

    def some(self, init, A, body, n):
        """a flag that an iteration can only raise (or only lower): is there an iteration that does"""
        put = lambda b, v: z3.simplify(z3.substitute(b, (A, z3.BoolVal(v))))
        for up in (True, False):
            if z3.is_true(put(body, True)) if up else z3.is_false(put(body, False)):
                c = unint(ex(renorm(z3.substitute(body, (A, z3.BoolVal(not up))))))
                c = pruned(ex(c if up else bnot(c)))
                f, _, _ = self.first(c, n)
                hit = cmp_lt(f, unint(n) if isinstance(n, z3.ExprRef) else n)
                return ex(bor(unint(init), hit) if up else band(unint(init), bnot(hit)))
        return None

    def monotone(self, st, term):
        """partial sums of nonnegative terms grow: proved for an arbitrary term of the sum, then assumed for all"""
        d = self.byname[term.decl().name()]
        n, init, hs = term.arg(0), term.arg(1), [term.arg(i) for i in range(2, term.num_args())]
        k, j = self.E.fresh('k'), self.E.fresh('k')
        step = lambda i: isub(unint(d.inst(hs, [(d.acc, z3.IntVal(0)), (d.k, i)])), 0)
        acc = self.E.fresh('acc')
        lin_ = renorm(d.inst(hs, [(d.acc, acc), (d.k, k)]))
        if not same(isub(lin_, acc), renorm(ex(step(k)))):
            raise Fail('not a sum')
        s2 = st.clone()
        s2.assume(z3.And(k >= 0, k < n))
        if not s2.prove(cmp_le(0, step(k))):
            raise Fail('a sum of terms that may be negative')
        hs, facts = self.named(hs)
        for c in facts:
            st.assume(c)
        F = lambda i: d.f(i, init, *hs)
        up = z3.And(ex(cmp_le(iadd(F(j), step(j)), F(k))), F(j) <= F(k))
        st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k <= n), up), patterns=[z3.MultiPattern(F(j), F(k))]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), F(k) >= init), patterns=[F(k)]))

    # ---------------------------------------------------------------- ranks
    def rank(self, cond):
        """(cnt, sel): cnt(n)=number of k<n with cond(k); sel(r)=the r-th such index"""
        cond = ex(renorm(cond) if isinstance(cond, z3.ExprRef) else cond)
        neg = False
        sk, holes = holes_of(cond, [K])
        key = ('cnt', sk.sexpr())
        d = self.tab.get(key)
        if d is None:
            nm = 'cnt%d' % len(self.tab)
            sorts = [h.sort() for h in holes]
            f = z3.Function(nm, *([I] + sorts + [I]))
            g = z3.Function('sel_' + nm, *([I] + sorts + [I]))
            d = Defn('cnt', nm, sk, sorts, None, K, f, g)
            self.tab[key] = d
            self.byname[nm] = d
            P = d.places
            q = lambda vs, b, *pats: self.E.add_axiom(z3.ForAll(vs + P, b, patterns=list(pats)))
            c = lambda k: self.E.absr(z3.substitute(sk, (K, k)))
            q([NN], z3.Implies(NN >= 0, z3.And(f(NN, *P) >= 0, f(NN, *P) <= NN)), f(NN, *P))
            if P:
                q([], f(z3.IntVal(0), *P) == 0, f(z3.IntVal(0), *P))
            else:
                self.E.add_axiom(f(z3.IntVal(0)) == 0)
            q([NN, K], z3.Implies(z3.And(0 <= K, K < NN),
                                  z3.And(f(K, *P) <= f(NN, *P), z3.Implies(c(K), f(K, *P) < f(NN, *P)))),
              z3.MultiPattern(f(K, *P), f(NN, *P)))
            q([NN, RR], z3.Implies(z3.And(0 <= RR, RR < f(NN, *P)),
                                   z3.And(0 <= g(RR, *P), g(RR, *P) < NN, c(g(RR, *P)), f(g(RR, *P), *P) == RR)),
              z3.MultiPattern(f(NN, *P), g(RR, *P)))
            q([K], z3.Implies(z3.And(K >= 0, c(K)), g(f(K, *P), *P) == K), f(K, *P))
        cnt = lambda n: d.f(ex(n), *holes)
        sel = lambda r: d.sel(ex(r), *holes)
        return cnt, sel

    # ---------------------------------------------------------------- first
    def first(self, cond, n):
        """least k in [0,n) with cond(k), else n   (n >= 0)"""
        cond = ex(renorm(cond) if isinstance(cond, z3.ExprRef) else cond)
        sk, holes = holes_of(cond, [K])
        key = ('first', sk.sexpr())
        d = self.tab.get(key)
        if d is None:
            nm = 'first%d' % len(self.tab)
            sorts = [h.sort() for h in holes]
            f = z3.Function(nm, *([I] + sorts + [I]))
            d = Defn('first', nm, sk, sorts, None, K, f)
            self.tab[key] = d
            self.byname[nm] = d
            P = d.places
            c = lambda k: self.E.absr(z3.substitute(sk, (K, k)))
            F = f(NN, *P)
            self.E.add_axiom(z3.ForAll([NN] + P, z3.Implies(NN >= 0, z3.And(F >= 0, F <= NN, z3.Implies(F < NN, c(F)))), patterns=[F]))
        t = d.f(ex(n), *holes)
        return t, d, holes

    # ---------------------------------------------------------------- sorting permutations
    def perm(self, less, n):
        """k -> index of the element that comes k-th when [0,n) is sorted by less (over K and RR): a bijection of [0,n)
        after which no element comes before one that precedes it"""
        less = ex(renorm(less) if isinstance(less, z3.ExprRef) else less)
        sk, holes = holes_of(less, [K, RR])
        key = ('perm', sk.sexpr())
        d = self.tab.get(key)
        if d is None:
            nm = 'perm%d' % len(self.tab)
            sorts = [h.sort() for h in holes]
            f = z3.Function(nm, *([I, I] + sorts + [I]))
            g = z3.Function('inv_' + nm, *([I, I] + sorts + [I]))
            d = Defn('perm', nm, sk, sorts, None, K, f, g)
            self.tab[key] = d
            self.byname[nm] = d
            P = d.places
            ins = lambda k: z3.And(0 <= k, k < NN)
            F = lambda k: f(k, NN, *P)
            G = lambda k: g(k, NN, *P)
            q = lambda vs, b, *pats: self.E.add_axiom(z3.ForAll(vs + P, b, patterns=list(pats)))
            q([K, NN], z3.Implies(ins(K), z3.And(ins(F(K)), G(F(K)) == K)), F(K))
            q([K, NN], z3.Implies(ins(K), z3.And(ins(G(K)), F(G(K)) == K)), G(K))
            q([K, RR, NN], z3.Implies(z3.And(0 <= K, K < RR, RR < NN), z3.Not(self.E.absr(z3.substitute(sk, (K, F(RR)), (RR, F(K)))))),
              z3.MultiPattern(F(K), F(RR)))
        return lambda k: d.f(ex(k), ex(n), *holes)

    def first_facts(self, st, cond, n):
        t, d, holes = self.first(cond, n)
        k = self.E.fresh('k')
        st.assume(self.E.forall([k], z3.Implies(z3.And(0 <= k, k < t), z3.Not(d.inst(holes, [(K, k)])))))
        return t

    # ---------------------------------------------------------------- proof support
    def apps(self, e, out, seen, prods=None):
        """the fold applications of e, and its products of one with another term"""
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.num_args() and x.decl().name() in self.byname:
                    out.append(x)
                if prods is not None and x.decl().eq(MUL):
                    for y, o in (x.children(), x.children()[::-1]):
                        if z3.is_app(y) and y.decl().name() in self.byname:
                            prods.setdefault(y.get_id(), []).append((x, o))
                if prods is not None and x.decl().eq(DV):
                    prods.setdefault(('/', x.arg(0).get_id()), []).append((x, x.arg(1)))
                st.extend(x.children())

    def step_facts(self, goal):
        """ground unfoldings F(e+c) = body(F(e+c-1)) for the fold/rank applications of a goal"""
        if not self.tab:
            return []
        out, prods = [], {}
        self.apps(goal, out, set(), prods)
        facts = []
        done = set()
        work = [(x, 0) for x in out]
        while work:
            x, dep = work.pop()
            if x.get_id() in done or dep > 12:
                continue
            done.add(x.get_id())
            d = self.byname[x.decl().name()]
            if d.kind == 'perm':
                continue
            n = unint(x.arg(0))
            args = [x.arg(i) for i in range(1, x.num_args())]
            if isint(n):
                if n <= 0:
                    continue
                p = n - 1
            else:
                co, con = lin(n)
                if con < 1:
                    continue
                p = isub(n, 1)
            if d.kind == 'fold':
                prev = d.f(ex(p), *args)
                val = d.inst(args[1:], [(d.acc, prev), (d.k, ex(p))])
                val = ex(renorm(val))
                facts.append(z3.Implies(ex(cmp_le(0, p)), x == val))
                o2 = [prev]
                self.apps(val, o2, set())
                for y in o2:
                    work.append((y, dep + 1))
            elif d.kind == 'first':
                prev = d.f(ex(p), *args)
                c = ex(renorm(d.inst(args, [(d.k, ex(p))])))
                facts.append(z3.Implies(ex(cmp_le(0, p)), x == z3.If(prev < ex(p), prev, z3.If(c, ex(p), ex(n)))))
                o2 = [prev]
                self.apps(c, o2, set())
                for y in o2:
                    work.append((y, dep + 1))
            else:
                prev = d.f(ex(p), *args)
                c = d.inst(args, [(d.k, ex(p))])
                facts.append(z3.Implies(ex(cmp_le(0, p)), x == prev + z3.If(c, 1, 0)))
                for y, o in prods.get(x.get_id(), ()):
                    facts.append(z3.Implies(ex(cmp_le(0, p)), y == ex(imul(prev, o)) + z3.If(c, ex(o), 0)))
                work.append((prev, dep + 1))
        return facts

    def lemmas(self, st, a, b):
        """try to establish equality of differently shaped folds/ranks occurring in a and b; returns facts"""
        oa, ob, pa, pb = [], [], {}, {}
        self.apps(a, oa, set(), pa)
        self.apps(b, ob, set(), pb)
        facts = []
        for xs, ys, px, py in ((oa, ob, pa, pb), (ob, oa, pb, pa)):
            for x in xs:
                for y in ys:
                    for z, q in py.get(y.get_id(), []) + px.get(('/', x.get_id()), []):
                        f = self.lemma_scaled(st, x, y, q)
                        if f is not None:
                            facts.append(f)
                            if z.decl().eq(DV):
                                facts.append(z3.Implies(ex(cmp_lt(0, q)), z == y))
        for o in (oa, ob):
            for x in o[:]:
                d = self.byname[x.decl().name()]
                if d.kind != 'fold':
                    continue
                n = unint(x.arg(0))
                if not isint(n) and lin(n)[1] >= 1:
                    o.append(d.f(ex(isub(n, 1)), *[x.arg(i) for i in range(1, x.num_args())]))
        for x in oa:
            dx = self.byname[x.decl().name()]
            for y in ob:
                dy = self.byname[y.decl().name()]
                if x.eq(y) or dx.kind != dy.kind or not x.sort().eq(y.sort()):
                    continue
                if dx.kind == 'perm':
                    if (x.arg(1).eq(y.arg(1)) or st.prove(x.arg(1) == y.arg(1))):
                        f = self.lemma_perm(st, dx, x, dy, y)
                        if f is not None:
                            facts.append(f)
                    continue
                if not (x.arg(0).eq(y.arg(0)) or st.prove(x.arg(0) == y.arg(0))):
                    continue
                f = self.lemma(st, dx, x, dy, y)
                if f is not None:
                    facts.extend(f)
        # rank selections
        return facts

    def term_of(self, x, k):
        """the k-th term of a sum of integers, or None"""
        d = self.byname[x.decl().name()]
        if d.kind != 'fold' or not z3.is_int(x):
            return None
        acc = self.E.fresh('acc')
        e = isub(unint(ex(renorm(d.inst([x.arg(i) for i in range(2, x.num_args())], [(d.acc, acc), (d.k, k)])))), acc)
        return None if acc.decl().name() in symbols_of(e) else e

    def lemma_scaled(self, st, x, y, q):
        """x = y * q for the sums x and y when every term of x is q times that of y (by induction on the length)"""
        if not (x.arg(0).eq(y.arg(0)) or st.prove(x.arg(0) == y.arg(0))):
            return None
        if not all(same(unint(z.arg(1)), 0) for z in (x, y)):
            return None
        k = self.E.fresh('k')
        f, g = self.term_of(x, k), self.term_of(y, k)
        if f is None or g is None:
            return None
        s2 = st.clone()
        s2.assume(z3.And(k >= 0, k < x.arg(0)))
        if not s2.prove(cmp_eq(f, imul(g, q))):
            return None
        return x == ex(imul(y, q))

    def lemma_perm(self, st, dx, x, dy, y):
        """equal comparisons give the same sorted order (the sort is a function of its comparisons)"""
        n = x.arg(1)
        i, j = self.E.fresh('k'), self.E.fresh('k')
        s2 = st.clone()
        s2.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
        ax = [x.arg(i2) for i2 in range(2, x.num_args())]
        ay = [y.arg(i2) for i2 in range(2, y.num_args())]
        cx = ex(renorm(dx.inst(ax, [(K, i), (RR, j)])))
        cy = ex(renorm(dy.inst(ay, [(K, i), (RR, j)])))
        if not (cx.eq(cy) or self.E.prove_eq(s2, cx, cy, 1)):
            return None
        k = self.E.fresh('k')
        ax, fx = self.named(ax)
        ay, fy = self.named(ay)
        return z3.And(*fx, *fy, z3.ForAll([k], dx.f(k, n, *ax) == dy.f(k, n, *ay), patterns=[dx.f(k, n, *ax), dy.f(k, n, *ay)]))

    def named(self, args):
        """arguments fit for a pattern: arithmetic and conditional terms are given a name"""
        from execu import first_ite
        out, facts = [], []
        for a in args:
            bad = not (z3.is_app(a) and (a.num_args() == 0 or a.decl().kind() == z3.Z3_OP_UNINTERPRETED)) or first_ite(a) is not None
            if bad:
                c = self.E.fresh('hole', a.sort())
                facts.append(c == a)
                a = c
            out.append(a)
        return out, facts

    def lemma(self, st, dx, x, dy, y):
        n = x.arg(0)
        k = self.E.fresh('k')
        s2 = st.clone()
        s2.assume(z3.And(k >= 0, k < n))
        ax = [x.arg(i) for i in range(1, x.num_args())]
        ay = [y.arg(i) for i in range(1, y.num_args())]
        if dx.kind == 'fold':
            if not (ax[0].eq(ay[0]) or self.E.prove_eq(st, ax[0], ay[0], 0)):
                return None
            acc = self.E.fresh('acc', x.sort())
            bx = ex(renorm(dx.inst(ax[1:], [(dx.acc, acc), (dx.k, k)])))
            by = ex(renorm(dy.inst(ay[1:], [(dy.acc, acc), (dy.k, k)])))
            if bx.eq(by) or self.E.prove_eq(s2, bx, by, 0):
                return [x == y]
            return None
        cx = ex(renorm(dx.inst(ax, [(dx.k, k)])))
        cy = ex(renorm(dy.inst(ay, [(dy.k, k)])))
        if not (cx.eq(cy) or s2.prove(cx == cy)):
            return None
        j = self.E.fresh('k')
        if dx.kind == 'first':
            return [x == y]
        ax, fx = self.named(ax)
        ay, fy = self.named(ay)
        return [x == y, *fx, *fy,
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), dx.f(j, *ax) == dy.f(j, *ay)), patterns=[dx.f(j, *ax)]),
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < x), dx.sel(j, *ax) == dy.sel(j, *ay)), patterns=[dx.sel(j, *ax)]),
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < x), dx.sel(j, *ax) == dy.sel(j, *ay)), patterns=[dy.sel(j, *ay)])]
