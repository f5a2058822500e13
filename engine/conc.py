"""std::async and std::future: a task is a call of its closure; the future holds its result or its failure.

The contract is valid for every schedule because of the two obligations it generates: the task writes nothing but
its own closure and its own objects, and what its closure refers to is unchanged when the result is taken."""
import z3
from core import *
from execu import Out
from lib import obj_cells, split_top, sz_of
import loops

FAILED, VAL, COUNT, DIM, ISZ, SHARES, TAKEN = 0, 1, 2, 3, 4, 5, 6
SZ_FUTURE = 16


def closure_type(dem):
    k = dem.index('std::async<') + len('std::async<')
    d, i = 1, k
    while d:
        c = dem[i]
        if c in '<({':
            d += 1
        elif c in '>)}':
            if not (c == '>' and dem[i - 1] == '-'):
                d -= 1
        i += 1
    return split_top(dem[k:i - 1], ',')[0].strip()


def pointers(v, out):
    if isinstance(v, Ptr) and v.rid is not None:
        out.add(v.rid)
    elif isinstance(v, Rec):
        for x in v.f.values():
            pointers(x, out)
    elif isinstance(v, Vec) and v.ety != 'double':
        raise Fail('closure with a container of %s' % v.ety)
    return out


def async_call(E, fr, st, name, dem, args):
    T = closure_type(dem)
    ops = [f for f in E.prog.where if E.prog.dem[f].startswith(T + '::operator()()')]
    if len(ops) != 1:
        raise Fail('closure of std::async not found: %s' % T[:80])
    sret, clo = args[0], args[-1]
    base = len(st.pc)
    w = st.clone()
    own = w.new_region('task', 'local', 1 << 20)
    cells = obj_cells(E, st, clo, 1 << 20) if len(clo.path) == 1 else None
    if cells is None:
        raise Fail('closure inside a container')
    for k, v in cells.items():
        w.wreg(own).cells[k] = v
    res = w.new_region('task result', 'local', 40)
    before = dict(w.regs)
    outs = E.run_function(ops[0], [Ptr(res), Ptr(own)], w, fr.depth + 1)
    for o in outs:
        for rid, r in before.items():
            if rid in (own, res) or r.kind in ('opaque', 'const'):
                continue
            if o.st.regs.get(rid) is not r:
                E.oblig(o.st, False, 'schedule', 'a task writes only its own objects (%s)' % r.name)
    shared = set()
    for v in cells.values():
        pointers(v, shared)
    keep = tuple((rid, st.regs[rid]) for rid in sorted(shared) if rid in st.regs)
    paths, fails = [], []
    for o in outs:
        cs = []
        for k, c in o.st.pc[base:]:
            if k == 'br':
                cs.extend(loops.flat_and(c))
        if o.kind == 'throw':
            fails.append((cs, None))
            continue
        f = {}
        eqs = [c for c in cs]
        for k in (0, 24, 28, 32):
            f[k] = o.st.read(Ptr(res).add(k))
        # equalities checked by the task are used to simplify its result
        pairs = []
        for c in cs:
            p = solved_for(c)
            if p is not None:
                pairs.append(p)
        if pairs:
            f = {k: subst(v, pairs) for k, v in f.items()}
        paths.append((cs, f))
        g = band(*cs)
        for k, c in o.st.pc[base:]:
            if k != 'br':
                st.assume(z3.Implies(ex(g), c) if g is not True else c)
    allp = [(cs, 0) for cs, _ in paths] + [(cs, 1) for cs, _ in fails]
    if not paths:
        fut = {FAILED: 1, VAL: Vec(0, Arr(fn=lambda m: E.dconst(0.0)), 'double', 8), COUNT: 0, DIM: 0, ISZ: 0}
    else:
        failed = 0 if not fails else loops.merge_paths(allp)
        m = lambda k: loops.merge_paths([(cs, f[k]) for cs, f in paths]) if len(paths) > 1 else paths[0][1][k]
        fut = {FAILED: failed, VAL: m(0), COUNT: m(24), DIM: m(28), ISZ: m(32)}
    key = tuple((rid, id(r)) for rid, r in keep)
    tab = E.__dict__.setdefault('sharestab', {})
    tab.setdefault(key, (Opaque('shares', keep), keep))
    fut[SHARES] = tab[key][0]
    fut[TAKEN] = 0
    for k, v in fut.items():
        st.write(sret.add(k), v)
    return [Out('ret', None, st)]


def solved_for(c):
    """c: x = e with x an application of an uninterpreted function"""
    nc = loops.norm_cond(c)
    if nc is None or nc[0] != 'eq0' or isint(nc[1]):
        return None
    d, con = lin(nc[1])
    for i, (a, co) in d.items():
        if co in (1, -1) and z3.is_app(a) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name().startswith('cb_'):
            rest = unlin({j: z for j, z in d.items() if j != i}, con)
            if a.decl().name() in loops.symbols(rest):
                continue
            return a, ex(iscale(rest, -co))
    return None


def future(E, fr, st, q, args):
    m = q[-1]
    this = args[0]
    if m == 'get':
        sret, this = args[0], args[1]
        f = {k: st.read(this.add(k)) for k in (FAILED, VAL, COUNT, DIM, ISZ, SHARES, TAKEN)}
        if f[FAILED] is None:
            E.oblig(st, False, 'memory', 'get() of a future without a task')
            raise Fail('empty future')
        E.oblig(st, cmp_eq(f[TAKEN], 0), 'memory', 'the result of a future is taken once')
        st.write(this.add(TAKEN), 1)
        sh = f[SHARES]
        if isinstance(sh, Opaque) and sh.tag == 'shares':
            for rid, r in sh.data:
                if st.regs.get(rid) is not r:
                    E.oblig(st, False, 'schedule', 'what a task refers to does not change before its result is taken (%s)' % r.name)
        else:
            E.oblig(st, False, 'schedule', 'what a task refers to is known')
        out = []
        bad = cmp_eq(f[FAILED], 1)
        if bad is not False and st.feasible(bad):
            s2 = st.clone()
            s2.assume(bad, 'br')
            out.append(Out('throw', '_ZTISt16invalid_argument', s2))
        if bad is not True and st.feasible(bnot(bad)):
            st.assume(bnot(bad), 'br')
            for k, x in ((0, VAL), (24, COUNT), (28, DIM), (32, ISZ)):
                st.write(sret.add(k), f[x])
            out.append(Out('ret', None, st))
        return out
    if m == 'future':
        if len(args) == 2:
            for k in (FAILED, VAL, COUNT, DIM, ISZ, SHARES, TAKEN):
                st.write(this.add(k), st.read(args[1].add(k)))
        return [Out('ret', None, st)]
    if m in ('wait', '~future', '~__basic_future'):
        return [Out('ret', None, st)]
    if m == 'valid':
        return [Out('ret', cmp_eq(st.read(this.add(TAKEN)), 0), st)]
    if m == 'operator=' and len(args) == 2:
        for k in (FAILED, VAL, COUNT, DIM, ISZ, SHARES, TAKEN):
            st.write(this.add(k), st.read(args[1].add(k)))
        return [Out('ret', this, st)]
    return NotImplemented
