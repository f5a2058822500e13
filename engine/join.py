"""Where paths meet: states that arrive at a loop and differ only in how they got there, or in local objects that are
only destroyed from there on, are made into one. Nothing is known of such an object afterwards.

Registers they do not agree on are dropped (one that is used later would not be followed); the path condition is what
they have in common and the disjunction of the rest."""
import re
import z3
from core import *


def agree(a, b):
    if a is b:
        return True
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.ety != b.ety or not same(a.n, b.n):
            return False
        if a.arr is b.arr:
            return True
        m = z3.Int('m!join')
        try:
            x, y = at(a.arr, m), at(b.arr, m)
        except Fail:
            return False
        return agree(x, y)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.f.keys() == b.f.keys() and all(agree(x, b.f[k]) for k, x in a.f.items())
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and len(a.path) == len(b.path) and all(same(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    return same(a, b)


def paths(sts):
    """the path condition of any of these states"""
    s0 = sts[0]
    n = 0
    while all(len(s.pc) > n and (s.pc[n] is s0.pc[n] or s.pc[n][1].eq(s0.pc[n][1])) for s in sts):
        n += 1
    pc = list(s0.pc[:n])
    rest = [s.pc[n:] for s in sts]
    ids = [{c.get_id() for _, c in r} for r in rest]
    common = [kc for kc in rest[0] if all(kc[1].get_id() in i for i in ids)]
    cid = {c.get_id() for _, c in common}
    pc += common
    pc.append(('fact', z3.Or(*[z3.And(*[c for _, c in r if c.get_id() not in cid]) for r in rest])))
    return pc


def unknown(E, vs):
    v = vs[0]
    if all(isinstance(x, Vec) and x.ety == 'double' for x in vs):
        t = E.fresh('joined', V)
        return Vec(vlen(t), Arr(fn=lambda m: E.vat(t, ex(m))), v.ety, v.es), vlen(t) >= 0
    es = [ex(x) for x in vs if isinstance(x, (int, z3.ExprRef)) and not isinstance(x, bool)]
    if len(es) == len(vs) and all(e.sort().eq(es[0].sort()) for e in es) and not es[0].sort().eq(z3.BoolSort()):
        x = E.fresh('joined', es[0].sort())
        return x, (z3.And(x >= 0, x < (1 << 64)) if es[0].sort().eq(I) else None)
    return None, None


def only_destroyed(fn, lab, reg):
    """no instruction from this block on names the local object, except to destroy it"""
    memo = fn.__dict__.setdefault('destroyed_memo', {})
    if (lab, reg) not in memo:
        pat = re.compile(re.escape(reg) + r'(?![\w.$-])')
        ok = True
        for l in fn.reach(lab) | {lab}:
            for t in fn.raw[l]:
                if pat.search(t) and not re.search(r'call void @_ZN[\w.]*D[012]Ev\(|@llvm\.lifetime\.', t):
                    ok = False
        memo[(lab, reg)] = ok
    return memo[(lab, reg)]


def join(E, items, forget=lambda r: False):
    """[(env, state)] -> (env, state) or None"""
    envs, sts = [e for e, _ in items], [s for _, s in items]
    s0 = sts[0]
    if any(s.exc is not None or s.ghost.get('trace') != s0.ghost.get('trace') for s in sts):
        return None
    for s in sts:
        E.statics_kept(s)
    out = State(E)
    out.pc = paths(sts)
    out.ghost = {k: v for k, v in s0.ghost.items() if all(s.ghost.get(k) is v or s.ghost.get(k) == v for s in sts)}
    lits = [s.ghost.get('lits', ()) for s in sts]
    out.ghost['lits'] = tuple(x for x in lits[0] if all(any(x.eq(y) for y in l) for l in lits))
    st_ = [s.ghost.get('statics', ()) for s in sts]
    out.ghost['statics'] = tuple((k, r) for k, r in st_[0] if all(any(k == k2 and r is r2 for k2, r2 in l) for l in st_))
    if any(r.kind == 'heap' and not r.dead and not all(rid in x.regs for x in sts) for s in sts for rid, r in s.regs.items()):
        return None
    for rid, r in s0.regs.items():
        if not all(rid in s.regs for s in sts):
            continue
        rs = [s.regs[rid] for s in sts]
        if all(x is r for x in rs):
            out.regs[rid] = r
            continue
        if any(x.dead != r.dead or x.zero != r.zero or x.kind != r.kind for x in rs):
            if r.kind != 'stack':
                return None
            continue
        q = r.copy()
        q.cells = {}
        for off, v in r.cells.items():
            vs = [x.cells.get(off) for x in rs]
            if any(x is None for x in vs):
                return None
            if all(agree(v, x) for x in vs):
                q.cells[off] = v
            elif forget(r):
                x, f = unknown(E, vs)
                if x is None:
                    return None
                q.cells[off] = x
                if f is not None:
                    out.assume(f)
            else:
                return None
        out.regs[rid] = q
    env = {}
    for k, v in envs[0].items():
        if k == '#allocas':
            continue
        if all(k in e and agree(v, e[k]) for e in envs):
            env[k] = v
    al = envs[0].get('#allocas', ())
    env['#allocas'] = [x for x in al if all(x in e.get('#allocas', ()) for e in envs)]
    if any(len(e.get('#allocas', ())) != len(env['#allocas']) for e in envs):
        return None
    return env, out


def groups(E, fr, lab, items):
    """[(prev, env, state)] with those joined that can be"""
    out = []
    mine = '%s:' % fr.fn.name[:40]
    forget = lambda r: r.kind == 'stack' and r.name.startswith(mine) and only_destroyed(fr.fn, lab, '%' + r.name[len(mine):])
    for p, e, s in items:
        for g in out:
            if join(E, [(g[0][1], g[0][2]), (e, s)], forget) is not None:
                g.append((p, e, s))
                break
        else:
            out.append([(p, e, s)])
    res = []
    for g in out:
        j = join(E, [(e, s) for _, e, s in g], forget) if len(g) > 1 else None
        res.extend(g if j is None else [(g[0][0], j[0], j[1])])
    return res
