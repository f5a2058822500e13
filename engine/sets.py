"""std::set of strings, as what it says about one arbitrary string PROBE: a set is the formula `PROBE is in it`.

Two sets are shown equal by showing these formulas equivalent with nothing assumed about PROBE; nothing but the
formula may be learnt from a set (no branch of the code may look into one), which is why size(), find() and the like
have no contract. Its elements in order are functions of the set (SET_SIZE, SET_AT), so equal sets give equal lists."""
from core import *
from fold import K

PROBE = z3.Const('any_string', STR)


def get(E, st, p):
    v = st.read(p)
    if v is DEAD or not isinstance(v, (bool, z3.BoolRef)):
        E.oblig(st, False, 'memory', 'use of an uninitialised or destroyed set')
        raise Fail('set')
    return v


def elements(E, b, ety, es):
    """the elements of the set in order"""
    n = E.uf('SET_SIZE', z3.BoolSort(), I)(ex(b))
    at_ = E.uf('SET_AT', z3.BoolSort(), I, STR)
    return Vec(n, Arr(fn=lambda k: Rec({0: at_(ex(b), ex(k))})), ety, es)


def is_iterator(x):
    return isinstance(x, Opaque) and x.tag in ('set.begin', 'set.end')


def range_vec(E, st, a, b, ety, es):
    if not (is_iterator(a) and is_iterator(b)) or (a.tag, b.tag) != ('set.begin', 'set.end') or a.data.rid != b.data.rid or a.data.path != b.data.path:
        raise Fail('a part of a set')
    v = elements(E, get(E, st, a.data), ety, es)
    st.assume(v.n >= 0)
    st.assume(v.n < (1 << 59))
    return v


def member(E, st, x):
    return E.lib.streq(E, st, PROBE, x)


def call(E, fr, st, q, params, targs, args, rt):
    from execu import Out
    m, p = q[2], args[0]
    done = lambda r=None: [Out('ret', r, st)]
    if not q[1].startswith('set<std::basic_string<char'):
        raise Fail('no contract for ' + q[1][:60])
    if m == 'set' and (not params or params[0] == ''):
        st.write(p, False)
        return done()
    if m == '~set':
        get(E, st, p)
        st.write(p, DEAD)
        return done()
    if m == 'clear':
        get(E, st, p)
        st.write(p, False)
        return done()
    if m in ('begin', 'end', 'cbegin', 'cend'):
        get(E, st, p)
        return done(Opaque('set.' + m.lstrip('c'), p))
    if m == 'insert' and len(params) == 1 and params[0].startswith('std::basic_string'):
        b = get(E, st, p)
        x = st.read(args[1])
        st.write(p, bor(b, member(E, st, x)))
        if params[0].endswith('&&'):
            st.write(args[1], E.fresh('moved', STR))
        return done(Agg([Opaque('set.where'), E.fresh('new', z3.BoolSort())]))
    if m == 'insert' and len(params) == 2 and not is_iterator(args[1]):
        b = get(E, st, p)
        v = E.lib.range_vec(E, st, args[1], args[2], E.lib.elemtype('std::' + q[1]))
        if isint(v.n):
            hit = bor(*[member(E, st, at(v.arr, k, st).f[0]) for k in range(v.n)]) if v.n else False
        else:
            hit = cmp_lt(E.folds.first(ex(member(E, st, at(v.arr, K).f[0])), v.n)[0], v.n)
        st.write(p, bor(b, hit))
        return done()
    raise Fail('no contract for std::set::' + m)
