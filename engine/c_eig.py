"""Contracts of functional/algebra/eigen: eigenValues, eigenVectors, eigenSystem over the decomposition of one matrix."""
from spec import *
from c_math import item_of
from c_alg import items, choose

U = 'functional/algebra/eigen'
M = r'^df::algebra::'
SC = r'df::Serie const&'
# the code passes the columns of the upper triangle: xx, xy, yy, xz, yz, zz
COLS = {2: [0, 1, 2], 3: [0, 1, 3, 2, 4, 5]}


def value(E, n, k, m):
    """k-th greatest eigen value of the matrix with the column storage m"""
    return E.uf('eigval_%d_%d' % (n, k), *([E.D] * (len(m) + 1)))(*m)


def vector(E, n, k, m):
    """component k % n of the vector of the (k / n)-th greatest eigen value"""
    return E.uf('eigvec_%d_%d' % (n, k), *([E.D] * (len(m) + 1)))(*m)


def matrix_in(n):
    def inputs(c):
        E, st = c.E, c.st
        m = Ptr(st.new_region('mat', 'param', 4 * n * (n + 1)))
        for i in range(n * (n + 1) // 2):
            st.write(m.add(8 * i), z3.Const('m%d' % i, E.D))
        return [m, n, c.obj('eigen_vec', 8 * n * n), c.obj('eigen_val', 8 * n)]
    return inputs


def decomposition(E, fname, log):
    import jacobi
    jacobi.verify(E, fname, matrix_in, log)


@contract('algebra::symmetricEigen', M + r'symmetricEigen\(', inputs=lambda c: [], props=('C14',), unit=U, mode='real', special=decomposition)
def s_one(E, st, a):
    n = unint(a[1])
    if n not in (2, 3):
        raise Fail('order of the matrix')
    m = [st.read(a[0].add(8 * i)) for i in range(n * (n + 1) // 2)]
    if any(not isinstance(x, z3.ExprRef) for x in m):
        raise Fail('matrix given to symmetricEigen')
    for k in range(n * n):
        st.write(a[2].add(8 * k), vector(E, n, k, m))
    for k in range(n):
        st.write(a[3].add(8 * k), value(E, n, k, m))
    return ret(st)


def by_shape(s, two, three, other):
    return (band(cmp_eq(s.dim, 2), cmp_eq(s.isz, 3)), two), (band(cmp_eq(s.dim, 3), cmp_eq(s.isz, 6)), three), (True, other)


def column(E, t, s, q, n):
    return [at(s.v.arr, iadd(imul(q, n * (n + 1) // 2), i), t) for i in COLS[n]]


def values_of(E, t, p, s, n):
    return items(E, t, p, s.count, n, lambda q, r: choose(r, [value(E, n, k, column(E, t, s, q, n)) for k in range(n)]))


def vectors_of(E, t, p, s, n):
    return items(E, t, p, s.count, n * n, lambda q, r: choose(r, [vector(E, n, k, column(E, t, s, q, n)) for k in range(n * n)]))


@contract('algebra::eigenValues', M + r'eigenValues\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C14',), unit=U, sizes={'s': [3, 6]})
def s_values(E, st, a):
    s = ser(st, a[1])
    return cases(st, *by_shape(s, lambda t: values_of(E, t, a[0], s, 2), lambda t: values_of(E, t, a[0], s, 3), lambda t: throw(t, None)))


@contract('algebra::eigenVectors', M + r'eigenVectors\(%s\)$' % SC, inputs=lambda c: [c.ret(40), c.serie('s')], props=('C14',), unit=U, sizes={'s': [3, 6]})
def s_vectors(E, st, a):
    s = ser(st, a[1])
    return cases(st, *by_shape(s, lambda t: vectors_of(E, t, a[0], s, 2), lambda t: vectors_of(E, t, a[0], s, 3), lambda t: throw(t, None)))


@contract('algebra::eigenSystem', M + r'eigenSystem\(%s\)$' % SC, inputs=lambda c: [c.ret(80), c.serie('s')], props=('C14',), unit=U, sizes={'s': [3, 6]},
          pre=lambda E, st, a: [('the vectors can be stored', cmp_lt(imul(ser(st, a[1]).count, 9), 1 << 32))])
def s_system(E, st, a):
    s = ser(st, a[1])

    def both(n):
        return lambda t: [w for o in values_of(E, t, a[0].add(40), s, n) for w in vectors_of(E, o.st, a[0], s, n)]

    def neither(t):
        wrong = band(bor(cmp_eq(s.dim, 2), cmp_eq(s.dim, 3)))
        none = lambda u: [w for o in outserie(E, u, a[0].add(40), empty_vec(E, 'double'), 0, 0) for w in outserie(E, o.st, a[0], empty_vec(E, 'double'), 0, 0)]
        return cases(t, (wrong, lambda u: throw(u, None)), (True, none))
    return cases(st, *by_shape(s, both(2), both(3), neither))
