"""Contract of random (functional/math): the successive draws of the seeded generator, in the order of the values."""
from spec import *
import lib as _lib


def rand_pre(E, st, a):
    # the distribution asks for min <= max and a finite range; an item has values and the Serie is of a size that can be counted
    return [('itemSize >= 1', cmp_le(0, a[2])), ('itemSize < 2^31', cmp_lt(a[2], 1 << 31)), ('fewer than 2^32 values', cmp_lt(imul(a[1], a[2]), 1 << 32))]


@contract('math::random', r'^df::math::random\(unsigned int, unsigned int, double, double, unsigned int\)$',
          inputs=lambda c: [c.ret(40), c.uint('count'), c.uint('itemSize'), c.dbl('min'), c.dbl('max'), c.uint('seed')],
          pre=rand_pre, props=('C23',), unit='functional/math/random')
def s_random(E, st, a):
    n, z = a[1], a[2]
    draw = lambda k: E.uf('DRAW', I, E.D, E.D, I, E.D)(ex(a[5]), ex(a[3]), ex(a[4]), ex(k))
    return outserie(E, st, a[0], vec(E, imul(n, z), draw), n, z, 3)
