"""C14: the reduced angular kernels of the four-particle collision integral equal the angular integrals that define them."""
import itertools
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C14', 'distinct = (ordering region of the momenta, order of the matrix element, sides, masslessness, term); non-trivial = a kernel evaluation compared with the '
                 'exact angular integral',
          assumptions=['comparisons are absolute on the scale of the largest momentum/energy (the closed forms cancel)'])


# Four vectors q_i of given lengths with sum zero: the angular measure is uniform in Q = |q_i + q_j|, between
# max(|p_i - p_j|, |p_k - p_l|) and min(p_i + p_j, p_k + p_l).  All kernels are polynomials in Q^2 integrated over it.
def poly_int(c, lo, hi):
    return sum(a / (n + 1) * (hi ** (n + 1) - lo ** (n + 1)) for n, a in enumerate(c))


def mul(a, b):
    out = [0.] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def window(p, i, j, k, l):
    return max(abs(p[i] - p[j]), abs(p[k] - p[l])), min(p[i] + p[j], p[k] + p[l])


def dot(E, s, p, i, j):
    """ E_i E_j - p_i.p_j as a polynomial in Q """
    return [E[i] * E[j] + s[i] * s[j] * (p[i] ** 2 + p[j] ** 2) / 2, 0., -s[i] * s[j] / 2.]


def exact(p, E, m, K1, K2, order, s):
    i, j, k, l = order
    lo, hi = window(p, i, j, k, l)
    if hi <= lo:
        return 0.
    a, b = dot(E, s, p, i, j), dot(E, s, p, k, l)
    return .5 * (K1 * poly_int(mul(a, b), lo, hi) + K2 * m[i] * m[j] * poly_int(b, lo, hi))


def exact_zero(p, E, m, K1, K2, order, s):
    """ limit of the kernel over p0 E0 for p0 -> 0 (E0 -> m0): the other three momenta form a triangle """
    i, j, k, l = order
    y = sorted(p[1:])
    if y[2] > y[0] + y[1]:
        return 0.

    def pair(a, b):     # exact scalar product of two of the three triangle sides, over nothing
        c = ({1, 2, 3} - {a, b}).pop()
        return E[a] * E[b] - s[a] * s[b] * (p[c] ** 2 - p[a] ** 2 - p[b] ** 2) / 2
    first = 0 in (i, j)
    o = max(i, j) if first else max(k, l)          # partner of particle 0
    a, b = (k, l) if first else (i, j)
    r = K1 * E[o] * pair(a, b)
    if first:
        r += K2 * (m[o] * pair(a, b) if m[0] else 0.)
    else:
        r += K2 * m[a] * m[b] * E[o]
    return r


def momenta(r, n=4):
    """ lengths in many configurations: generic, hierarchical, degenerate, on the boundary of the allowed region """
    scale = 10 ** r.uniform(-3, 3)
    kind = r.choice(['generic', 'generic', 'hierarchy', 'equal', 'pairs', 'boundary', 'outside', 'near', 'zero'])
    if kind == 'generic':
        p = [r.random() for _ in range(n)]
    elif kind == 'hierarchy':
        p = [10 ** r.uniform(-4, 0) for _ in range(n)]
    elif kind == 'equal':
        p = [1.] * n
    elif kind == 'pairs':
        a, b = r.random(), r.random()
        p = ([a, a, b, b] if n == 4 else [a, a, b])
    elif kind in ('boundary', 'near', 'outside'):
        q = [r.random() for _ in range(n - 1)]
        big = sum(q) * {'boundary': 1., 'near': 1 - 10 ** r.uniform(-8, -2), 'outside': 1 + 10 ** r.uniform(-6, 1)}[kind]
        p = q + [big]
    else:
        p = [r.random() for _ in range(n)]
        p[r.randrange(n)] = 0.
    r.shuffle(p)
    return [x * scale for x in p], kind


def region(p):
    a, b = max(p[:2]), min(p[:2])
    c, d = max(p[2:]), min(p[2:])
    return (a > b + c + d, c > a + b + d, a + b >= c + d, a + d >= b + c)


def d_functions(ctx):
    from interactions.four_particle.cpp import integral as I
    r = ctx.rng
    for _ in range(200000 if ctx.thorough else 30000):
        p, kind = momenta(r)
        top = max(p) or 1.
        lo, hi = window(p, 0, 1, 2, 3)
        ok = hi > lo
        d1 = .5 * (hi - lo) if ok else 0.
        half = [(p[2] ** 2 + p[3] ** 2) / 2, 0., -.5]
        half1 = [(p[0] ** 2 + p[1] ** 2) / 2, 0., -.5]
        d2 = .5 * poly_int(half, lo, hi) if ok else 0.
        d3 = .5 * poly_int(mul(half, half1), lo, hi) if ok else 0.
        for name, n, want in (('D1', 1, d1), ('D2', 3, d2), ('D3', 5, d3)):
            got = getattr(I, name)(*p)
            ctx.check(math.isfinite(got) and abs(got - want) <= 2e-13 * top ** n, name, p=p, got=got, want=want, kind=kind)
            ctx.seen(name, kind, region(p))
    ctx.require('regions', len(ctx.states), 30)


def matrix_elements(ctx):
    from interactions.four_particle.cpp import integral as I
    r = ctx.rng
    orders = list(itertools.permutations(range(4)))
    sides = [(-1, 1, 1, 1), (-1, -1, 1, 1), (-1, -1, -1, 1)]
    for _ in range(100000 if ctx.thorough else 16000):
        p, kind = momenta(r)
        top = max(p) or 1.
        m = [r.choice([0., 0., r.random() * top, r.random() * 10 * top]) for _ in range(4)]
        E = [math.hypot(a, b) for a, b in zip(p, m)]
        order, s = r.choice(orders), r.choice(sides)
        K1, K2 = r.choice([(1., 0.), (0., 1.), (r.uniform(.1, 4), r.uniform(-2, 2)), (0., 0.)])
        want = exact(p, E, m, K1, K2, order, s)
        got = I.D(p, E, m, K1, K2, order, s)
        scale = max(top, *m)
        ctx.check(math.isfinite(got) and abs(got - want) <= 1e-12 * (abs(K1) + abs(K2)) * scale ** 4 * top, 'D', p=p, m=m, order=order, sides=s, K=(K1, K2), got=got, want=want)
        ctx.seen('D', order, s, K1 != 0, K2 != 0)
        # positivity: the product of scalar products of physical momenta is never negative
        # (energies have to be conserved for that; construct such a point from the same numbers)
    ctx.require('orders', len(ctx.states), 200)


def zero_momentum(ctx):
    """ the expression used at vanishing first momentum is the limit of the general one """
    from interactions.four_particle.cpp import integral as I
    r = ctx.rng
    orders = list(itertools.permutations(range(4)))
    sides = [(-1, 1, 1, 1), (-1, -1, 1, 1), (-1, -1, -1, 1)]
    for _ in range(60000 if ctx.thorough else 12000):
        q, kind = momenta(r, 3)
        y = sorted(q)
        top = y[2] or 1.
        if y[0] < 1e-6 * top or abs(y[2] - y[0] - y[1]) < 1e-9 * top:
            continue                # boundary of the triangle: either one-sided value is fine
        p = [0.] + q
        m = [r.choice([0., r.random() * top, r.random() * 10 * top]) for _ in range(4)]
        E = [math.hypot(a, b) for a, b in zip(p, m)]
        order, s = r.choice(orders), r.choice(sides)
        K1, K2 = r.choice([(1., 0.), (0., 1.), (r.uniform(.1, 4), r.uniform(-2, 2))])
        want = exact_zero(p, E, m, K1, K2, order, s)
        got = I.Db(p, E, m, K1, K2, order, s)
        scale = max(top, *m)
        ctx.check(math.isfinite(got) and abs(got - want) <= 1e-12 * (abs(K1) + abs(K2)) * scale ** 3, 'Db', p=p, m=m, order=order, sides=s, K=(K1, K2), got=got, want=want)
        # and the general kernel approaches it (distance to the triangle boundary and p0 both matter)
        gap = min(abs(y[2] - y[0] - y[1]), y[0])
        p0 = 1e-4 * gap
        e0 = math.hypot(p0, m[0])
        near = I.D([p0] + q, [e0] + E[1:], m, K1, K2, order, s) / (p0 * e0)
        # rounding of the general kernel is amplified by 1 / (p0 e0)
        tol = (abs(K1) + abs(K2)) * (3e-3 * scale ** 3 + 1e-13 * scale ** 4 * top / (p0 * e0))
        if tol < .2 * (abs(K1) + abs(K2)) * scale ** 3:
            ctx.check(abs(near - got) <= tol, 'continuity at vanishing momentum', p=p, m=m, order=order, sides=s, K=(K1, K2), got=got, near=near, tol=tol)
            ctx.seen('limit', order, s, K2 != 0, m[0] == 0)
        b1, b2 = I.Db1(*q), I.Db2(*q)
        inside = y[2] < y[0] + y[1]
        ctx.check(b1 == (1. if inside else 0.), 'Db1', p=q, got=b1)
        ctx.check(abs(b2 - ((q[1] ** 2 + q[2] ** 2 - q[0] ** 2) / 2 if inside else 0.)) <= 1e-12 * top ** 2, 'Db2', p=q, got=b2)
        ctx.seen('Db', order, s, K2 != 0, m[0] == 0, inside)
    ctx.require('limits', len(ctx.states), 200)


for _f in (d_functions, matrix_elements, zero_momentum):
    S.job(name=_f.__name__)(_f)
    S.job(name=_f.__name__ + '_strict', variant='strict')(_f)


if __name__ == '__main__':
    main(S)
