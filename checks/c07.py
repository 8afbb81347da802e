"""C07: tabulated functions are interpolated on the interval that contains the point."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C07', 'distinct = (scheme, grid kind, table kind, position of the interval); non-trivial = a point strictly inside an interval',
          assumptions=['points are not below the first grid point', 'cubic interpolation presumes equally spaced points'])


def tables(r, nr, N):
    import numpy as np
    k = r.choice(['random', 'spike', 'monotone', 'constant', 'signs', 'int'])
    if k == 'random':
        return k, nr.normal(size=N)
    if k == 'spike':
        f = np.zeros(N)
        f[r.randrange(N)] = 1e6
        return k, f
    if k == 'monotone':
        return k, np.cumsum(nr.uniform(0, 1, size=N)) * 10. ** r.randint(-30, 30)
    if k == 'constant':
        return k, np.full(N, nr.normal())
    if k == 'int':
        return k, nr.randint(-5, 6, size=N)
    return k, np.where(np.arange(N) % 2 == 0, 1., -1.)


def grids(r, nr, N):
    import numpy as np
    k = r.choice(['uniform', 'uniform', 'random', 'log', 'offset'])
    if k == 'uniform':
        return k, np.linspace(0, r.choice([1e-3, 1., 100.]), N)
    if k == 'random':
        return k, np.cumsum(np.concatenate([[0.], nr.uniform(.01, 1., size=N - 1)]))
    if k == 'log':
        return k, (1.2 ** np.arange(N) - 1) * .1
    return k, np.linspace(-3., 7., N)


@S.job()
def linear(ctx):
    import numpy as np
    from common import linear_interpolation
    r, nr = ctx.rng, np.random.RandomState(ctx.np_seed)
    for i in range(20000 if ctx.thorough else 2500):
        N = r.choice([2, 3, 4, 5, 10, 51, 401])
        gk, g = grids(r, nr, N)
        fk, f = tables(r, nr, N)
        fn = ctx.code('linear', linear_interpolation, f, g)
        det = dict(N=N, grid=gk, table=fk)
        for k in set([0, N - 1] + [r.randrange(N) for _ in range(4)]):
            ctx.check(ctx.code('linear', fn, g[k]) == f[k], 'linear:grid point', k=k, **det)
        for j in set([0, N - 2] + [r.randrange(N - 1) for _ in range(6)]):
            for u in (r.random(), .5, 1e-6, 1 - 1e-6):
                x = g[j] + u * (g[j + 1] - g[j])
                if not g[j] < x < g[j + 1]:
                    continue
                u = (x - g[j]) / (g[j + 1] - g[j])
                v = float(ctx.code('linear', fn, x))
                want = float(f[j]) + u * (float(f[j + 1]) - float(f[j]))
                scale = max(abs(float(f[j])), abs(float(f[j + 1])))
                ctx.check(abs(v - want) <= 1e-9 * scale, 'linear:inside', got=v, want=want, j=j, u=u, **det)
                ctx.check(min(f[j], f[j + 1]) - 1e-12 * scale <= v <= max(f[j], f[j + 1]) + 1e-12 * scale, 'linear:overshoot', j=j, u=u, **det)
                ctx.seen('linear', gk, fk, N, 'first' if j == 0 else 'last' if j == N - 2 else 'inner')
        for x in (g[-1] + 1e-9 + abs(g[-1]) * 1e-9, g[-1] + 100):
            ctx.check(ctx.code('linear', fn, x) == f[-1], 'linear:beyond the last point', **det)
        # affine functions are reproduced
        a, b = nr.normal(), nr.normal()
        aff = ctx.code('linear', linear_interpolation, a + b * g, g)
        for _ in range(4):
            x = r.uniform(g[0], g[-1])
            ctx.check(abs(float(aff(x)) - (a + b * x)) <= 1e-9 * (abs(a) + abs(b) * (abs(x) + abs(g[-1]))), 'linear:affine', **det)
        ctx.sample(det)


@S.job()
def cubic(ctx):
    import numpy as np
    from common import cubic_interpolation
    r, nr = ctx.rng, np.random.RandomState(ctx.np_seed)
    for i in range(20000 if ctx.thorough else 2500):
        N = r.choice([2, 3, 4, 5, 6, 10, 51, 201])
        gk, g = grids(r, nr, N)
        fk, f = tables(r, nr, N)
        f = np.asarray(f, dtype=float)
        fn = ctx.code('cubic', cubic_interpolation, f, g)
        det = dict(N=N, grid=gk, table=fk)
        for k in set([0, N - 1] + [r.randrange(N) for _ in range(4)]):
            ctx.check(ctx.code('cubic', fn, g[k]) == f[k], 'cubic:grid point', k=k, **det)
        scale = np.max(np.abs(f)) + 1e-300
        for j in set([0, N - 2] + [r.randrange(N - 1) for _ in range(6)]):
            w = g[j + 1] - g[j]
            for u in (r.random(), .5, 1e-7, 1 - 1e-7):
                x = g[j] + u * w
                if not g[j] < x < g[j + 1]:
                    continue
                v = float(ctx.code('cubic', fn, x))
                loc = np.max(np.abs(f[max(j - 1, 0):j + 3]))
                # continuous at the ends of the interval, local
                if u < 1e-6:
                    ctx.check(abs(v - f[j]) <= 1e-5 * loc, 'cubic:continuity', j=j, got=v, want=f[j], **det)
                elif u > 1 - 1e-6:
                    ctx.check(abs(v - f[j + 1]) <= 1e-5 * loc, 'cubic:continuity', j=j, got=v, want=f[j + 1], **det)
                else:
                    ctx.check(abs(v) <= 1.26 * loc, 'cubic:overshoot', j=j, **det)
                    u = (x - g[j]) / w
                    if j == 0 or j == N - 2:
                        want = f[j] + u * (f[j + 1] - f[j])
                        ctx.check(abs(v - want) <= 1e-9 * loc, 'cubic:linear at the edges', got=v, want=want, j=j, **det)
                    else:
                        y0, y1, y2, y3 = f[j - 1:j + 3]
                        # Catmull-Rom in Hermite form
                        d1, d2 = (y2 - y0) / 2, (y3 - y1) / 2
                        want = ((2 * u ** 3 - 3 * u ** 2 + 1) * y1 + (u ** 3 - 2 * u ** 2 + u) * d1
                                + (-2 * u ** 3 + 3 * u ** 2) * y2 + (u ** 3 - u ** 2) * d2)
                        ctx.check(abs(v - want) <= 1e-9 * loc, 'cubic:inside', got=v, want=want, j=j, **det)
                    ctx.seen('cubic', gk, fk, N, 'first' if j == 0 else 'last' if j == N - 2 else 'inner')
        for x in (g[-1] + 1e-9 + abs(g[-1]) * 1e-9, g[-1] + 100):
            ctx.check(ctx.code('cubic', fn, x) == f[-1], 'cubic:beyond the last point', **det)
        if gk in ('uniform', 'offset') and N >= 5:
            a, b, c = nr.normal(size=3)
            q = ctx.code('cubic', cubic_interpolation, a + b * g + c * g ** 2, g)
            for _ in range(4):
                x = r.uniform(g[1], g[-2])
                m = abs(a) + abs(b * g).max() + abs(c * g ** 2).max()
                ctx.check(abs(float(q(x)) - (a + b * x + c * x * x)) <= 1e-9 * m, 'cubic:parabola', **det)


@S.job()
def heaviside(ctx):
    from common import theta
    for x, want in ((1e-300, 1.), (5, 1.), (0, .5), (0., .5), (-0., .5), (-1e-300, 0.), (-7, 0.), (float('inf'), 1.), (float('-inf'), 0.)):
        ctx.check(ctx.code('theta', theta, x) == want, 'theta', x=x)
        ctx.seen('theta', x)


if __name__ == '__main__':
    main(S)
