"""C10: momentum grids start at zero, end at the requested momentum, and are strictly ordered with the advertised spacing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C10', 'distinct = (grid type, number of points, explicit or configured size, magnitude of the momentum range); '
                 'non-trivial = a grid all of whose points were compared with the definition')


def common(ctx, g, N, top, tag, **det):
    import numpy as np
    y = g.TEMPLATE
    ctx.check(isinstance(y, np.ndarray) and y.ndim == 1 and len(y) == N == g.MOMENTUM_SAMPLES, tag + ':size', got=len(y), N=N, samples=g.MOMENTUM_SAMPLES, **det)
    ctx.check(y[0] == 0 and g.MIN_MOMENTUM == 0, tag + ':starts at zero', y0=y[0], **det)
    ctx.close(y[-1], top, tag + ':ends at the maximum', rel=1e-12, **det)
    ctx.close(g.MAX_MOMENTUM, top, tag + ':maximum', rel=1e-12, **det)
    ctx.check(tuple(g.BOUNDS) == (g.MIN_MOMENTUM, g.MAX_MOMENTUM), tag + ':bounds', **det)
    ctx.check(np.all(np.isfinite(y)) and np.all(np.diff(y) > 0), tag + ':ordered', **det)


def pick(r, C, settings):
    """ explicit sizes, or sizes from the configuration """
    from common import UNITS
    N, top = r.choice([2, 3, 5, 10, 50, 101, 256, 401]), r.choice([.5, 1., 20., 100., 1234.5])
    how = r.choice(['explicit', 'explicit', 'configured', 'mixed N', 'mixed top', 'positional'])
    env = {}
    if how == 'explicit':
        kw = dict(MOMENTUM_SAMPLES=N, MAX_MOMENTUM=top * UNITS.MeV)
        g = C(**kw)
    elif how == 'positional':
        g = C(N, top * UNITS.MeV)
    elif how == 'configured':
        top = int(top) or 7
        with settings(MOMENTUM_SAMPLES=N, MAX_MOMENTUM_MEV=top):
            g = C()
    elif how == 'mixed N':
        top = 100
        g = C(MOMENTUM_SAMPLES=N)
    else:
        N = 401
        if C.__name__.startswith('Log'):
            N = 60
            with settings(MOMENTUM_SAMPLES=N):
                g = C(MAX_MOMENTUM=top * UNITS.MeV)
        else:
            g = C(MAX_MOMENTUM=top * UNITS.MeV)
    return how, g, N, top * UNITS.MeV


@S.job()
def linear(ctx):
    import numpy as np
    from common import LinearSpacedGrid, UNITS, GRID
    from lib import worlds
    common(ctx, GRID, 401, 100 * UNITS.MeV, 'default')
    for i in range(1500 if ctx.thorough else 300):
        how, g, N, top = ctx.code('linear', pick, ctx.rng, LinearSpacedGrid, worlds.settings)
        common(ctx, g, N, top, 'linear', how=how)
        ctx.check(np.allclose(g.TEMPLATE, top * np.arange(N) / (N - 1.), rtol=1e-10, atol=0), 'linear:spacing', N=N, how=how)
        ctx.seen('linear', how, N, top)
        ctx.sample(dict(kind='linear', how=how, N=N, top=top))


@S.job()
def logarithmic(ctx):
    import numpy as np
    from common import LogSpacedGrid
    from lib import worlds
    for i in range(1500 if ctx.thorough else 300):
        how, g, N, top = ctx.code('log', pick, ctx.rng, LogSpacedGrid, worlds.settings)
        common(ctx, g, N, top, 'log', how=how)
        d = np.diff(g.TEMPLATE)
        if N > 2:
            ctx.check(np.allclose(d[1:] / d[:-1], 1.2, rtol=1e-5), 'log:every interval is 1.2 times the previous one', N=N, how=how)
        ctx.seen('log', how, N, top)


@S.job()
def heuristic(ctx):
    """ grid of the decay products of a particle with mass M and lifetime tau: each spacing is the thermal width """
    import numpy as np
    from common import HeuristicGrid, UNITS
    r = ctx.rng
    for i in range(300 if ctx.thorough else 60):
        M = float(np.exp(r.uniform(np.log(5), np.log(800)))) * UNITS.MeV
        tau = float(np.exp(r.uniform(np.log(1e-3), np.log(5)))) * UNITS.s
        aT = r.choice([1., 1., 1.4, .7]) * UNITS.MeV
        b, c = r.choice([(.8, 200), (.8, 200), (.5, 100), (3., 300)])
        kw = {}
        if (aT, b, c) != (UNITS.MeV, .8, 200) or r.random() < .5:
            kw = dict(aT=aT, b=b, c=c)
        g = ctx.code('heuristic', HeuristicGrid, M, tau, **kw)
        y = g.TEMPLATE
        a_max = np.sqrt(2 * (.5 / UNITS.s) * b * tau)
        top = a_max * (M + np.sqrt(M * aT / a_max))
        det = dict(M=M / UNITS.MeV, tau=tau / UNITS.s, aT=aT, b=b, c=c, points=len(y))
        common(ctx, g, len(y), top, 'heuristic', **det)
        # temperature at which a product of momentum y/a, with y = aT/T (M/2 - sqrt(M T)/c), is emitted; solved independently
        from scipy.optimize import brentq
        for k in sorted({len(y) - 1, 1, 2, len(y) // 2, r.randrange(1, len(y))}):
            if k < 1 or k >= len(y):
                continue
            G = y[k]
            F = lambda lT: aT / np.exp(lT) * (M / 2 - np.sqrt(M * np.exp(lT)) / c) - G
            lT = brentq(F, np.log(M * 1e-14), np.log(M * c ** 2 / 4), xtol=1e-13, rtol=1e-13)
            T = np.exp(lT)
            want = max(G - np.sqrt(M * T / c) * aT / T, 0)
            ctx.close(y[k - 1], want, 'heuristic:spacing', rel=1e-6, abs_=1e-6 * G, k=k, **det)
        ctx.seen('heuristic', int(np.log10(M / UNITS.MeV) * 2), int(np.log10(tau / UNITS.s)), b, c)


@S.job(env=dict(MOMENTUM_SAMPLES=77, MAX_MOMENTUM_MEV=33))
def configured_default(ctx):
    """ the shared default grid and species without a grid of their own follow the configuration """
    import numpy as np
    from common import GRID, UNITS
    from lib import worlds
    common(ctx, GRID, 77, 33 * UNITS.MeV, 'configured')
    p = worlds.spec_particle(0, 2, 1., 1)
    ctx.check(p.grid is GRID and len(p._distribution) == 77 and len(p.collision_integral) == 77, 'configured:species')
    from common import LinearSpacedGrid
    g = LinearSpacedGrid(MOMENTUM_SAMPLES=9, MAX_MOMENTUM=4.)
    q = worlds.spec_particle(0, 2, 1., 1, grid=g)
    ctx.check(q.grid is g and len(q._distribution) == 9 and len(q.collision_integral) == 9, 'species with own grid')
    q.set_params(worlds.free_params(UNITS.MeV))
    ctx.check(len(q._distribution) == 9 and np.allclose(q.data['distribution'].header, g.TEMPLATE), 'species history grid')
    ctx.seen('configured')


@S.job()
def other_grid(ctx):
    """ a species may be given another grid after it was made: everything about it then uses that one """
    import numpy as np
    from common import LinearSpacedGrid, LogSpacedGrid, HeuristicGrid, Params, UNITS
    from evolution import Universe
    from particles import Particle
    from lib import worlds
    from library.SM import particles as SMP
    r = ctx.rng
    n = 0
    for case in range(60 if ctx.thorough else 16):
        def grid():
            k = r.choice('lgh')
            N, top = r.randint(5, 90), r.uniform(10, 60) * UNITS.MeV
            return HeuristicGrid(r.uniform(20, 200) * UNITS.MeV, r.uniform(.01, .5) * UNITS.s) if k == 'h' else (LinearSpacedGrid if k == 'l' else LogSpacedGrid)(MOMENTUM_SAMPLES=N, MAX_MOMENTUM=top)
        T = 10 ** r.uniform(-.5, .8) * UNITS.MeV
        dyn = r.random() < .5
        p = Particle(name='X', symbol='X', mass=r.choice([0., r.uniform(.1, 20)]) * UNITS.MeV, statistics=SMP.leptons.electron['statistics'], dof=2,
                     decoupling_temperature=T * r.choice([.95, 2.]), thermal_dyn=dyn, Q=0, **({} if r.random() < .5 else dict(grid=grid())))
        late = r.random() < .3
        other = Particle(name='Y', symbol='Y', decoupling_temperature=2 * T)
        ref = other.grid.TEMPLATE.copy()
        grids = [grid() for _ in range(r.choice([1, 1, 2]))]
        u = Universe(params=Params(T=T, dy=.02))
        ctx.code('set_grid', lambda: [p.set_grid(g) for g in grids])
        with worlds.quiet():
            ctx.code('adding a species with another grid', lambda: u.add_particles([Particle(**SMP.photon), p, other]))
            if late:
                grids.append(grid())
                ctx.code('set_grid', lambda: p.set_grid(grids[-1]))
            ctx.code('evolving a species with another grid', lambda: u.evolve(T * .9, export=False))
        g = grids[-1]
        N = len(g.TEMPLATE)
        det = dict(case=case, N=N, late=late, thermal=dyn)
        ctx.check(p.grid is g and len(p._distribution) == N and len(p.collision_integral) == N, 'another grid:species', **det)
        for k in ('distribution', 'collision_integral'):
            rec = p.data[k]
            ctx.check(np.array_equal(rec.header, g.TEMPLATE) and all(len(row) == N for row in rec), 'another grid:records', which=k, **det)
        ctx.check(late or len(p.data['distribution']) > 0, 'another grid:nothing recorded', **det)
        if not late:
            ctx.check(np.array_equal(p.data['distribution'][-1], p._distribution), 'another grid:last record', **det)
        ctx.check(np.array_equal(other.grid.TEMPLATE, ref) and np.array_equal(other.data['distribution'].header, ref), 'another grid:grid of another species changed', **det)
        n += 1
        ctx.seen('other grid', type(g).__name__, N, late, dyn)
    ctx.require('species', n, 10)


if __name__ == '__main__':
    main(S)
