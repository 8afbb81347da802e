"""C06: between its grid points a distribution function is interpolated without inventing particles."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C06', 'distinct = (implementation, statistics, mass class, grid type and size, shape of the distribution, location of the momentum); '
                 'non-trivial = an evaluation compared with the neighbouring samples or the exact occupation number',
          assumptions=['fermion occupation numbers are below one'])


class Host(object):
    """ the attributes of a species that the Python interpolation reads """
    def __init__(self, grid, f, m, eta, T, eq):
        import numpy as np
        self.grid, self._distribution, self.m, self.eta, self.aT, self.in_equilibrium = grid, f, m, eta, T, eq
        own = 1.3 * m + .7 * T  # decoupled species are interpolated with a frozen mass that is not their present one
        self.conformal_mass = own
        self.conformal_energy = lambda y, conformal_mass=None: np.sqrt(y ** 2 + (own if conformal_mass is None else conformal_mass) ** 2)


def implementations():
    from interactions.four_particle.cpp import integral as i4
    from interactions.three_particle.cpp import integral as i3
    from common import interp
    import numpy as np

    def nat(mod):
        def f(grid, dist, p, m, eta, T, eq):
            return mod.distribution_interpolation(grid.TEMPLATE, dist, p, m, eta, T, eq)
        return f

    def py(grid, dist, p, m, eta, T, eq):
        h = Host(grid, dist, m, eta, T, eq)
        with np.errstate(all='ignore'):
            return float(np.ravel(interp(h, p, m))[0])
    return dict(four=nat(i4), three=nat(i3), python=py)


def grids(r):
    from common import UNITS, LinearSpacedGrid, LogSpacedGrid, HeuristicGrid
    k = r.choice(['linear', 'linear', 'log', 'heuristic', 'tiny'])
    top = r.choice([5., 20., 100., 400.]) * UNITS.MeV
    if k == 'linear':
        return k, LinearSpacedGrid(MOMENTUM_SAMPLES=r.choice([10, 33, 100, 401]), MAX_MOMENTUM=top)
    if k == 'log':
        return k, LogSpacedGrid(MOMENTUM_SAMPLES=r.choice([10, 33, 60]), MAX_MOMENTUM=top)
    if k == 'tiny':
        return k, LinearSpacedGrid(MOMENTUM_SAMPLES=r.choice([2, 3, 4]), MAX_MOMENTUM=top)
    return k, HeuristicGrid(r.uniform(10, 300) * UNITS.MeV, r.uniform(.01, 1.) * UNITS.s)


def samples(r, nr, grid, eta, T):
    """ sampled distributions of any shape """
    import numpy as np
    n = grid.MOMENTUM_SAMPLES
    y = grid.TEMPLATE
    k = r.choice(['random', 'random', 'zeros', 'steps', 'tiny', 'thermal', 'full'])
    if k == 'random':
        f = nr.uniform(1e-12, .999 if eta > 0 else 5., size=n)
    elif k == 'zeros':
        f = nr.uniform(1e-6, .99, size=n)
        f[nr.uniform(size=n) < .4] = 0.
        if r.random() < .3:
            f[n // 2:] = 0.
    elif k == 'steps':
        f = np.where(np.arange(n) % 2 == 0, .95, 1e-9)
    elif k == 'tiny':
        f = 10. ** nr.uniform(-290, -20, size=n)
    elif k == 'full':
        f = 1 - 10. ** nr.uniform(-12, -2, size=n)
    else:
        f = np.exp(-np.minimum(y / T, 600.)) * .9
    return k, f


def run(ctx, n):
    import numpy as np
    from common import UNITS
    r = ctx.rng
    nr = np.random.RandomState(ctx.np_seed)
    MeV = UNITS.MeV
    impl = implementations()
    for i in range(n):
        gk, grid = grids(r)
        y = grid.TEMPLATE
        N = len(y)
        eta = r.choice([1, -1])
        T = r.uniform(.3, 3.) * MeV
        m = r.choice([0., 0., r.uniform(.01, 5.), r.uniform(5., 300.)]) * MeV
        sk, f = samples(r, nr, grid, eta, T)
        det = dict(grid=gk, N=N, eta=eta, m=m, shape=sk)
        E = lambda p: np.sqrt(p ** 2 + m ** 2)
        ks = sorted(set([0, N - 1, N // 2] + [r.randrange(N) for _ in range(5)]))
        js = sorted(set([0, N - 2] + [r.randrange(N - 1) for _ in range(6)]))
        inner = []
        for j in js:
            for u in (r.random(), 1e-9, 1 - 1e-9, .5):
                p = y[j] + u * (y[j + 1] - y[j])
                if y[j] < p < y[j + 1]:
                    inner.append((j, p))
        above = [y[-1] * s for s in (1 + 1e-12, 1.01, 1.5, 4.)]
        for name, fn in impl.items():
            for k in ks:
                v = fn(grid, f, float(y[k]), m, eta, T, False)
                ctx.check(v == f[k], name + ':grid point', got=float(v), want=f[k], k=k, **det)
            for j, p in inner:
                v = float(fn(grid, f, float(p), m, eta, T, False))
                lo, hi = min(f[j], f[j + 1]), max(f[j], f[j + 1])
                # differences of nearly equal energies and logarithms of occupation numbers limit the accuracy
                slack = 1e-6 * hi + (1e-5 if sk == 'full' else 0)
                if lo == 0.:
                    ctx.check(v == 0. or 0 <= v <= hi * (1 + 1e-6), name + ':next to an empty sample', got=v, hi=hi, **det)
                else:
                    ctx.check(np.isfinite(v) and lo - slack - 1e-300 <= v <= hi + slack, name + ':between samples', got=v, lo=lo, hi=hi,
                              u=(p - y[j]) / (y[j + 1] - y[j]), j=j, **det)
            for p in above:
                v = float(fn(grid, f, float(p), m, eta, T, False))
                want = f[-1] * np.exp((E(y[-1]) - E(p)) / T)
                ctx.close(v, want, name + ':tail', rel=1e-9, abs_=1e-300, **det)
            # below the grid: refused, not invented
            try:
                v = fn(grid, f, -1e-3 * MeV, m, eta, T, False)
                ctx.check(False, name + ':below the grid', got=float(v), **det)
            except Exception:
                ctx.check(True, name + ':below the grid')
            ctx.seen(name, eta, 'massless' if m == 0 else 'light' if m < 5 * MeV else 'heavy', gk, sk)
        # --- any thermal shape is reproduced exactly, whatever its temperature and chemical potential
        T2 = T * r.uniform(.4, 2.5)
        mu = r.uniform(-3, -.05) * T2 if eta < 0 else r.uniform(-3, 3) * T2
        occ = lambda p: 1 / (np.exp(np.minimum((E(p) - mu) / T2, 700.)) + eta)
        g = occ(y)
        for name, fn in impl.items():
            for j, p in inner:
                if (E(y[j + 1]) - E(y[j])) < 1e-7 * E(y[j]) or g[j + 1] < 1e-250:
                    continue
                v = float(fn(grid, g, float(p), m, eta, T, False))
                ctx.close(v, occ(p), name + ':thermal', rel=2e-6, mu=mu / T2, T2=T2, **det)
            # --- species in equilibrium are analytic everywhere
            for p in [0., y[1], y[-1] * 2] + [q for _, q in inner[:4]]:
                if eta < 0 and E(p) < 1e-6 * T:
                    continue
                v = float(fn(grid, f, float(p), m, eta, T, True))
                ctx.close(v, 1 / (np.exp(E(p) / T) + eta) if E(p) / T < 700 else 0., name + ':equilibrium', rel=1e-12, abs_=1e-300, **det)
        # --- vectorised evaluation is the scalar one
        ps = np.array([p for _, p in inner] + above + [y[k] for k in ks])
        nr.shuffle(ps)
        for name in ('four', 'three'):
            v = np.asarray(impl[name](grid, f, ps, m, eta, T, False))
            w = np.array([float(impl[name](grid, f, float(p), m, eta, T, False)) for p in ps])
            ctx.check(v.shape == ps.shape and np.array_equal(v, w), name + ':vectorised', **det)
        ctx.sample(dict(grid=gk, N=N, eta=eta, m=m / MeV, shape=sk))
    ctx.require('states', len(ctx.states), 40)


@S.job()
def implementations_agree(ctx):
    run(ctx, 2500 if ctx.thorough else 300)


@S.job()
def location(ctx):
    """ bracketing of a momentum in a grid, exhaustively over small grids and at every node of large ones """
    import numpy as np
    from interactions.four_particle.cpp import integral as i4
    from interactions.three_particle.cpp import integral as i3
    from common import binary_find

    class G(object):
        pass
    r = ctx.rng
    for N in list(range(2, 40)) + [100, 101, 257, 401, 1000]:
        y = np.cumsum(np.array([0.] + [r.uniform(.1, 2.) for _ in range(N - 1)]))
        g = G()
        g.TEMPLATE, g.MOMENTUM_SAMPLES = y, N
        probe = [(y[k], (k, k)) for k in range(N)] + [(.5 * (y[k] + y[k + 1]), (k, k + 1)) for k in range(N - 1)]
        probe += [(y[k] + 1e-12 * (y[k + 1] - y[k]), (k, k + 1)) for k in range(N - 1) if y[k] + 1e-12 * (y[k + 1] - y[k]) > y[k]]
        probe += [(y[-1] * (1 + 1e-9), (N - 1, -1)), (y[-1] + 50, (N - 1, -1)), (-1e-9, (-1, 0)), (-5, (-1, 0))]
        for x, want in probe:
            for name, fn in (('four', i4.binary_find), ('three', i3.binary_find)):
                ctx.check(tuple(fn(y, x)) == want, name + ':bracket', N=N, x=x, got=repr(fn(y, x)), want=repr(want))
            a, b = binary_find(g, x)
            ctx.check((int(np.ravel(a)[0]), int(np.ravel(b)[0])) == want, 'python:bracket', N=N, x=x, want=repr(want))
        ctx.seen('bracket', N)


@S.job()
def species(ctx):
    """ distribution of real species along a history, in and out of equilibrium """
    import numpy as np
    from common import UNITS
    from lib import worlds
    MeV = UNITS.MeV
    r = ctx.rng
    dec = 0
    for i in range(60 if ctx.thorough else 16):
        Ti = float(np.exp(r.uniform(np.log(.5), np.log(50))))
        gk, grid = grids(r)
        eta = r.choice([1, -1])
        m = r.choice([0. if eta > 0 else .3, r.uniform(.05, 3.)]) * Ti
        p = worlds.spec_particle(i, 2, m, eta, grid=grid, decoupling_temperature=Ti * MeV * r.uniform(.3, .9))
        par = worlds.free_params(Ti * MeV, 1 / Ti)
        with worlds.quiet():
            p.set_params(par)
            M = None
            for k in range(14):
                worlds.move(par, par.T / 1.12, par.a * 1.12)
                par.aT = par.T * par.a
                p.update()
                y = p.grid.TEMPLATE
                ps = np.array([r.uniform(0, y[-1]) for _ in range(8)] + [y[1], y[-1], y[-1] * 1.1])
                if p.in_equilibrium:
                    want = 1 / (np.exp(np.minimum(np.sqrt(ps ** 2 + (m * MeV * par.a) ** 2) / par.aT, 700)) + eta)
                    got = np.array([float(p.distribution(q)) for q in ps])
                    ctx.check(np.allclose(got, want, rtol=1e-9, atol=1e-290), 'species:equilibrium', T=par.T / MeV)
                    ctx.check(np.allclose(p.distribution(ps), want, rtol=1e-9, atol=1e-290), 'species:equilibrium array', T=par.T / MeV)
                else:
                    if M is None:
                        M = m * MeV * par.a
                        aT = par.aT
                        dec += 1
                    got = np.array([float(p.distribution(q)) for q in ps])
                    with np.errstate(all='ignore'):
                        want = 1 / (np.exp(np.minimum(np.sqrt(ps ** 2 + M ** 2) / aT, 700)) + eta)
                    # frozen thermal shape; the mass used for interpolation is that at the nominal decoupling temperature
                    spacing = np.max(np.diff(y)) / aT
                    tol = 1e-6 if m == 0 else .15 * (m / Ti) * (1 + spacing) + 1e-6
                    ok = (np.abs(got - want) <= tol * want + 1e-200) | (ps > y[-1])
                    ctx.check(np.all(ok[want > 1e-200]), 'species:frozen', m=m, Ti=Ti, grid=gk, worst=float(np.nanmax(np.abs(got / np.maximum(want, 1e-290) - 1)[want > 1e-200])))
                    ctx.check(np.array_equal(np.asarray(p.distribution(y)), p._distribution), 'species:grid', grid=gk)
                    ctx.seen('species', gk, eta, m > 0)
    ctx.require('decoupled species', dec, 8)


if __name__ == '__main__':
    main(S)
