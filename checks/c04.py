"""C04: decoupled species carry the moments of their own distribution and free-stream when nothing acts on them."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C04', 'distinct = (quadrature, grid type, statistics, massive or massless, distribution shape, scale factor decade); '
                 'non-trivial = a non-equilibrium state whose moments were compared with an independent integral of the same shape',
          assumptions=['grids resolve the distribution (spacing below a quarter of its temperature) and contain its tail'])


def shapes(ctx, rng, eta):
    """ analytic distribution in y = p a, and its name; Tn = comoving temperature scale """
    import numpy as np
    from common import UNITS
    Tn = UNITS.MeV * rng.uniform(.9, 2.4)
    k = rng.choice(['thermal', 'grey', 'distorted', 'bump', 'empty'])
    fd = lambda y, m=0.: 1. / (np.exp(np.sqrt(y ** 2 + m ** 2) / Tn) + (1. if eta > 0 else 0.))
    if k == 'thermal':
        return k, Tn, lambda y: fd(y)
    if k == 'grey':
        c = rng.uniform(.01, .9)
        return k, Tn, lambda y: c * fd(y)
    if k == 'distorted':
        c = rng.uniform(.01, .2)
        return k, Tn, lambda y: fd(y) * (1 + c * np.sin(y / Tn) ** 2)
    if k == 'bump':
        y0 = rng.uniform(4, 12) * UNITS.MeV
        c = rng.uniform(.01, .5)
        return k, Tn, lambda y: c * np.exp(-.5 * (y - y0) ** 2 / (1.2 * UNITS.MeV) ** 2)
    return k, Tn, lambda y: np.zeros_like(y, dtype=float)


def reference(f, g, eta, M, a, top):
    """ n, rho, P, s of the distribution f(y) with mass M at scale factor a """
    import numpy as np
    from lib import phys
    ed = np.linspace(0, top, 90)
    E = lambda y: np.sqrt(y ** 2 + (M * a) ** 2)
    c = g / (2 * np.pi ** 2)
    n = c / a ** 3 * phys.panels(lambda y: y ** 2 * f(y), ed)
    rho = c / a ** 4 * phys.panels(lambda y: y ** 2 * E(y) * f(y), ed)
    P = c / 3 / a ** 4 * phys.panels(lambda y: y ** 4 / E(y) * f(y), ed)

    def s(y):
        F = f(y)
        with np.errstate(all='ignore'):
            v = -y ** 2 * (F * np.log(F) + (1 - F) * np.log1p(-F)) if eta > 0 else -y ** 2 * (F * np.log(F) - (1 + F) * np.log1p(F))
        return np.where(F > 0, v, 0.)
    return n, rho, P, c / a ** 3 * phys.panels(s, ed)


def make_grid(rng):
    from common import UNITS, LinearSpacedGrid, LogSpacedGrid
    k = rng.choice(['default', 'linear', 'linear', 'log', 'even'])
    if k == 'default':
        return k, LinearSpacedGrid()
    top = rng.uniform(55, 110)
    if k == 'linear':
        return k, LinearSpacedGrid(MOMENTUM_SAMPLES=2 * rng.randint(200, 420) + 1, MAX_MOMENTUM=top * UNITS.MeV)
    if k == 'even':
        return k, LinearSpacedGrid(MOMENTUM_SAMPLES=2 * rng.randint(230, 420), MAX_MOMENTUM=top * UNITS.MeV)
    # logarithmic: coarse at the top, so only a modest accuracy can be asked for
    return k, LogSpacedGrid(MOMENTUM_SAMPLES=rng.randint(45, 70), MAX_MOMENTUM=top * UNITS.MeV)


def moments(ctx, n, scheme):
    import numpy as np
    from common import UNITS
    from particles import Particle
    from common import statistics as ST
    from lib import worlds
    MeV = UNITS.MeV
    r = ctx.rng
    for i in range(n):
        eta = r.choice([1, -1])
        gk, grid = make_grid(r)
        sk, Tn, f = shapes(ctx, r, eta)
        if gk == 'log' and sk == 'bump':      # narrower than the spacing of a logarithmic grid
            continue
        M = 0. if r.random() < .4 else float(np.exp(r.uniform(np.log(.05), np.log(300)))) * MeV
        g = r.choice([1, 2, 4, 6])
        a = float(np.exp(r.uniform(np.log(.02), np.log(20))))
        T = MeV / a
        par = worlds.free_params(T, a)
        p = Particle(name='x', symbol='x', mass=M, dof=g, statistics=ST.FERMION if eta > 0 else ST.BOSON, grid=grid, Q=0, majorana=False,
                     flavour=None, decoupling_temperature=T * 2, thermal_dyn=r.random() < .7)
        with worlds.quiet():
            ctx.code('create', p.set_params, par)
            ctx.check(not p.in_equilibrium and p.regime.name == 'non-equilibrium', 'regime', regime=p.regime.name)
            p._distribution = np.array(f(grid.TEMPLATE), dtype=float)
            ctx.code('update', p.update)
        ctx.check(np.array_equal(p._distribution, np.array(f(grid.TEMPLATE))), 'update changed the distribution')
        want = reference(f, g, eta, M, a, grid.MAX_MOMENTUM)
        tol = {'log': 3e-2}.get(gk, 2e-3 if scheme == 'simpson' else 1e-2)
        det = dict(grid=gk, shape=sk, M=M, a=a, eta=eta, g=g, scheme=scheme, samples=grid.MOMENTUM_SAMPLES)
        for nm, got, w in zip(('density', 'energy density', 'pressure', 'entropy'), (p.density, p.energy_density, p.pressure, p.entropy), want):
            ctx.close(got, w, nm, rel=tol, abs_=1e-12 * g * (MeV / a) ** 3 * (1 if nm in ('density', 'entropy') else MeV / a), **det)
        ctx.check(p.pressure <= p.energy_density / 3 * (1 + 1e-9), 'P <= rho/3', **det)
        if M == 0:
            ctx.close(p.pressure, p.energy_density / 3, 'massless P = rho/3', rel=1e-9, abs_=1e-300, **det)
        # contribution to the temperature equation: minus the energy injected by collisions
        c = r.uniform(-2, 2)
        I = lambda y: c * f(y) * (1 + .1 * np.cos(y / Tn))
        p.collision_integral = np.array(I(grid.TEMPLATE))
        from lib import phys
        e = -g / (2 * np.pi ** 2) / par.x * phys.panels(lambda y: y ** 2 * np.sqrt(y ** 2 + (M * a) ** 2) * I(y), np.linspace(0, grid.MAX_MOMENTUM, 90))
        num = ctx.code('numerator', p.numerator)
        ctx.close(num, e, 'numerator', rel=tol if gk != 'log' else .1, abs_=1e-12 * MeV ** 3, **det)
        ctx.check(p.denominator() == 0, 'denominator', **det)
        ctx.seen(scheme, gk, eta, 'massive' if M else 'massless', sk, int(np.floor(np.log10(a))))
        ctx.sample(dict(scheme=scheme, grid=gk, shape=sk, M=M / MeV, a=a, n=p.density / MeV ** 3, n_ref=want[0] / MeV ** 3))
    ctx.require('states', len(ctx.states), 15)


@S.job()
def moments_simpson(ctx):
    moments(ctx, 700 if ctx.thorough else 160, 'simpson')


@S.job(env=dict(SIMPSONS_NONEQ_PARTICLES='false'))
def moments_gauss(ctx):
    moments(ctx, 120 if ctx.thorough else 40, 'gauss')


def streaming(ctx, n, scheme):
    """ whole histories: decoupling, then nothing but expansion """
    import numpy as np
    from common import UNITS, statistics as ST
    from evolution import Universe
    from particles import Particle
    from lib import worlds, phys
    MeV = UNITS.MeV
    r = ctx.rng
    dec_seen = 0
    for i in range(n):
        log = r.random() < .7
        Ti = float(np.exp(r.uniform(np.log(1.), np.log(60))))
        Tf = Ti / r.uniform(3, 8)
        specs = []
        for j in range(r.randint(1, 3)):
            g, eta = r.choice([1, 2, 4]), r.choice([1, 1, -1])
            m = 0. if (r.random() < .4 and eta > 0) else Ti * float(np.exp(r.uniform(np.log(.05), np.log(4.))))
            Td = r.choice([Ti * 1.2, Ti * r.uniform(.4, .98), Ti * r.uniform(.4, .98), Tf * .5])
            specs.append((g, m, eta, Td))
        with worlds.settings(LOGARITHMIC_TIMESTEP=str(log)):
            u = Universe(params=worlds.make_params(Ti, .05 if log else .05 / Ti, log))
            parts = [worlds.spec_particle(j, g, m, eta, decoupling_temperature=Td * MeV) for j, (g, m, eta, Td) in enumerate(specs)]
            if r.random() < .3:                               # followed another universe until now
                with worlds.quiet():
                    for p in parts[:2]:
                        p.set_params(worlds.make_params(Ti, .05 if log else .05 / Ti, log))
            bath = [worlds.spec_particle(90, 2, 0., -1), worlds.spec_particle(91, 4, Ti * r.uniform(.1, 2), 1)]
            log_rows = {p: [] for p in parts}

            def mon(universe):
                par = universe.params
                for p in parts:
                    log_rows[p].append((par.a, par.T, bool(p.in_equilibrium), p.density, p.energy_density, p.pressure, p.entropy, p.aT, p.T,
                                        p._distribution.copy()))
                    recs[p].append(({c: p.data['params'][c][-1] for c in ('T', 'a', 't', 'density', 'energy_density')}, dict(T=par.T, a=par.a, t=par.t, density=p.density, energy_density=p.energy_density)))
            recs = {p: [] for p in parts}
            u.step_monitor = mon
            with worlds.quiet():
                u.add_particles(parts + bath)
                d = ctx.code('evolve', u.evolve, Tf * MeV, export=False)
        for p, (g, m, eta, Td) in zip(parts, specs):
            det = dict(g=g, m=m, eta=eta, Td=Td, Ti=Ti, log=log, scheme=scheme)
            rows = log_rows[p]
            start = None
            # the record the species itself keeps
            for k, (got, want) in enumerate(recs[p]):
                for nm in want:
                    ctx.close(got[nm], want[nm], 'record of the species: ' + nm, rel=1e-12, row=k, **det)
            for k, row in enumerate(rows):
                a, T, eq, nn, rho, P, s, aT, pT, f = row
                if eq:
                    ctx.check(start is None, 'recoupled', row=k, **det)
                    ctx.check(T > Td * MeV, 'in equilibrium below the decoupling temperature', T=T / MeV, **det)
                    ctx.close(pT, T, 'equilibrium temperature', rel=1e-11, **det)
                    continue
                if start is None:
                    start = k
                    ctx.check(T <= Td * MeV * (1 + 1e-12), 'decoupled above the decoupling temperature', T=T / MeV, **det)
                    # decoupling is continuous: moments of the frozen distribution are those of equilibrium at that moment
                    ref = phys.thermo(g, m * MeV, T, eta)
                    if eta > 0 and Td < Ti:
                        for nm, x, w in zip(('density', 'energy density', 'pressure', 'entropy'), (nn, rho, P, s), ref):
                            ctx.close(x, w, 'continuity of ' + nm, rel=4e-3, T=T / MeV, **det)
                        dec_seen += 1
                    base = row
                    continue
                a0 = base[0]
                # free streaming
                ctx.check(np.array_equal(f, base[9]), 'free-streaming distribution changed', row=k, **det)
                ctx.close(aT, base[7], 'comoving temperature changed', rel=1e-12, row=k, **det)
                ctx.close(pT * a, base[8] * a0, 'temperature does not redshift', rel=1e-11, row=k, **det)
                ctx.close(nn * a ** 3, base[3] * a0 ** 3, 'comoving number', rel=1e-10, row=k, **det)
                if eta > 0:
                    ctx.close(s * a ** 3, base[6] * a0 ** 3, 'comoving entropy', rel=1e-10, row=k, **det)
                if m == 0:
                    ctx.close(rho * a ** 4, base[4] * a0 ** 4, 'massless energy redshift', rel=1e-10, row=k, **det)
                    ctx.close(P, rho / 3, 'massless pressure', rel=1e-9, row=k, **det)
                elif k == len(rows) - 1:
                    y = p.grid.TEMPLATE
                    E = np.sqrt(y ** 2 + (m * MeV * a) ** 2)
                    from scipy.integrate import simpson
                    if scheme == 'simpson':
                        ctx.close(rho, g / 2 / np.pi ** 2 / a ** 4 * simpson(y ** 2 * E * f, x=y), 'massive energy', rel=2e-3, **det)
                        ctx.close(P, g / 6 / np.pi ** 2 / a ** 4 * simpson(y ** 4 / E * f, x=y), 'massive pressure', rel=2e-3, **det)
            ctx.seen('streaming', scheme, eta, bool(m), log, 'never' if start is None else 'start' if start == 0 else 'during')
    ctx.require('decouplings', dec_seen, n // 3)


@S.job()
def streaming_simpson(ctx):
    streaming(ctx, 60 if ctx.thorough else 16, 'simpson')


@S.job(env=dict(SIMPSONS_NONEQ_PARTICLES='0'))
def streaming_gauss(ctx):
    streaming(ctx, 16 if ctx.thorough else 4, 'gauss')


@S.job()
def nonthermal(ctx):
    """ species without thermal production start empty and stay empty until something produces them """
    import numpy as np
    from common import UNITS, statistics as ST
    from evolution import Universe
    from lib import worlds
    MeV = UNITS.MeV
    for i in range(20 if ctx.thorough else 6):
        m = ctx.rng.choice([0., 1., 135.])
        Td = ctx.rng.choice([0., 0., 3.])
        Ti = ctx.rng.uniform(1., 20.)
        u = Universe(params=worlds.make_params(Ti, .1))
        p = worlds.spec_particle(0, 2, m, ctx.rng.choice([1, -1]), thermal_dyn=False, Q=ctx.rng.choice([0, 0, 1]), decoupling_temperature=Td * MeV)
        with worlds.quiet():
            u.add_particles([p, worlds.spec_particle(1, 2, 0., -1)])
            ctx.check(not p.in_equilibrium, 'nonthermal species in equilibrium')
            if Td == 0:
                ctx.close(p.decoupling_temperature, Ti * MeV, 'nonthermal decoupling temperature', rel=1e-12)
            else:
                ctx.close(p.decoupling_temperature, Td * MeV, 'decoupling temperature asked for', rel=1e-12)
            d = ctx.code('evolve', u.evolve, Ti / 5 * MeV, export=False)
        ctx.check(np.all(p._distribution == 0) and p.density == 0 and p.energy_density == 0 and p.pressure == 0 and p.entropy == 0, 'nonthermal not empty')
        ctx.check(np.all(np.abs(d['aT'] / d['aT'][0] - 1) < 1e-9), 'empty species changed the plasma')
        ctx.seen('nonthermal', m > 0, Td, p.Q, p.eta)


if __name__ == '__main__':
    main(S)
