"""C01: an all-equilibrium universe conserves comoving entropy; annihilations heat the plasma accordingly."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C01', 'distinct = (step mode, temperature scheme, integral scheme, number of massive species, regimes visited, '
                 'entropy transfer bucket); non-trivial = the plasma temperature actually departs from 1/a',
          assumptions=['zero chemical potentials', 'species stay in equilibrium for the whole run'])


def entropy(specs, T):
    from common import UNITS
    from lib import phys
    return sum(phys.thermo(g, m * UNITS.MeV, T, eta)[3] for g, m, eta in specs)


def evolve(ctx, specs, Ti, Tf, step, log):
    from common import UNITS
    from evolution import Universe
    from lib import worlds
    params = worlds.make_params(Ti, step, log)
    u = Universe(params=params)
    parts = [worlds.spec_particle(i, *s) for i, s in enumerate(specs)]
    u.add_particles(parts)
    regimes = set()

    def mon(universe):
        for p in universe.particles:
            regimes.add(p.regime.name)
    u.step_monitor = mon
    with worlds.quiet():
        d = ctx.code('evolve', u.evolve, Tf * UNITS.MeV, export=False)
    return d, regimes


def drift(specs, d):
    """ ln of the comoving entropy relative to the initial one, at a subset of the rows """
    import numpy as np
    n = len(d)
    ks = sorted(set([0, n - 1] + list(np.linspace(0, n - 1, 25).astype(int))))
    T, a = d['T'], d['a']
    s = np.array([entropy(specs, T[k]) * a[k] ** 3 for k in ks])
    return ks, np.log(s / s[0])


def case(ctx, tag, specs, Ti, Tf, step, log, **env):
    import numpy as np
    from lib import worlds
    with worlds.settings(LOGARITHMIC_TIMESTEP=str(log), **env):
        d1, reg = evolve(ctx, specs, Ti, Tf, step, log)
        d2, _ = evolve(ctx, specs, Ti, Tf, step / 2, log)
    if not ctx.check(len(d1) > 3 and np.all(np.isfinite(d1['T'])) and np.all(d1['T'] > 0), tag + ':trace', rows=len(d1)):
        return
    rel = step if log else step * Ti   # relative step size at the start
    k1, l1 = drift(specs, d1)
    k2, l2 = drift(specs, d2)
    heat = np.log(d1['aT'][-1] / d1['aT'][0])
    det = dict(specs=repr(specs), Ti=Ti, Tf=Tf, step=step, log=log, env=repr(env))
    # first-order accuracy: the drift is bounded by the step size ...
    ctx.check(np.max(np.abs(l1)) <= rel * (.4 + 2.2 * abs(heat)) + 2e-4, tag + ':drift', drift=float(np.max(np.abs(l1))), heat=heat, **det)
    ctx.check(np.max(np.abs(l2)) <= rel / 2 * (.4 + 2.2 * abs(heat)) + 2e-4, tag + ':drift', drift=float(np.max(np.abs(l2))), heat=heat, **det)
    # ... and vanishes with it (extrapolation to zero step)
    x = 2 * l2[-1] - l1[-1]
    tol = 4e-4 + 1.5 * rel ** 2 * (1 + 4 * abs(heat))
    ctx.stat('extrapolated drift', x)
    ctx.stat('heating', heat)
    ctx.check(abs(x) <= tol, tag + ':limit', extrapolated=float(x), tol=tol, heat=heat, **det)
    # recorded entropy density belongs to the state at the beginning of the step
    for k in k1[1:]:
        want = entropy(specs, d1['T'][k - 1])
        ctx.close(d1['S'][k], want, tag + ':recorded', rel=2e-5, row=k, **det)
    ctx.seen(tag, 'log' if log else 'lin', ','.join(sorted(env)), sum(1 for s in specs if s[1]), ','.join(sorted(reg)), round(heat, 1))
    ctx.sample(dict(tag=tag, specs=specs, Ti=Ti, Tf=Tf, step=step, rows=len(d1), drift=float(l1[-1]), limit=float(x), heating=float(heat)))
    return abs(heat) > 1e-3


def random_cases(ctx, n, log, env):
    import numpy as np
    from lib import worlds
    hot = 0
    for i in range(n):
        Ti = float(np.exp(ctx.rng.uniform(np.log(.5), np.log(500))))
        Tf = Ti / float(np.exp(ctx.rng.uniform(np.log(3), np.log(40))))
        specs = worlds.random_species(ctx.rng, Ti, Tf)
        if log:
            step = ctx.rng.choice([.04, .03, .02])
        else:
            step = ctx.rng.choice([.05, .04, .03]) / Ti
            Tf = max(Tf, Ti / 8)
        hot += bool(case(ctx, 'random', specs, Ti, Tf, step, log, **env))
    return hot


@S.job()
def electrons(ctx):
    """ photon-electron plasma: the textbook (11/4)^(1/3) """
    import numpy as np
    specs = [(2, 0., -1), (4, .511, 1)]
    for step in (.04, .02):
        case(ctx, 'e+e-', specs, 10., .01, step, True)
    from lib import worlds
    with worlds.settings(LOGARITHMIC_TIMESTEP='True'):
        d1, _ = evolve(ctx, specs, 20., .005, .02, True)
        d2, _ = evolve(ctx, specs, 20., .005, .01, True)
    got = 2 * d2['aT'][-1] / d2['aT'][0] - d1['aT'][-1] / d1['aT'][0]
    ctx.close(got, (11 / 4.) ** (1 / 3.), 'e+e-:11/4', rel=7e-4)
    if ctx.thorough:
        for step in (.01, .005):
            case(ctx, 'e+e-', specs, 10., .01, step, True)


@S.job()
def library(ctx):
    """ Standard Model species from the library """
    from library.SM import particles as SMP
    from common import UNITS
    sets = [['photon', 'leptons.electron', 'leptons.muon'],
            ['photon', 'leptons.electron', 'leptons.muon', 'hadrons.neutral_pion', 'hadrons.charged_pion'],
            ['photon', 'leptons.tau', 'leptons.muon', 'leptons.electron'], ['photon', 'quarks.charm', 'leptons.tau', 'gluon']]
    ranges = [(300., 5.), (200., 1.), (2000., 20.), (5000., 100.)]
    from particles import Particle
    for names, (Ti, Tf) in zip(sets, ranges):
        specs = []
        for n in names:
            o = SMP
            for c in n.split('.'):
                o = getattr(o, c)
            p = Particle(**o)
            specs.append((p.dof, p.mass / UNITS.MeV, p.eta))
        case(ctx, 'library', specs, Ti, Tf, .03, True)


def add(name, log, env, nq, nt):
    def f(ctx):
        n = nt if ctx.thorough else nq
        hot = random_cases(ctx, n, log, env)
        ctx.require('runs with entropy transfer', hot, n // 2)
    S.job(name=name)(f)


add('log_ab', True, {}, 12, 120)
add('log_euler', True, dict(ADAMS_BASHFORTH_TEMPERATURE_CORRECTION=''), 8, 80)
add('log_legendre', True, dict(LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES='0'), 6, 60)
add('lin_ab', False, {}, 8, 60)
add('lin_euler', False, dict(ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='false'), 6, 50)

if __name__ == '__main__':
    main(S)
