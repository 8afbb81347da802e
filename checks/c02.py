"""C02: every recorded history is a consistent Friedmann history."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C02', 'distinct = (step mode, scheme, number of massive/decoupling species, regimes visited, number of rows bucket, '
                 'stages); non-trivial = a trace with at least 4 steps whose every row was re-derived',
          assumptions=['rows record the energy density, entropy and N_eff of the state at the beginning of the step'])


def expected_rho(specs, dec, T, a, aTdec):
    """ independent energy density; species i in `dec` free-streams below its decoupling temperature (massless only) """
    import numpy as np
    from lib import phys
    from common import UNITS
    rho = 0.
    for i, (g, m, eta) in enumerate(specs):
        if i in aTdec:
            Ti = aTdec[i] / a
            rho += g * np.pi ** 2 / 30 * Ti ** 4 * (7 / 8. if eta > 0 else 1.)
        else:
            rho += phys.thermo(g, m * UNITS.MeV, T, eta)[1]
    return rho


def case(ctx, tag, specs, dec, Ti, Tf, step, log, stages=1, **env):
    """ specs: [(g, m, eta)], dec: {index: decoupling temperature/MeV} """
    import numpy as np
    from common import UNITS, CONST
    from evolution import Universe
    from lib import worlds
    with worlds.settings(LOGARITHMIC_TIMESTEP=str(log), **env):
        params = worlds.make_params(Ti, step, log)
        a_init, m = params.a, params.m
        u = Universe(params=params)
        parts = [worlds.spec_particle(i, *s, **({'decoupling_temperature': dec[i] * UNITS.MeV} if i in dec else {}))
                 for i, s in enumerate(specs)]
        u.add_particles(parts)
        regimes = set()
        snaps = []

        def mon(universe):
            p = universe.params
            regimes.update(q.regime.name for q in parts)
            snaps.append((p.x, p.aT, p.a, p.T, p.t, universe.total_energy_density(), universe.total_entropy(), universe.fraction,
                          [bool(q.in_equilibrium) for q in parts]))
        u.step_monitor = mon
        cuts = [Tf] if stages == 1 else [(Ti * Tf) ** .5, Tf]
        bounds = []
        with worlds.quiet():
            for n, c in enumerate(cuts):
                d = ctx.code('evolve', u.evolve, c * UNITS.MeV, export=False, init_time=(n == 0))
                bounds.append(len(d))
    det = dict(specs=repr(specs), dec=repr(dec), Ti=Ti, Tf=Tf, step=step, log=log, stages=stages, env=repr(env))
    n = len(d)
    cols = {k: np.array(d[k]) for k in ('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S')}
    if not ctx.check(all(np.all(np.isfinite(c)) for c in cols.values()), tag + ':finite', **det):
        return
    aT, T, a, x, t, rho, Neff, frac, Sd = (cols[k] for k in ('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S'))
    MeV = UNITS.MeV
    # --- normalisation of the first row
    ctx.close(T[0], Ti * MeV, tag + ':T0', rel=1e-12, **det)
    ctx.close(aT[0], m, tag + ':aT0', rel=1e-12, **det)
    ctx.close(m, MeV, tag + ':m', rel=1e-12)
    t0 = np.sqrt(3 * CONST.M_p ** 2 / (32 * np.pi * rho[0]))
    ctx.close(t[0], t0, tag + ':t0', rel=1e-9, **det)
    # --- every row
    ctx.check(np.all(np.abs(a * m / x - 1) < 1e-11), tag + ':a', **det)
    ctx.check(np.all(np.abs(T * a / aT - 1) < 1e-11), tag + ':T', **det)
    steps = [k for k in range(1, n) if k not in bounds[:-1]]
    dup = [k for k in range(1, n) if k in bounds[:-1]]
    for k in dup:   # a continued run repeats its last state as its first row
        ctx.check(abs(x[k] / x[k - 1] - 1) < 1e-12 and abs(aT[k] / aT[k - 1] - 1) < 1e-12 and abs(t[k] / t[k - 1] - 1) < 1e-12,
                  tag + ':continue', **det)
    ctx.check(len(snaps) == len(steps), tag + ':one row per step', rows=n, steps=len(snaps), **det)
    aTdec = {}
    for k, snap in zip(steps, snaps):
        # the monitor saw the state of the previous row
        ctx.check(abs(snap[0] / x[k - 1] - 1) < 1e-11 and abs(snap[3] / T[k - 1] - 1) < 1e-11 and abs(snap[4] / t[k - 1] - 1) < 1e-11,
                  tag + ':state', row=k, **det)
        for i in dec:
            if not snap[8][i] and i not in aTdec:
                aTdec[i] = aT[k - 1]
                ctx.check(T[k - 1] <= dec[i] * MeV * (1 + 1e-9), tag + ':early decoupling', row=k, T=T[k - 1] / MeV, **det)
            if i not in aTdec:
                ctx.check(T[k - 1] > dec[i] * MeV, tag + ':late decoupling', row=k, T=T[k - 1] / MeV, **det)
        dx = x[k - 1] * step if log else step * MeV
        ctx.close(x[k] - x[k - 1], dx, tag + ':step', rel=1e-7, row=k, **det)
        want = expected_rho(specs, dec, T[k - 1], a[k - 1], aTdec)
        ctx.close(rho[k], want, tag + ':rho', rel=1e-4 if aTdec else 1e-5, row=k, **det)
        ctx.close(rho[k], snap[5], tag + ':rho sum', rel=1e-9, row=k, **det)
        ctx.close(Sd[k], snap[6], tag + ':S sum', rel=1e-9, row=k, **det)
        ctx.close(frac[k], snap[7], tag + ':fraction', rel=1e-9, abs_=1e-300, row=k, **det)
        H = np.sqrt(8 * np.pi / 3 * rho[k]) / CONST.M_p
        ctx.close(t[k] - t[k - 1], (1 - a[k - 1] / a[k]) / H, tag + ':dt', rel=1e-6, row=k, **det)
        g4 = np.pi ** 2 / 15 * T[k - 1] ** 4
        ctx.close(Neff[k], (rho[k] - g4) / (7 / 8. * g4 / 1.401 ** 4), tag + ':N_eff', rel=1e-9, abs_=1e-9, row=k, **det)
    ctx.check(np.all(np.diff(t[[0] + steps]) > 0), tag + ':time order', **det)
    # --- the run stops at the first row at or below the final temperature
    for b, c in zip(bounds, cuts):
        ctx.check(T[b - 1] <= c * MeV, tag + ':not finished', T=T[b - 1] / MeV, **det)
        ctx.check(T[b - 2] > c * MeV or b - 2 in dup, tag + ':overrun', T=T[b - 2] / MeV, **det)
    # --- cosmic time against an independent quadrature of dlna/H
    if stages == 1 and n > 6:
        Hn = np.sqrt(8 * np.pi / 3 * rho[1:]) / CONST.M_p       # at a[:-1]
        la = np.log(a)
        ref = t[0] + np.sum(.5 * (1 / Hn[1:] + 1 / Hn[:-1]) * np.diff(la[:-1]))
        rel = step if log else step * Ti
        ctx.check(abs(t[-2] / ref - 1) < 2.5 * rel, tag + ':time', got=t[-2], want=ref, **det)
        ctx.stat('time error / step', (t[-2] / ref - 1) / rel)
    ctx.seen(tag, 'log' if log else 'lin', ','.join(sorted(env)), sum(1 for s in specs if s[1]), len(dec), len(aTdec),
             ','.join(sorted(regimes)), len(str(n)), stages)
    ctx.sample(dict(tag=tag, specs=specs, dec=dec, Ti=Ti, Tf=Tf, step=step, rows=n, stages=stages))
    return d


def random_cases(ctx, n, log, env):
    import numpy as np
    from lib import worlds
    rows = 0
    for i in range(n):
        Ti = float(np.exp(ctx.rng.uniform(np.log(.5), np.log(300))))
        Tf = Ti / float(np.exp(ctx.rng.uniform(np.log(2), np.log(30))))
        specs = worlds.random_species(ctx.rng, Ti, Tf, n=ctx.rng.randint(0, 2))
        dec = {}
        for _ in range(ctx.rng.randint(0, 2)):
            dec[len(specs)] = float(np.exp(ctx.rng.uniform(np.log(Tf * .8), np.log(Ti * 1.3))))
            specs.append((ctx.rng.choice([2, 4, 6]), 0., 1))
        if log:
            step = ctx.rng.choice([.1, .05, .03, .02])
        else:
            step = ctx.rng.choice([.08, .05, .03]) / Ti
            Tf = max(Tf, Ti / 6)
        d = case(ctx, 'random', specs, dec, Ti, Tf, step, log, stages=ctx.rng.choice([1, 1, 2]), **env)
        rows += len(d) if d is not None else 0
    ctx.require('rows', rows, n * 10)


def add(name, log, env, nq, nt):
    def f(ctx):
        random_cases(ctx, nt if ctx.thorough else nq, log, env)
    S.job(name=name)(f)


add('log_ab', True, {}, 14, 120)
add('log_euler', True, dict(ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='0'), 8, 60)
add('lin_ab', False, {}, 10, 80)
add('lin_euler', False, dict(ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='False'), 6, 50)


@S.job()
def photons(ctx):
    """ pure radiation: aT constant, N_eff = 0, t = 1/(2H) up to the step size """
    import numpy as np
    from common import CONST
    for step in (.1, .05, .02) + ((.01, .004) if ctx.thorough else ()):
        for Ti in (.1, 1., 37., 900.):
            d = case(ctx, 'photons', [(2, 0., -1)], {}, Ti, Ti / 20, step, True)
            if d is None:
                continue
            ctx.check(np.all(np.abs(d['aT'] / d['aT'][0] - 1) < 1e-9), 'photons:aT')
            ctx.check(np.all(np.abs(d['N_eff']) < 1e-9), 'photons:N_eff')
            rho = np.pi ** 2 / 15 * d['T'] ** 4
            tt = np.sqrt(3 * CONST.M_p ** 2 / (32 * np.pi * rho))
            ctx.check(np.all(np.abs(d['t'] / tt - 1) < 1.6 * step), 'photons:t', worst=float(np.max(np.abs(d['t'] / tt - 1))), step=step)


@S.job()
def neutrinos(ctx):
    """ instantaneous decoupling of three neutrino species gives N_eff = 3 after electron-positron annihilation """
    from library.SM import particles as SMP
    from particles import Particle
    from common import UNITS
    from evolution import Universe
    from lib import worlds
    import numpy as np
    out = []
    for step in (.02, .01):
        params = worlds.make_params(10., step)
        u = Universe(params=params)
        u.add_particles([Particle(**s) for s in (SMP.photon, SMP.leptons.electron, SMP.leptons.neutrino_e, SMP.leptons.neutrino_mu,
                                                 SMP.leptons.neutrino_tau)])
        with worlds.quiet():
            d = ctx.code('evolve', u.evolve, .01 * UNITS.MeV, export=False)
        out.append(d)
    for d, tol in zip(out, (.12, .06)):
        ctx.check(abs(d['N_eff'][-1] - 3) < tol, 'neutrinos:N_eff', got=d['N_eff'][-1])
    x = 2 * out[1]['N_eff'][-1] - out[0]['N_eff'][-1]
    ctx.check(abs(x - 3.) < .012, 'neutrinos:N_eff limit', got=float(x))
    ctx.stat('N_eff limit', x)
    ctx.seen('neutrinos', round(x, 2))


@S.job()
def validation(ctx):
    """ a run without the step size of its mode is refused; the initial state follows the requested temperature """
    from common import Params, UNITS
    from lib import worlds
    n = 0
    for log, bad, good in (('True', {}, dict(dy=.05)), ('True', dict(dx=1e-3 * UNITS.MeV), dict(dy=.01)),
                           ('False', {}, dict(dx=1e-3 * UNITS.MeV)), ('', dict(dy=.05), dict(dx=1e-4 * UNITS.MeV)), ('0', dict(dy=.1), dict(dx=1e-3 * UNITS.MeV))):
        with worlds.settings(LOGARITHMIC_TIMESTEP=log):
            try:
                Params(T=UNITS.MeV, **bad)
                ctx.check(False, 'validation:accepted', log=log, kw=repr(bad))
            except Exception:
                ctx.check(True, 'validation:accepted')
            for T in (1e-3, .7, 55., 4e4):
                p = ctx.code('validation', Params, T=T * UNITS.MeV, **good)
                ctx.close(p.T, T * UNITS.MeV, 'validation:T', rel=1e-12)
                ctx.close(p.a * p.T, p.m, 'validation:aT', rel=1e-12)
                ctx.close(p.aT, p.m, 'validation:aT', rel=1e-12)
                ctx.close(p.x, p.a * p.m, 'validation:x', rel=1e-12)
                ctx.close(p.h, p.dy if log == 'True' else p.dx, 'validation:h', rel=1e-12)
                n += 1
        ctx.seen(log, tuple(bad))
    ctx.require('states', n, 20)
    # a run that fails to cool down to the requested temperature does not end like one that did
    from evolution import Universe
    from library import SM
    from particles import Particle
    for bad in (float('nan'), -1.):
        def spoil(u, bad=bad):
            if u.step == 3:
                u.params.aT = bad * u.params.aT
                u.fraction = 0.
        with worlds.quiet():
            u = Universe(params=Params(T=10 * UNITS.MeV, dy=.05))
            u.add_particles([Particle(**SM.particles.photon), Particle(**SM.particles.leptons.neutrino_e)])
            u.step_monitor = spoil
            try:
                u.evolve(1 * UNITS.MeV)
                code = None
            except SystemExit as e:
                code = e.code
        ctx.check(code not in (None, 0), 'unphysical temperature taken for success', temperature=repr(bad), code=code)
        ctx.check(len(u.data) <= 5, 'unphysical temperature carried on', rows=len(u.data))


if __name__ == '__main__':
    main(S)
