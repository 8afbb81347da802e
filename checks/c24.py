"""C24: energy lost by species out of equilibrium heats the plasma: the total obeys d(rho a^3) = -P d(a^3)."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C24', 'distinct = (plasma content, masses and number of the decoupled species, direction of the heat flow, step formulation, quadrature); non-trivial = an evolution in which the heat exchanged is a '
                 'sizeable fraction of the energy of the plasma',
          assumptions=['first-order time stepping: the imbalance is judged relative to the heat exchanged and has to shrink with the step'])


class Stub(object):
    integrals = ()

    def __init__(self, terms):
        self.terms = terms

    def initialize(self):
        from interactions.four_particle import CollisionIntegralKind as Kind
        for p, fn in self.terms:
            if not p.in_equilibrium:
                p.collision_integrals.append(type('I', (), dict(kind=Kind.Full, integrate=lambda self, ps, stepsize=None, bounds=None, fn=fn, p=p: fn(p), __str__=lambda s: 'stub'))())

    def __str__(self):
        return 'stub'


def run(ctx, spec, step, log):
    """ returns (imbalance / heat, heat / energy) """
    import numpy as np
    from scipy.integrate import simpson
    from common import UNITS, LinearSpacedGrid, statistics as ST
    from evolution import Universe
    from particles import Particle
    from lib import worlds, phys
    T0, plasma, dec, span = spec
    u = Universe(params=worlds.make_params(T0, step if log else step / T0, log))
    eq = [worlds.spec_particle(i, g, m, e) for i, (g, m, e) in enumerate(plasma)]
    nq, terms = [], []
    for k, (g, m, e, shape, mode, rate, amp) in enumerate(dec):
        p = worlds.spec_particle(100 + k, g, m, e, decoupling_temperature=T0 * 1.3 * UNITS.MeV, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=201, MAX_MOMENTUM=24 * UNITS.MeV))
        nq.append(p)
    u.add_particles(eq + nq)
    for p, (g, m, e, (t, mu), mode, rate, amp) in zip(nq, dec):
        y = p.grid.TEMPLATE
        E = np.sqrt((y / u.params.aT) ** 2 + (m / T0) ** 2)
        f0 = amp / (np.exp((E - mu) / t) + e)
        p._distribution = f0.copy()

        def fn(q, f0=f0, mode=mode, rate=rate):
            C = rate * f0 if mode == 'source' else -rate * q._distribution
            B = 0 * f0 if mode == 'source' else 0 * f0 - rate
            s = 1. if log else u.params.x
            return C / s, B / s
        terms.append((p, fn))
    u.interactions = [Stub(terms)]
    for p in nq:
        p.populate_methods()
    u.params.init_time(u.total_energy_density())
    u.params.update(u.total_energy_density(), u.total_entropy())
    u.save_params()

    def energies():
        a, T = u.params.a, u.params.T
        rho_e = P_e = rho_n = P_n = 0.
        for p, (g, m, e) in zip(eq, plasma):
            n, rho, P, s = phys.thermo(g, m * UNITS.MeV, T, e)
            rho_e, P_e = rho_e + rho, P_e + P
        for p, d in zip(nq, dec):
            y, f = p.grid.TEMPLATE, p._distribution
            E = np.sqrt(y ** 2 + (p.mass * a) ** 2)
            c = p.dof / 2 / math.pi ** 2 / a ** 4
            rho_n += c * simpson(y ** 2 * E * f, x=y)
            P_n += c / 3 * simpson(y ** 4 / np.where(E > 0, E, 1) * f, x=y)
        return a, T, rho_e, P_e, rho_n, P_n
    rec = [energies()]
    # the distribution is advanced with the collision term of the current point, the temperature right after it
    for k in range(int(round(span / step)) if log else 10 ** 6):
        ctx.code('step', u.make_step)
        u.save()
        rec.append(energies())
        if not (rec[-1][1] > 0 and math.isfinite(rec[-1][1])) or rec[-1][0] > rec[0][0] * math.exp(span):
            break
    R = np.array(rec)
    a, T, re, pe, rn, pn = R.T
    d3 = np.diff(a ** 3)
    mid = lambda v: .5 * (v[1:] + v[:-1])
    work = lambda P: np.sum(mid(P) * d3)
    dE = re[-1] * a[-1] ** 3 - re[0] * a[0] ** 3 + work(pe)        # heat received by the plasma
    dN = rn[-1] * a[-1] ** 3 - rn[0] * a[0] ** 3 + work(pn)        # energy received by the decoupled species
    scale = abs(dN)
    return (dE + dN) / scale, dN / (re[0] * a[0] ** 3), len(rec)


def cases(ctx, log, n):
    from lib import worlds
    r = ctx.rng
    done = 0
    for case in range(n):
        T0 = 10 ** r.uniform(-1, 2)
        plasma = [(r.choice([2, 2, 4]), 0., -1)]
        if r.random() < .6:
            plasma.append((r.choice([2, 4]), T0 * r.choice([0., .3, 1., 3.]), r.choice([1, -1])))
        dec = []
        for _ in range(r.choice([1, 1, 2])):
            mode = r.choice(['source', 'decay'])
            m = r.choice([0., 0., .5, 2., 5.]) * T0
            g = r.choice([2, 2, 4, 6])
            if mode == 'source':
                dec.append((g, m, 1, (r.uniform(.9, 1.3), m / T0 - 1.), mode, r.uniform(.1, .4)))
            else:
                dec.append((g, m, r.choice([1, -1]) if m > 0 else 1, (r.uniform(1., 1.4), m / T0 * .8 - .2), mode, r.uniform(.4, 2.)))
        if len({d[4] for d in dec}) > 1:
            dec = dec[:1]
        span = .4 if dec[0][4] == 'source' else .8
        # keep the heat exchanged comparable with the energy of the plasma
        import numpy as np
        from lib import phys
        plasma_rho = sum(phys.thermo(g, m / T0, 1., e)[1] for g, m, e in plasma)
        full = []
        for g, m, e, (t, mu), mode, rate in dec:
            y = np.linspace(1e-6, 24, 2001)
            E = np.sqrt(y * y + (m / T0) ** 2)
            rho = g / 2 / math.pi ** 2 * np.sum(y ** 2 * E / (np.exp((E - mu) / t) + e)) * (y[1] - y[0])
            if mode == 'source':
                full.append((g, m, e, (t, mu), mode, min(rate, .2 * plasma_rho / rho / span / len(dec)), 1.))
            else:
                full.append((g, m, e, (t, mu), mode, rate, min(1., 1.5 * plasma_rho / rho / len(dec))))
        dec = full
        spec = (T0, plasma, dec, span)
        with worlds.quiet():
            out = [run(ctx, spec, h, log) for h in ((.02, .01, .005) if ctx.thorough else (.02, .01))]
        e1, e2 = out[-2][0], out[-1][0]
        det = dict(T0=T0, plasma=plasma, dec=[d[:3] + d[4:] for d in dec], err=[o[0] for o in out], heat=out[-1][1])
        extra = 2 * e2 - e1                 # Richardson: first-order error removed
        ctx.stat('imbalance', e2)
        ctx.stat('extrapolated imbalance', extra)
        ctx.stat('heat', out[-1][1])
        heat = abs(out[-1][1])
        ok = math.isfinite(e2) and abs(extra) <= .03 + 1e-3 / max(heat, 1e-9) and abs(e2) <= .05 + 2e-3 / max(heat, 1e-9)
        ctx.check(ok, 'energy lost between plasma and decoupled species', extrapolated=extra, **det)
        if heat > .01:
            done += 1
            ctx.seen(log, dec[0][4], len(plasma), tuple(p[1] > 0 for p in plasma), tuple((d[1] > 0, d[2]) for d in dec))
    ctx.require('evolutions with heat exchange', done, n // 3)


@S.job()
def logarithmic(ctx):
    cases(ctx, True, 40 if ctx.thorough else 10)


@S.job(env=dict(LOGARITHMIC_TIMESTEP='False'))
def linear(ctx):
    cases(ctx, False, 40 if ctx.thorough else 8)


@S.job(env=dict(SIMPSONS_NONEQ_PARTICLES='False'))
def gauss(ctx):
    cases(ctx, True, 12 if ctx.thorough else 3)


@S.job(env=dict(SIMPSONS_NONEQ_PARTICLES='False', LOGARITHMIC_TIMESTEP='False'))
def gauss_linear(ctx):
    cases(ctx, False, 12 if ctx.thorough else 3)


@S.job(env=dict(ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='False'))
def euler(ctx):
    cases(ctx, True, 20 if ctx.thorough else 5)


if __name__ == '__main__':
    main(S)
