"""C29: with the library's real interactions neutrinos thermalise with the plasma, and decouple from it with the known residual heating."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C29', 'distinct = (job, flavours, initial distortions or step, decade of the deviation from equilibrium); non-trivial = a step in which real collision terms of all flavours exchanged energy with the plasma',
          assumptions=['electrons and photons are kept in equilibrium by electromagnetic interactions', 'first-order time stepping: the decoupling is judged after extrapolation in the step',
                       'coarse momentum grids (21 points): 1 % of the distributions'])


class World(object):
    def __init__(self, ctx, T0, step, layout, N=21, top=20., log=True, shapes=None, osc=False):
        import numpy as np
        from common import UNITS, LinearSpacedGrid
        from evolution import Universe
        from particles import Particle
        from library.SM import particles as SMP, interactions as SMI
        from lib import worlds
        self.ctx, self.UNITS = ctx, UNITS
        u = self.u = Universe(params=worlds.make_params(T0, step if log else step / T0, log))
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=N, MAX_MOMENTUM=top * UNITS.MeV)
        self.photon, self.electron = Particle(**SMP.photon), Particle(**SMP.leptons.electron)
        names = dict(two=['neutrino_e', 'neutrino_mu'], three=['neutrino_e', 'neutrino_mu', 'neutrino_tau'])[layout]
        self.nu = [Particle(**getattr(SMP.leptons, n), grid=grid) for n in names]
        for p in self.nu:
            p.decoupling_temperature = 1.3 * T0 * UNITS.MeV
        u.add_particles([self.photon, self.electron] + self.nu)
        self.y = grid.TEMPLATE / UNITS.MeV
        for p, (t, norm) in zip(self.nu, shapes or [(1., 1.)] * 3):
            p._distribution = norm / (np.exp(self.y / t) + 1)
            p.populate_methods()
        u.interactions += ctx.code('interactions', SMI.neutrino_interactions, leptons=[self.electron], neutrinos=self.nu)
        if osc:
            u.init_oscillations(SMP.leptons.oscillations_map, self.nu)
        u.params.init_time(u.total_energy_density())
        u.params.update(u.total_energy_density(), u.total_entropy())
        u.save_params()

    def step(self):
        from lib import worlds
        with worlds.quiet():
            self.ctx.code('step', self.u.make_step)
            self.u.save()
            self.u.step += 1

    def moment(self, p, k, f=None):
        """ dof / 2 pi^2 * integral of y^k f (natural spline through the logarithm-free table: Simpson on a refined thermal ratio) """
        import numpy as np
        f = p._distribution if f is None else f
        ratio = f * (np.exp(self.y) + 1)
        fine = np.linspace(0, self.y[-1], 20 * (len(self.y) - 1) + 1)
        from scipy.interpolate import CubicSpline
        from scipy.integrate import simpson
        g = CubicSpline(self.y, ratio)(fine) / (np.exp(fine) + 1)
        return p.dof / 2 / math.pi ** 2 * simpson(fine ** k * g, x=fine), fine, g

    def state(self):
        """ a, aT, comoving energies (a^4 rho, MeV^4) of plasma and neutrinos, comoving pressure, comoving entropy """
        import numpy as np
        from scipy.integrate import simpson
        from lib import phys
        M, a, T = self.UNITS.MeV, self.u.params.a, self.u.params.T
        _, r1, p1, s1 = phys.thermo(2, 0., T, -1)
        _, r2, p2, s2 = phys.thermo(4, self.electron.mass, T, 1)
        plasma, P, s = (r1 + r2) * a ** 4 / M ** 4, (p1 + p2) * a ** 4 / M ** 4, (s1 + s2) * a ** 3 / M ** 3
        nu = 0.
        for p in self.nu:
            m, fine, g = self.moment(p, 3)
            nu += m
            g = np.clip(g, 1e-300, 1 - 1e-15)
            s += p.dof / 2 / math.pi ** 2 * simpson(-fine ** 2 * (g * np.log(g) + (1 - g) * np.log1p(-g)), x=fine)
        return a, a * T / M, plasma, nu, P + nu / 3, s


def thermal(w):
    import numpy as np
    aT = w.u.params.aT / w.UNITS.MeV
    return 1 / (np.exp(w.y / aT) + 1)


def relax(ctx, layout, log=True, osc=False):
    """ distorted neutrinos at a temperature at which they interact many times per expansion time """
    import numpy as np
    r = ctx.rng
    for case in range(2 if ctx.thorough and not osc else 1):
        T0 = r.uniform(14., 17.)
        shapes = [(r.uniform(.9, 1.15), r.uniform(.6, 1.)) for _ in range(3)]
        if layout == 'three':
            shapes[2] = shapes[1]
        step = .0125 if ctx.thorough and not osc else .025
        w = World(ctx, T0, step, layout, shapes=shapes, log=log, osc=osc)
        start = w.state()
        rec = [start]
        total = start[2] + start[3]
        feq = thermal(w)
        dev0 = max(float(np.max(np.abs(p._distribution / feq - 1)[2:10])) for p in w.nu)
        for k in range(int(round(.5 / step))):
            w.step()
            st = w.state()
            rec.append(st)
            feq = thermal(w)
            dev = max(float(np.max(np.abs(p._distribution / feq - 1)[2:10])) for p in w.nu)
            ctx.seen(layout, case, log, int(-4 * math.log10(dev + 1e-9)))
            for p in w.nu:
                f = p._distribution
                ctx.check(np.all(np.isfinite(f)) and np.all(f >= 0) and np.all(f <= 1), 'distribution outside of [0, 1]', T0=T0, shapes=shapes, k=k)
            if len(w.nu) == 3 and not osc:
                d = float(np.max(np.abs(w.nu[1]._distribution / w.nu[2]._distribution - 1)[:14]))
                ctx.check(d < 5e-3, 'equal flavours evolve differently', T0=T0, shapes=shapes, k=k, worst=d)
                ctx.stat('difference of equal flavours', d)
        # energy: d(a^4 rho) = (rho - 3 P) a^3 da
        source = sum((b[0] / a[0] - 1) * ((a[2] + a[3] - 3 * a[4]) + (b[2] + b[3] - 3 * b[4])) / 2 for a, b in zip(rec, rec[1:]))
        end = rec[-1]
        gap = (end[2] + end[3] - total - source) / total
        ctx.stat('energy imbalance', gap)
        ctx.stat('heat exchanged', (end[3] - start[3]) / total)
        ctx.stat('remaining deviation', dev)
        ctx.stat('initial deviation', dev0)
        ctx.stat('entropy produced', end[5] / start[5] - 1)
        ctx.check(abs(gap) < 2.5e-3, 'energy is not conserved while neutrinos thermalise', T0=T0, shapes=shapes, imbalance=gap)
        ctx.check(dev < max(.06, .08 * dev0), 'neutrinos do not reach the temperature of the plasma', T0=T0, shapes=shapes, deviation=dev, initial=dev0)
        ctx.check(end[5] > start[5], 'entropy decreased', T0=T0, shapes=shapes, change=end[5] / start[5] - 1)
        ctx.require('initial deviation (%)', int(100 * dev0), 10)


@S.job(env=dict(OMP_NUM_THREADS='3', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='False'), timeout=850)
def relax_two(ctx):
    relax(ctx, 'two')


@S.job(env=dict(OMP_NUM_THREADS='3', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='False'), timeout=850)
def relax_three(ctx):
    relax(ctx, 'three')


@S.job(env=dict(OMP_NUM_THREADS='3', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='False', LOGARITHMIC_TIMESTEP='False'), timeout=850)
def relax_linear(ctx):
    relax(ctx, 'two', log=False)


@S.job(env=dict(OMP_NUM_THREADS='3', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='False'), timeout=850, tiers=('thorough',))
def relax_oscillating(ctx):
    relax(ctx, 'three', osc=True)


def decouple(ctx, step, N):
    """ standard decoupling: 5 MeV to well below the electron mass; returns aT and residual energies """
    import numpy as np
    w = World(ctx, 5., step, 'three', N=N)
    n = 0
    while w.u.params.T > .12 * w.UNITS.MeV:
        w.step()
        n += 1
        e, m, t = [(w.moment(p, 3)[0] / (p.dof * 7 / 240 * math.pi ** 2) - 1) for p in w.nu]
        ctx.seen('decoupling', step, n)
        if n > 10:
            ctx.check(e > m > -2e-4, 'electron neutrinos gain more energy than the others', T=w.u.params.T / w.UNITS.MeV, e=e, mu=m)
    w.u.interactions = tuple()
    while w.u.params.T > .01 * w.UNITS.MeV:
        w.step()
    ctx.check(abs(t - m) < 1e-6, 'muon and tau neutrinos decouple alike', mu=m, tau=t)
    return w.u.params.aT / w.UNITS.MeV, e, m, w.u.params.N_eff


@S.job(env=dict(OMP_NUM_THREADS='4'), timeout=850)
def decoupling(ctx):
    steps = (.05, .025) if ctx.thorough else (.1, .05)
    N = 21
    (T1, e1, m1, _), (T2, e2, m2, rec) = [decouple(ctx, s, N) for s in steps]
    T, e, m = [2 * b - a for a, b in ((T1, T2), (e1, e2), (m1, m2))]
    # residual heating in the literature (Dolgov, Hansen, Semikoz 1997; no electromagnetic corrections): 0.95 %, 0.40 %, aT = 1.3991
    for k, v in (('aT', T), ('e', e), ('mu', m), ('aT1', T1), ('aT2', T2), ('e2', e2), ('m2', m2)):
        ctx.stat('residual ' + k, v)
    ctx.check(abs(T - 1.3991) < 1.2e-3, 'heating of the photons after decoupling', extrapolated=T, literature=1.3991, steps=(T1, T2))
    ctx.check(abs(e / .0094 - 1) < .15, 'residual heating of electron neutrinos', extrapolated=e, literature=.0094, finest=e2)
    ctx.check(abs(m / .0038 - 1) < .25, 'residual heating of muon and tau neutrinos', extrapolated=m, literature=.0039, finest=m2)
    neff = (1 + e + 2 * (1 + m)) * (1.401019 / T) ** 4
    ctx.stat('N_eff', neff)
    ctx.check(abs(neff - 3.034) < .012, 'effective number of neutrinos', extrapolated=neff, literature=3.034)
    # the record itself, at the last step: densities are those of the state one step earlier
    ctx.check(abs(rec / (3.034 * (1.3991 / T2) ** 4) - 1) < .06, 'recorded effective number of neutrinos', recorded=rec)


if __name__ == '__main__':
    main(S)
