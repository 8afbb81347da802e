"""C20: semi-analytic nucleosynthesis estimates are taken once, at the right moments, from the right state."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C20', 'distinct = (order of the two events, direction of the rate ratio, rows before the event, calls after it); non-trivial = a history in which an estimate was produced',
          assumptions=['criterion documented in the code: neutrons decouple when the summed forward and backward conversion rates differ by a factor of ten'])
TAU = 885.7


class Replica(object):
    def __init__(self):
        self.n = self.d = self.est = None

    def feed(self, rates, T, t, q):
        if self.n is None and rates is not None:
            f, b = sum(rates[0::2]), sum(rates[1::2])
            ratio = f / b if b > 0 else float('inf')
            if ratio > 10 or ratio < .1:
                self.n = (T, t)
        if self.d is None and T <= .065:
            self.d = (T, t)
        if self.n and self.d and self.est is None:
            dt = self.d[1] - self.n[1]
            r = math.exp(-q / self.n[0] - dt / TAU)
            self.est = (dt, r, 2 * r / (1 + r))


def judge(ctx, u, rep, det):
    from common import UNITS
    for attr, ref, name in (('neutron_decoupling_parameters', rep.n, 'neutron decoupling'), ('deuterium_generation_parameters', rep.d, 'deuterium formation')):
        has = hasattr(u, attr)
        if not ctx.check(has == (ref is not None), name + ':moment', present=has, want=ref, **det):
            continue
        if has:
            p = getattr(u, attr)
            ctx.check(p is not u.params, name + ':not a copy of the state')
            ctx.close(p.T / UNITS.MeV, ref[0], name + ':temperature', rel=1e-9, **det)
            ctx.close(p.t / UNITS.s, ref[1], name + ':time', rel=1e-9, abs_=1e-12, **det)
    has = hasattr(u, 'BBN_estimates')
    if not ctx.check(has == (rep.est is not None), 'estimate:moment', present=has, **det):
        return False
    if has:
        dt, r, Y = u.BBN_estimates
        ctx.close(dt / UNITS.s, rep.est[0], 'estimate:decay time', rel=1e-9, abs_=1e-9, **det)
        ctx.close(r, rep.est[1], 'estimate:neutron to proton ratio', rel=1e-4, **det)
        ctx.close(Y, rep.est[2], 'estimate:helium fraction', rel=1e-4, **det)
        ctx.close(Y, 2 * r / (1 + r), 'estimate:helium from neutrons', rel=1e-12, **det)
        ctx.check(0 < Y < 1 or r < 1e-300 or rep.est[0] < 0, 'estimate:range', got=Y)
    return has


@S.job()
def histories(ctx):
    """ synthetic histories of rates and temperatures fed to the monitor """
    import kawano, semianalytic
    from common import UNITS, utils
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    q = kawano.q / MeV
    made = 0

    class U(object):
        def __setattr__(self, name, value):
            if name in ('neutron_decoupling_parameters', 'deuterium_generation_parameters', 'BBN_estimates'):
                ctx.check(not hasattr(self, name), 'taken more than once', what=name)
            self.__dict__[name] = value
    for case in range(600 if ctx.thorough else 150):
        u = U()
        T = 10 ** r.uniform(-1, 1)
        u.params = worlds.free_params(T * MeV, 1. / T)
        u.params.t = r.uniform(0, 5) * UNITS.s
        u.params.N_eff = 3.
        u.kawano = kawano
        u.kawano_data = utils.DynamicRecArray(kawano.heading)
        cols = u.kawano_data.columns
        rep = Replica()
        mode = r.choice(['physical', 'physical', 'jump', 'inverse', 'early', 'never'])
        n = r.randint(5, 60)
        fac = (T / (10 ** r.uniform(-2.2, -1.25))) ** (1. / n)
        first = r.choice([0, 0, 1, 5])
        for k in range(n):
            Tm = u.params.T / MeV
            rates = None
            if k > first or len(u.kawano_data):
                if mode == 'physical':
                    f = [r.uniform(.5, 2) * Tm ** 5 for _ in range(3)]
                    b = [x * math.exp(-q / Tm) for x in f]
                elif mode == 'never':
                    f = [r.uniform(.5, 2) for _ in range(3)]
                    b = [x * r.uniform(.5, 2) for x in f]
                else:
                    f = [r.uniform(0, 2) for _ in range(3)]
                    hit = k > n // 2 or mode == 'early'
                    b = [x * ((r.uniform(.01, .09) if mode != 'inverse' else r.uniform(11, 50)) if hit else r.uniform(.2, 5)) for x in f]
                row = {c: r.random() for c in cols}
                rates = [v for pair in zip(f, b) for v in pair]
                row.update({cols[6 + i]: v for i, v in enumerate(rates)})
                u.kawano_data.append(row)
            rep.feed(rates, Tm, u.params.t / UNITS.s, q)
            before = (getattr(u, 'BBN_estimates', None))
            with worlds.quiet() as printed:
                ctx.code('monitor', semianalytic.step_monitor, u)
            if before is not None:
                ctx.check(printed.getvalue() == '', 'reported again after the estimate was made', mode=mode, step=k, text=printed.getvalue()[:200])
            elif rep.est is not None:
                ctx.check(printed.getvalue() != '', 'estimate is not reported', mode=mode, step=k)
            done = judge(ctx, u, rep, dict(mode=mode, step=k, T=Tm))
            if before is not None:
                ctx.check(u.BBN_estimates == before, 'estimate changes after it was made', mode=mode)
            worlds.move(u.params, u.params.T / fac, u.params.a * fac, dt=r.uniform(0, 40) * UNITS.s)
        if rep.est:
            made += 1
        ctx.seen(mode, first, rep.n is not None, rep.d is not None, bool(rep.est) and rep.est[0] >= 0)
    ctx.require('estimates', made, 30)


@S.job(timeout=800)
def evolution(ctx):
    """ attached to real evolutions through the universe's step monitor """
    import numpy as np
    import kawano, semianalytic
    from common import UNITS
    from evolution import Universe
    from library import SM
    from particles import Particle
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    q = kawano.q / MeV
    for case in range(6 if ctx.thorough else 2):
        T0 = r.choice([4., 6., 12.])
        with worlds.quiet():
            u = Universe(params=worlds.make_params(T0, r.choice([.04, .05]), True))
            el = Particle(**SM.particles.leptons.electron)
            ne = Particle(**dict(SM.particles.leptons.neutrino_e, decoupling_temperature=r.choice([0., 1.5 * MeV])))
            nm = Particle(**dict(SM.particles.leptons.neutrino_mu, dof=r.choice([2, 4, 6]), decoupling_temperature=r.choice([0., 1.5 * MeV])))
            u.add_particles([Particle(**SM.particles.photon), el, ne, nm])
            u.init_kawano(electron=el, neutrino=ne)
            calls = []
            rep = Replica()

            def mon(v):
                calls.append(1)
                # the state shown to monitors is one consistent state: that of the last recorded row
                par, D = v.params, v.data
                row = {k: float(D[k][len(D) - 1]) for k in ('T', 'a', 'aT', 't', 'x', 'N_eff')}
                ctx.check(len(D) == len(calls), 'monitor runs at the wrong moment', rows=len(D), calls=len(calls))
                for k, val in row.items():
                    ctx.close(getattr(par, k), val, 'monitor sees an inconsistent state', rel=1e-12, column=k)
                ctx.close(par.T * par.a, par.aT, 'monitor sees an inconsistent state', rel=1e-12, column='T a')
                K = v.kawano_data
                rates = [float(K[c][len(K) - 1]) for c in K.columns[6:]] if len(K) else None
                rep.feed(rates, v.params.T / MeV, v.params.t / UNITS.s, q)
                semianalytic.step_monitor(v)
                judge(ctx, v, rep, dict(T=v.params.T / MeV))
            u.step_monitor = mon
            data = ctx.code('evolve', u.evolve, .05 * MeV)
        ctx.check(len(calls) == len(data) - 1, 'monitor is called once per step', calls=len(calls), steps=len(data) - 1)
        if ctx.check(rep.est is not None and hasattr(u, 'BBN_estimates'), 'no estimate from an evolution through nucleosynthesis'):
            dt, x, Y = u.BBN_estimates
            ctx.stat('helium fraction', Y)
            ctx.check(.05 < Y < .35 and 60 < dt / UNITS.s < 600, 'estimate is unphysical', Y=Y, dt=dt / UNITS.s)
        ctx.seen('evolution', T0, ne.in_equilibrium, nm.dof)


if __name__ == '__main__':
    main(S)
