"""C05: the kinetic update of a distribution function: finite, non-negative, faithful to the collision term, recorded."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C05', 'distinct = (workload, statistics, mass, corruption of the collision term, step size, history length); '
                 'non-trivial = an update whose result was recomputed independently',
          assumptions=['collision terms are imposed by stand-in integrals of known value; real ones are the subject of C15 and C16'])


def new_particle(ctx, rng, dy, eq=False, **kw):
    import numpy as np
    from common import UNITS, LinearSpacedGrid
    from lib import worlds
    MeV = UNITS.MeV
    T = float(np.exp(rng.uniform(np.log(.05), np.log(50)))) * MeV
    par = worlds.free_params(T, MeV / T, dy=dy)
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=rng.choice([11, 51, 101, 401]), MAX_MOMENTUM=rng.choice([20, 50, 100]) * MeV)
    m = rng.choice([0., 0., .5, 30.])
    d = dict(decoupling_temperature=(T * .3 if eq else T * 1.5), grid=grid)
    d.update(kw)
    p = worlds.spec_particle(0, rng.choice([1, 2, 4]), m, rng.choice([1, 1, -1]) if m else 1, **d)
    with worlds.quiet():
        ctx.code('create', p.set_params, par)
    return p, par


@S.job()
def imposed(ctx):
    """ collision terms of arbitrary value, including undefined and violently negative ones """
    import numpy as np
    from lib import worlds
    r = ctx.rng
    rng = np.random.RandomState(ctx.np_seed)
    neg = nan = 0
    for i in range(400 if ctx.thorough else 90):
        h = r.choice([.001, .01, .05, .1])
        p, par = new_particle(ctx, r, h)
        n = len(p.grid.TEMPLATE)
        expected = [p._distribution.copy()]
        hist0 = len(p.data['distribution'])
        steps = r.choice([1, 2, 7, 12, 35])
        for s in range(steps):
            kind = r.choice(['small', 'small', 'zero', 'large', 'nan', 'allnan', 'tiny'])
            scale = dict(small=.1, zero=0., large=30., nan=.5, allnan=1., tiny=1e-200)[kind] / h
            I = rng.normal(size=n) * scale * np.maximum(p._distribution, 1e-8)
            bad = np.zeros(n, dtype=bool)
            if kind == 'nan':
                bad[rng.choice(n, size=max(1, n // 5), replace=False)] = True
            elif kind == 'allnan':
                bad[:] = True
            I[bad] = np.nan
            p.collision_integral = I.copy()
            before = p._distribution.copy()
            with worlds.quiet():
                ctx.code('update_distribution', p.update_distribution)
            clean = np.where(bad, 0., I)
            want = np.maximum(before + clean * h, 0.)
            f = p._distribution
            det = dict(kind=kind, h=h, step=s, n=n)
            ctx.check(len(f) == n and np.all(np.isfinite(f)), 'not finite', **det)
            ctx.check(np.all(f >= 0), 'negative', **det)
            ctx.check(np.allclose(f, want, rtol=1e-12, atol=1e-300), 'increment', worst=float(np.max(np.abs(f - want))), **det)
            neg += int(np.any(before + clean * h < 0))
            nan += int(bad.any())
            expected.append(f.copy())
            ctx.check(p.collision_integrals == [], 'collision integrals not cleared', **det)
            with worlds.quiet():
                if r.random() < .7:
                    worlds.move(par, par.T / 1.05, par.a * 1.05, dt=1.)
                    par.aT = par.T * par.a
                    p.update()
                    ctx.check(np.array_equal(p._distribution, f), 'update of a decoupled species changed it', **det)
                    ctx.check(np.all(p.collision_integral == 0), 'collision term carried over to the next step', **det)
            ctx.seen('imposed', kind, p.eta, p.mass > 0, h, steps)
        rows = p.data['distribution']
        ctx.check(len(rows) == hist0 + steps, 'history length', rows=len(rows), steps=steps)
        ok = len(rows) == hist0 + steps and all(np.array_equal(rows[hist0 - 1 + k], e) for k, e in enumerate(expected))
        ctx.check(ok, 'history', steps=steps, n=n)
        ctx.check(len(p.data['collision_integral']) == steps, 'collision history length', rows=len(p.data['collision_integral']), steps=steps)
    ctx.require('negative excursions', neg, 10)
    ctx.require('undefined entries', nan, 10)


@S.job()
def infinite(ctx):
    """ an infinite collision term is never accepted silently """
    import numpy as np
    from lib import worlds
    r = ctx.rng
    for i in range(30):
        p, par = new_particle(ctx, r, .05)
        I = np.zeros(len(p.grid.TEMPLATE))
        I[r.randrange(len(I))] = r.choice([np.inf, -np.inf])
        if r.random() < .5:
            I[0] = np.nan
        p.collision_integral = I
        try:
            p.update_distribution()
        except AssertionError:
            pass
        except Exception as e:
            ctx.check(False, 'infinite:' + type(e).__name__)
        ctx.check(np.all(np.isfinite(p._distribution)) and np.all(p._distribution >= 0), 'infinite')
        ctx.seen('infinite', len(I))


class Relax(object):
    """ stand-in for a collision integral: df/dh = A + B f, or one of the two terms of it """
    def __init__(self, p, A, B, kind='Full'):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
        self.kind, self.p, self.A, self.B = getattr(K, kind), p, A, B
        self.name = kind
        self.calls = 0

    def integrate(self, ps, stepsize=None):
        import numpy as np
        self.calls += 1
        B = self.B * np.ones(len(ps))
        if self.name in SOURCES:
            return self.A * np.ones(len(ps))
        if self.name in LOSSES:
            return B * self.p._distribution, B
        return self.A + B * self.p._distribution, B


SOURCES = ('F_1', 'F_1_vacuum_decay', 'F_creation')
LOSSES = ('F_f', 'F_f_vacuum_decay', 'F_decay')


def stand_ins(p, parts, split):
    """ the terms of the relaxation equation: together, or as separate collision integrals for source and loss """
    if split is None:
        return [Relax(p, A, B) for A, B in parts]
    return [Relax(p, A, B, k) for A, B in parts for k in (SOURCES[split], LOSSES[split])]


def relax(ctx, p, parts, f0, n, h, split=None):
    import numpy as np
    p._distribution = f0.copy()
    out = [f0.copy()]
    for i in range(n):
        stubs = stand_ins(p, parts, split)
        p.collision_integrals = list(stubs)
        p.collision_integral = ctx.code('integrate_collisions', p.integrate_collisions)
        ctx.check(all(s.calls == 1 for s in stubs), 'each collision integral is evaluated once per step')
        p.update_distribution()
        out.append(p._distribution.copy())
    return np.array(out)


@S.job()
def relaxation(ctx):
    """ the implicit multistep scheme against the exact solution of the relaxation equation """
    import numpy as np
    r = ctx.rng
    for i in range(60 if ctx.thorough else 20):
        errs = []
        split = [None, 0, 1, 2][i % 4]
        Bs = [-r.uniform(.2, 2.) for _ in range(r.choice([1, 1, 2, 3]))]
        seed = r.randrange(10 ** 9)
        feq = r.uniform(.05, .6)
        for h in (.04, .02, .01):
            rr = __import__('random').Random(seed)
            p, par = new_particle(ctx, rr, h)
            n = len(p.grid.TEMPLATE)
            f0 = np.linspace(.01, .9, n)
            B = sum(Bs)
            parts = [(-b * feq, b) for b in Bs]
            N = int(round(1.2 / h))
            o = relax(ctx, p, parts, f0, N, h, split)
            ex = feq + (f0 - feq)[None, :] * np.exp(B * h * np.arange(N + 1))[:, None]
            errs.append(np.max(np.abs(o - ex)))
            lo, hi = np.minimum(f0, feq), np.maximum(f0, feq)
            ctx.check(np.all(o >= lo - .12 * (hi - lo) - 1e-12) and np.all(o <= hi + .12 * (hi - lo) + 1e-12), 'relaxation overshoots', B=B, h=h)
        ctx.check(errs[0] <= .5 * .04 * abs(B), 'relaxation accuracy', err=errs[0], B=B)
        ctx.check(errs[2] <= .35 * errs[0] + 1e-6, 'relaxation does not converge', errs=repr(errs), B=B)
        ctx.stat('relaxation order', np.log(errs[0] / errs[2]) / np.log(4))
        ctx.seen('relaxation', len(Bs), round(abs(B)), split)
    # stiff: many collision times per step
    for i in range(40 if ctx.thorough else 12):
        h = r.choice([.01, .05, .1])
        p, par = new_particle(ctx, r, h)
        n = len(p.grid.TEMPLATE)
        B = -float(np.exp(r.uniform(np.log(30), np.log(1e6)))) / h
        feq = np.linspace(.02, .7, n)
        split = [None, 0, 1, 2][i % 4]
        f0 = np.linspace(.9, 0., n)
        o = relax(ctx, p, [(-B * feq, B)], f0, 25, h, split)
        ctx.check(np.all(np.isfinite(o)) and np.all(o >= 0), 'stiff relaxation finite')
        first = np.abs(o[1] - feq) <= .09 * np.abs(f0 - feq) + 1e-12
        ctx.check(np.all(first), 'stiff relaxation first step', hB=h * B, worst=float(np.max(np.abs(o[1] - feq))))
        ctx.check(np.max(np.abs(o[-1] - feq)) < 2e-3, 'stiff relaxation converges to equilibrium', hB=h * B, worst=float(np.max(np.abs(o[-1] - feq))))
        # a species that is already in equilibrium stays there
        p2, _ = new_particle(ctx, r, h)
        n = len(p2.grid.TEMPLATE)
        feq = np.linspace(.02, .7, n)
        o = relax(ctx, p2, [(-B * feq, B)], feq.copy(), 12, h, split)
        ctx.check(np.max(np.abs(o - feq[None, :])) < 1e-9, 'equilibrium is a fixed point', worst=float(np.max(np.abs(o - feq[None, :]))))
        ctx.seen('stiff', int(np.log10(-B * h)), split)


@S.job()
def production(ctx):
    """ constant source: the distribution grows by source times elapsed log time, exactly """
    import numpy as np
    r = ctx.rng
    for i in range(40 if ctx.thorough else 12):
        h = r.choice([.01, .05])
        p, par = new_particle(ctx, r, h)
        n = len(p.grid.TEMPLATE)
        A = np.linspace(0, 1, n) * r.uniform(1e-6, 1e-2)
        N = r.choice([1, 3, 6, 20])
        o = relax(ctx, p, [(A, 0.)], np.zeros(n), N, h)
        ctx.check(np.allclose(o[-1], A * h * N, rtol=1e-10, atol=1e-300), 'constant source', N=N, h=h)
        ctx.seen('production', N, h)


@S.job()
def equilibrium(ctx):
    """ species in equilibrium ignore collision terms; without integrals nothing changes """
    import numpy as np
    from lib import worlds
    r = ctx.rng
    for i in range(80 if ctx.thorough else 30):
        p, par = new_particle(ctx, r, .05, eq=True)
        f = p._distribution.copy()
        rows = len(p.data['distribution'])
        p.collision_integral = np.random.RandomState(i).normal(size=len(f))
        with worlds.quiet():
            ctx.code('update_distribution', p.update_distribution)
        ctx.check(np.array_equal(f, p._distribution), 'equilibrium species changed')
        ctx.check(np.allclose(f, 1 / (np.exp(np.sqrt(p.grid.TEMPLATE ** 2 + (p.mass * par.a) ** 2) / par.aT) + p.eta), rtol=1e-10), 'equilibrium distribution')
        # the same function at any momentum and temperature
        y, T2 = np.array([r.uniform(0, 30.) for _ in range(5)]) * par.aT, par.aT * r.uniform(.5, 2.)
        got = ctx.code('equilibrium distribution', p.equilibrium_distribution, y=y, aT=T2)
        ctx.check(np.allclose(got, 1 / (np.exp(np.sqrt(y ** 2 + (p.mass * par.a) ** 2) / T2) + p.eta), rtol=1e-10), 'equilibrium distribution off the grid')
        q, par = new_particle(ctx, r, .05)
        f = q._distribution.copy()
        q.collision_integrals = []
        z = ctx.code('integrate_collisions', q.integrate_collisions)
        ctx.check(len(z) == len(f) and np.all(z == 0), 'no collisions, no change')
        ctx.seen('equilibrium', p.eta, p.mass > 0, len(f))


@S.job()
def unstable(ctx):
    """ short-lived species: exponential decay of the decoupled distribution with the given lifetime """
    import numpy as np
    from common import UNITS
    from lib import worlds
    r = ctx.rng
    for i in range(60 if ctx.thorough else 20):
        tau = float(np.exp(r.uniform(np.log(1e-3), np.log(1e3)))) * UNITS.s
        thermal = r.random() < .7
        p, par = new_particle(ctx, r, .05, fast_decay=True, lifetime=tau, BR={}, thermal_dyn=thermal)
        t0 = par.t = tau * r.uniform(.1, 1)
        M = p.mass * p.aT / p.decoupling_temperature
        with worlds.quiet():
            for k in range(4):
                p.update()
                ctx.code('update_distribution', p.update_distribution)
                if k == 0:
                    first = p.data['params']['t'][1]
                if thermal:
                    want = np.exp(-(par.t - first) / tau) / (np.exp(np.sqrt(p.grid.TEMPLATE ** 2 + M ** 2) / p.aT) + p.eta)
                else:
                    want = np.zeros(len(p.grid.TEMPLATE))
                ctx.check(np.allclose(p._distribution, want, rtol=1e-9, atol=1e-300), 'exponential decay', k=k, thermal=thermal)
                ctx.check(np.all(p._distribution >= 0) and np.all(np.isfinite(p._distribution)), 'decayed distribution')
                worlds.move(par, par.T / 1.2, par.a * 1.2, dt=tau * r.uniform(.2, 3))
        ctx.seen('unstable', thermal, p.eta, p.mass > 0)


if __name__ == '__main__':
    main(S)
