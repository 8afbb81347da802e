"""C15: collisions leave equilibrium alone, conserve energy and particle numbers, and never decrease entropy."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C15', 'distinct = (type of process, masses, statistics, which species are tabulated or in equilibrium, matrix element); non-trivial = a process whose gain and '
                 'loss are both nonzero and were balanced against each other or against the other participants',
          assumptions=['the collision integrator is accurate to about 1 %: balances are judged relative to the gross rates at 3 %'])

MASSES4 = [(0, 0, 0, 0), (0, 0, 1., 1.), (0, 1., 0, 1.), (1., 1., 2., 0.), (2.5, 0, 0, 1.), (1., .5, .7, 1.2), (0, .5, 1.5, 0), (2., 2., 0., 0.)]
DECAYS4 = [(4.5, 0, 0, 0), (5., 0, 1., 1.), (6., 1., .5, 1.5), (5., 1., 0, 0)]
DECAYS3 = [(4., 0, 0), (4., 1., 0), (5., 1.5, 2.), (3., 1., 1.2), (8., 0., 5.)]


def orders(r):
    import itertools
    return r.choice(list(itertools.permutations(range(4))))


class World(object):
    def __init__(self, ctx, masses, eta, shapes, eq=(), samples=(61, 73, 81), top=26., T=None, tdec=None):
        import numpy as np
        from common import UNITS, LinearSpacedGrid
        from lib import worlds
        r = ctx.rng
        MeV = UNITS.MeV
        self.T = T = (T or math.exp(r.uniform(math.log(.3), math.log(30.)))) * MeV
        aT = MeV * r.choice([1., 1., 1.3, .8])
        self.par = worlds.free_params(T, aT / T, dy=.05)
        self.par.H = math.exp(r.uniform(-2, 2)) * T ** 2 * 1e-22
        self.a, self.aT = self.par.a, aT
        self.sp = []
        self.eta = eta
        n = r.choice(samples)
        for i, (x, e) in enumerate(zip(masses, eta)):
            g = LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=aT * top)
            p = worlds.spec_particle(i, r.choice([1, 2, 4]), x * T / MeV, e, decoupling_temperature=T * (.5 if i in eq else 1.000001), grid=g, majorana=r.random() < .5)
            with worlds.quiet():
                ctx.code('create', p.set_params, self.par)
            t, mu = shapes[i]
            self.shape(p, x, t, mu, e)
            if i in eq:
                p._distribution = p._distribution * 0 + .123          # must not be used
            self.sp.append(p)

    def shape(self, p, x, t, mu, e):
        import numpy as np
        E = np.sqrt((p.grid.TEMPLATE / self.aT) ** 2 + x * x)
        p._distribution = 1. / (np.exp(np.minimum((E - mu) / t, 500)) + e)
        p.aT = self.aT * t

    def div(self, i):
        return self.sp[i].dof / (1. if self.sp[i].majorana else 2.)


def process(w, perm, sides, Ms, three=False, kind=None):
    """ the same process seen from the species perm[0]; Ms given in the labelling of w.sp """
    from interactions import IntegralItem
    from interactions.four_particle import FourParticleIntegral, FourParticleM, CollisionIntegralKind as Kind
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    flip = -1 if sides[perm[0]] > 0 else 1
    reaction = [IntegralItem(side=sides[i] * flip, specie=w.sp[i], antiparticle=False, index=i, crossed=False) for i in perm]
    if three:
        inter = ThreeParticleIntegral(particle=w.sp[perm[0]], reaction=reaction, kind=kind or Kind.Full, Ms=[ThreeParticleM(K=Ms)])
    else:
        pos = {i: k for k, i in enumerate(perm)}
        inter = FourParticleIntegral(particle=w.sp[perm[0]], reaction=reaction, kind=kind or Kind.Full,
                                     Ms=[FourParticleM(K1=K1, K2=K2, order=tuple(pos[i] for i in o)) for K1, K2, o in Ms])
    inter.initialize()
    return inter


def views(sides):
    """ for each participant, the labelling with itself first, then its own side, then the other side """
    n = len(sides)
    for i in range(n):
        own = [j for j in range(n) if j != i and sides[j] == sides[i]]
        other = [j for j in range(n) if sides[j] != sides[i]]
        yield i, [i] + own + other


def matrix_elements(r):
    from common import CONST
    W = 32 * CONST.G_F ** 2
    out = []
    for _ in range(r.choice([1, 1, 2])):
        K1, q = r.uniform(.3, 3), r.choice([0., 0., r.uniform(-.3, .3)])
        out.append((K1 * W, K1 * q * W, orders(r)))
    return out


def accurate(ctx, inter, y):
    """ evaluate with the absolute accuracy of the integrator set well below the result """
    at_rest = [i.side for i in inter.reaction].count(-1) == 1       # decay of a particle at rest: the integrator is only asked for its usual accuracy
    C, B = ctx.code('integrate', inter.integrate, y.copy(), stepsize=1e-30)
    import numpy as np
    f = inter.particle._distribution
    scale = max(np.max(np.abs(C - f * B)), np.max(np.abs(B)), 1e-300)
    return ctx.code('integrate', inter.integrate, y.copy(), stepsize=(.4 if at_rest else 3.) / scale), scale


@S.job()
def stationary(ctx):
    """ common temperature, all chemical potentials in balance """
    import numpy as np
    r = ctx.rng
    n = 0
    for case in range(120 if ctx.thorough else 24):
        kind = ['scattering', 'decay', 'three'][case % 3] if case % 4 else 'scattering'
        masses = r.choice(dict(scattering=MASSES4, decay=DECAYS4, three=DECAYS3)[kind])
        masses = [x * r.uniform(.9, 1.1) for x in masses]
        if kind != 'scattering':
            masses[0] *= 1.2
        eta = [r.choice([1, -1]) if x > .3 else 1 for x in masses]
        sides = dict(scattering=(-1, -1, 1, 1), decay=(-1, 1, 1, 1), three=(-1, 1, 1))[kind]
        t = 1.
        mu = [0.] * len(masses)
        eq = []
        chem = r.random() < .5
        if chem:            # chemical potentials that balance, and a common temperature other than that of the plasma
            t = r.uniform(.8, 1.2)
            mu = [r.uniform(-1, .2) if e > 0 else r.uniform(-1, -.1) for e in eta]
            k = 3 if kind == 'scattering' else 0
            # the balancing one; keep it valid for bosons
            mu[k] = 0.
            mu[k] = -sides[k] * sum(s * m for s, m in zip(sides, mu))
            if eta[k] < 0 and mu[k] > masses[k] - .2:
                continue
        else:
            eq = [i for i in range(1, len(masses)) if r.random() < .3]
        w = World(ctx, masses, eta, [(t, m) for m in mu], eq=eq)
        Ms = (w.T ** 2 * 1e-20) if kind == 'three' else matrix_elements(r)
        for i, perm in views(sides):
            if i in eq or kind == 'three' and masses[i] == 0 and sides[i] < 0:
                continue
            p = w.sp[i]
            y = p.grid.TEMPLATE
            inter = process(w, perm, sides, Ms, three=kind == 'three')
            (C, B), scale = accurate(ctx, inter, y)
            f = p._distribution
            gain = C - f * B
            gross = np.maximum(np.abs(gain), np.abs(f * B))
            live = gross > 1e-3 * np.max(gross)
            worst = float(np.max(np.abs(C[1:]) / np.maximum(gross[1:], 1e-2 * np.max(gross)))) if np.max(gross) > 0 else 0.
            det = dict(kind=kind, species=i, masses=masses, eta=eta, eq=eq, mu=mu, t=t)
            tol = 2e-6 if kind == 'three' else .05
            ctx.stat('imbalance:' + kind, worst)
            if not ctx.check(np.all(np.isfinite(C)) and worst <= tol, 'equilibrium disturbed:' + kind, worst=worst, **det):
                continue
            rest = float(abs(C[0]) / max(gross[0], 1e-2 * np.max(gross))) if np.max(gross) > 0 else 0.
            ctx.check(rest <= .15, 'equilibrium disturbed at rest:' + kind, worst=rest, **det)
            if live.any():
                n += 1
                ctx.check(np.all(B[live] <= 0) or eta[i] < 0, 'loss term has the wrong sign', **det)
                ctx.seen(kind, i, tuple(x > 0 for x in masses), tuple(eta), tuple(eq), chem)
    ctx.require('balanced processes', n, 25)


@S.job()
def conservation(ctx):
    """ the four (three) collision terms of one process: same number of events for each participant, no energy created """
    import numpy as np
    from scipy.integrate import simpson
    r = ctx.rng
    n = 0
    for case in range(60 if ctx.thorough else 18):
        kind = ['scattering', 'decay'][case % 2] if case % 3 else 'scattering'
        masses = [x * r.uniform(.9, 1.1) for x in r.choice(MASSES4 if kind == 'scattering' else DECAYS4)]
        eta = [r.choice([1, -1]) if x > .3 else 1 for x in masses]
        sides = dict(scattering=(-1, -1, 1, 1), decay=(-1, 1, 1, 1))[kind]
        # one side hotter and denser than the other
        hot = r.choice([-1, 1])
        shapes = [(1.2, 0. if e > 0 else -.2) if s == hot else (.75, r.uniform(-3, -1.5)) for s, e in zip(sides, eta)]
        w = World(ctx, masses, eta, shapes)
        Ms = matrix_elements(r)
        N, En, Sg, gross, egross = [], [], 0., 0., 0.
        for i, perm in views(sides):
            p = w.sp[i]
            y = p.grid.TEMPLATE
            inter = process(w, perm, sides, Ms)
            (C, B), scale = accurate(ctx, inter, y)
            f = p._distribution
            E = np.sqrt(y ** 2 + (masses[i] * w.aT) ** 2)
            g = w.div(i)
            N.append(g * simpson(y ** 2 * C, x=y))
            En.append(g * simpson(y ** 2 * E * C, x=y))
            gross = max(gross, g * simpson(y ** 2 * (np.abs(C - f * B) + np.abs(f * B)), x=y))
            egross = max(egross, g * simpson(y ** 2 * E * (np.abs(C - f * B) + np.abs(f * B)), x=y))
            Sg += g * simpson(y ** 2 * C * np.log(np.maximum(1 - eta[i] * f, 1e-300) / np.maximum(f, 1e-300)), x=y)
        det = dict(kind=kind, masses=masses, eta=eta, shapes=shapes, N=[float(v / gross) for v in N], E=[float(v / egross) for v in En])
        if gross <= 0:
            continue
        n += 1
        ref = -N[0] * 1.
        for i, s in enumerate(sides):
            d = abs(N[i] * s - N[0] * sides[0]) / gross
            ctx.stat('number', d)
            ctx.check(d <= .03, 'number of events differs between participants:' + kind, species=i, imbalance=float(d), **det)
        d = abs(sum(En)) / egross
        ctx.stat('energy', d)
        ctx.check(d <= .03, 'energy not conserved:' + kind, imbalance=float(d), **det)
        ctx.check(Sg > 0, 'entropy decreases:' + kind, rate=float(Sg), **det)
        # direction: the hot and dense side is consumed
        ctx.check(N[0] * (1 if hot < 0 else -1) < 0, 'reaction runs uphill:' + kind, **det)
        ctx.seen(kind, tuple(x > 0 for x in masses), tuple(eta), hot, len(Ms))
    ctx.require('processes', n, 12)


@S.job()
def conservation_three(ctx):
    import numpy as np
    from scipy.integrate import simpson
    r = ctx.rng
    n = 0
    for case in range(80 if ctx.thorough else 24):
        masses = [x * r.uniform(.9, 1.1) for x in r.choice(DECAYS3)]
        masses[0] *= 1.2
        eta = [r.choice([1, -1]) if x > .3 else 1 for x in masses]
        sides = (-1, 1, 1)
        hot = r.choice([-1, 1])
        shapes = [(1.1, 0. if e > 0 else -.2) if s == hot else (.8, r.uniform(-3, -1.5)) for s, e in zip(sides, eta)]
        w = World(ctx, masses, eta, shapes, samples=(401,), top=26.)
        K = w.T ** 2 * 1e-20
        N, En, gross, egross = [], [], 0., 0.
        for i, perm in views(sides):
            p = w.sp[i]
            y = p.grid.TEMPLATE
            inter = process(w, perm, sides, K, three=True)
            (C, B), scale = accurate(ctx, inter, y)
            E = np.sqrt(y ** 2 + (masses[i] * w.aT) ** 2)
            g = w.div(i)
            N.append(g * simpson(y ** 2 * C, x=y))
            En.append(g * simpson(y ** 2 * E * C, x=y))
            f = p._distribution
            gross = max(gross, g * simpson(y ** 2 * (np.abs(C - f * B) + np.abs(f * B)), x=y))
            egross = max(egross, g * simpson(y ** 2 * E * (np.abs(C - f * B) + np.abs(f * B)), x=y))
        det = dict(masses=masses, eta=eta, shapes=shapes, N=[float(v / gross) for v in N], E=[float(v / egross) for v in En])
        n += 1
        for i, s in enumerate(sides):
            d = abs(N[i] * s - N[0] * sides[0]) / gross
            ctx.stat('number', d)
            ctx.check(d <= .03, 'number of events differs between participants:three', species=i, imbalance=float(d), **det)
        d = abs(sum(En)) / egross
        ctx.stat('energy', d)
        ctx.check(d <= .03, 'energy not conserved:three', imbalance=float(d), **det)
        ctx.check(N[0] * (1 if hot < 0 else -1) < 0, 'reaction runs uphill:three', **det)
        ctx.seen('three', tuple(x > 0 for x in masses), tuple(eta), hot)
    ctx.require('processes', n, 15)


def library(ctx, active):
    """ the reactions of the library as they are handed out: for every reaction, all participants together neither create nor destroy particles or energy """
    import numpy as np
    from collections import Counter
    from scipy.integrate import simpson
    from common import UNITS, LinearSpacedGrid
    from particles import Particle
    from library import SM, NuMSM
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    n = 0
    for case in range(5 if ctx.thorough else 1):
        T = r.uniform(2.5, 8.)
        M = T * r.uniform(3.5, 6.)
        par = worlds.free_params(T * MeV, 1. / T, dy=.05)
        par.H = math.exp(r.uniform(-2, 2)) * (T * MeV) ** 2 * 1e-22
        flavours = r.sample(['electron', 'muon', 'tau'], r.choice([1, 2]))
        hot = r.choice(['heavy', 'light'])

        def make(d, samples):
            p = Particle(**dict(d, decoupling_temperature=T * 1.000001 * MeV, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=samples, MAX_MOMENTUM=26 * MeV)))
            with worlds.quiet():
                ctx.code('create', p.set_params, par)
            x = p.mass / MeV / T
            t, mu = (1.15, 0.) if (x > 1) == (hot == 'heavy') else (.8, r.uniform(-2.5, -1.5))
            E = np.sqrt((p.grid.TEMPLATE / MeV) ** 2 + x * x)
            p._distribution = 1. / (np.exp((E - mu) / t) + 1.)
            p.aT = MeV * t
            # nothing is diluted
            p.data['params']['density'][0] = 1.
            return p
        samples = r.choice([47, 53, 61])
        nus = [make(d, samples) for d in (SM.particles.leptons.neutrino_e, SM.particles.leptons.neutrino_mu, SM.particles.leptons.neutrino_tau) if d['flavour'] in flavours]
        e = make(SM.particles.leptons.electron, samples)
        N = make(NuMSM.particles.dirac_sterile_neutrino(mass=M * MeV, mixing_angle=1e-3), samples)
        th = {f: 0. for f in ('electron', 'muon', 'tau')}
        for f in flavours[:r.choice([1, len(flavours)])]:
            th[f] = r.uniform(.3, 1.)
        inters = ctx.code('sterile', NuMSM.interactions.sterile_leptons_interactions, thetas=th, sterile=N, neutrinos=nus, leptons=[e])
        if active:
            inters = ctx.code('active', SM.interactions.neutrino_interactions, leptons=[e], neutrinos=nus)
        classes = {}
        for i in inters:
            for g in i.integrals:
                L, R = [tuple(sorted(x.specie.name for x in g.reaction if x.side == s)) for s in (-1, 1)]
                classes.setdefault(min((L, R), (R, L)), []).append(g)
        for (A, B), gs in sorted(classes.items()):
            if A == B:
                delta = {}
            else:
                a, b = Counter(A), Counter(B)
                delta = {k: b[k] - a[k] for k in set(A + B)}
            num, en, gross, egross = {}, 0., 0., 0.
            with worlds.settings(MAX_MOMENTUM_MEV=30):
                for g in gs:
                    p = g.particle
                    y = p.grid.TEMPLATE
                    ctx.code('initialize', g.initialize)
                    (C, B_), scale = accurate(ctx, g, y)
                    f = p._distribution
                    E = np.sqrt(y ** 2 + p.conformal_mass ** 2)
                    num[p.name] = num.get(p.name, 0.) + p.dof * simpson(y ** 2 * C, x=y)
                    en += p.dof * simpson(y ** 2 * E * C, x=y)
                    gross += p.dof * simpson(y ** 2 * (np.abs(C - f * B_) + np.abs(f * B_)), x=y)
                    egross += p.dof * simpson(y ** 2 * E * (np.abs(C - f * B_) + np.abs(f * B_)), x=y)
            if not gross > 0:
                continue
            det = dict(reaction='+'.join(A) + ' <-> ' + '+'.join(B), T=T, M=M, thetas=th, hot=hot, number={k: float(v / gross) for k, v in num.items()})
            first = max(delta, key=lambda k: (bool(delta[k]), k == N.name, k), default=None)
            events = num.get(first, 0.) / delta[first] if delta and delta[first] else 0.
            for k in sorted(set(A + B)):
                d = abs(num.get(k, 0.) - delta.get(k, 0) * events) / gross
                ctx.stat('number', d)
                ctx.check(d <= .015, 'library: numbers do not balance', species=k, imbalance=float(d), **det)
            d = abs(en) / egross
            ctx.stat('energy', d)
            ctx.check(d <= .01, 'library: energy not conserved', imbalance=float(d), **det)
            ctx.seen('library', det['reaction'], hot)
            n += 1
    ctx.require('reactions of the library', n, 3)


@S.job(timeout=800)
def library_heavy1(ctx):
    library(ctx, False)


@S.job(timeout=800)
def library_heavy2(ctx):
    library(ctx, False)


@S.job(timeout=800)
def library_active(ctx):
    library(ctx, True)



if __name__ == '__main__':
    main(S)
