"""C28: particles that decay at once hand everything that was produced in a step to their decay products in the same step."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C28', 'distinct = (parent, channels, self-conjugate or not, thermalising or not, step formulation); non-trivial = a product whose number was compared with the number of parents',
          assumptions=['energies are compared at 6 %: lines of two-body decays are resolved by the grid only to this accuracy'])


def bump(r, np, y, kind):
    c, w = dict(rest=(0., r.uniform(8, 15)), moving=(r.uniform(40, 90), r.uniform(10, 20)))[kind]
    f = np.exp(-((y - c) / w) ** 2)
    return f


class Source(object):
    """ stand-in for the reaction that produces the particle: a prescribed rate """
    def __init__(self, p, rate):
        from interactions import IntegralItem
        from interactions.four_particle import CollisionIntegralKind as Kind
        self.particle, self.rate, self.kind = p, rate, Kind.F_creation
        self.reaction = [IntegralItem(side=-1, specie=p, antiparticle=False, index=0, crossed=False)] * 2 + [IntegralItem(side=1, specie=p, antiparticle=False, index=2, crossed=False)]

    def integrate(self, ps, stepsize=None):
        return self.rate.copy(), 0 * self.rate


def weight(p):
    """ particles and antiparticles are different unless self-conjugate """
    return 1. if p.majorana else 2.


def number(np, p, f):
    """ number of particles (without antiparticles): the integral the code uses, by the same rule """
    from scipy.integrate import simpson
    y = p.grid.TEMPLATE
    return p.dof / weight(p) * simpson(f * y ** 2, x=y)


def energy(np, p, f):
    from scipy.integrate import simpson
    y = p.grid.TEMPLATE
    return p.dof / weight(p) * simpson(f * y ** 2 * np.sqrt(y ** 2 + p.conformal_mass ** 2), x=y)


def universe(ctx, T, particles):
    from evolution import Universe
    from common import UNITS
    from lib import worlds
    u = Universe(params=worlds.free_params(T * UNITS.MeV, 1. / T * ctx.rng.choice([1., 1.2]), dy=.05))
    u.params.H = 1e-22 * (T * UNITS.MeV) ** 2
    u.params.x = u.params.a * u.params.m
    with worlds.quiet():
        ctx.code('create', u.add_particles, particles)
    return u


def step(ctx, u, inters, sources):
    """ the collision part of one step """
    from lib import worlds
    for p in u.particles:
        p.collision_integrals = []
    with worlds.quiet():
        ctx.code('update', u.update_particles)
    for s in sources:
        s.particle.collision_integrals.append(s)
    u.interactions = inters
    ctx.code('initialise', u.init_interactions)
    ctx.code('collisions', u.calculate_collisions)


def symbols(gs):
    return tuple(sorted(''.join(i.specie.symbol for i in gs)))


def expectation(np, u, inters, made):
    """ numbers of particles handed down the chain of decays: (produced, by channel) """
    from collections import Counter
    total = {p: made.get(p, 0.) for p in u.particles}
    out = {}
    for p in sorted(u.particles, key=lambda p: -p.mass):
        chans = {}
        for i in inters:
            for g in i.integrals:
                if g.reaction[0].specie is p and [x.side for x in g.reaction].count(-1) == 1:
                    key = symbols(g.reaction[1:])
                    br = [v for k, v in p.BR.items() if tuple(sorted(k)) == key]
                    chans[key] = (br[0], Counter(x.specie for x in g.reaction[1:]))
        out[p] = chans
        for br, prod in chans.values():
            for d, n in prod.items():
                total[d] = total.get(d, 0.) + n * br * total[p] * weight(p) / weight(d)
    return total, out


NAMES = ['Charged pion', 'Charged kaon', 'Kaon long', 'Kaon short', 'Eta', 'Charged rho', 'Neutral rho', 'Omega', 'Eta prime', 'Phi', 'Muon', 'Neutral pion']


def library(ctx, part):
    """ chains of decays of the mesons and muons of the library """
    import numpy as np
    from common import UNITS, LinearSpacedGrid
    from interactions.four_particle import CollisionIntegralKind as Kind
    from particles import Particle
    from library import SM
    from common import utils
    from lib import worlds
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import c22
    r = ctx.rng
    MeV = UNITS.MeV
    n = 0
    names = list(NAMES)
    names = names[part::6]
    r.shuffle(names)
    for name in names:
        T = r.choice([1., 1., 2., 3.])
        lib = c22.everything()
        top = 600. * MeV
        grid = lambda: LinearSpacedGrid(MOMENTUM_SAMPLES=r.choice([201, 241]), MAX_MOMENTUM=top)
        therm = {}
        def mk(k, **kw):
            d = dict(lib[k])
            if 'fast_decay' in d:
                d['thermal_dyn'] = False
                d['decoupling_temperature'] = 1e6 * MeV
            elif d.get('mass', 0) == 0 and d.get('flavour'):
                d['decoupling_temperature'] = 1e6 * MeV
            d.update(kw)
            return Particle(grid=grid(), **d)
        mes = [mk(k) for k in ('Neutral pion', 'Charged pion', 'Charged kaon', 'Kaon long', 'Kaon short', 'Eta', 'Charged rho', 'Neutral rho', 'Omega', 'Eta prime', 'Phi')]
        lep = [mk('Electron'), mk('Muon')]
        nus = [mk('Electron neutrino'), mk('Muon neutrino')]
        ph = mk('Photon')
        everyone = {p.name: p for p in mes + lep + nus + [ph]}
        if name == 'Muon':
            inters = SM.interactions.lepton_interactions(leptons=lep, neutrinos=nus)
        else:
            inters = SM.interactions.meson_interactions(primary_mesons=[everyone[name]], mesons=mes, leptons=lep, neutrinos=nus, photon=[ph], muon_tau=[0, 0])
        for i in inters:
            i.integrals = [g for g in i.integrals if abs(sum(x.side for x in g.reaction)) > 0]
            for g in i.integrals:
                g.kind = Kind.F_creation if [x.side for x in g.reaction].count(1) == 1 else Kind.F_decay
        u = universe(ctx, T, list(everyone.values()))
        src = everyone[name]
        y = src.grid.TEMPLATE
        rate = bump(r, np, y / MeV, r.choice(['rest', 'moving'])) * 10 ** r.uniform(-12, -4)
        step(ctx, u, inters, [Source(src, rate)])
        made = {src: number(np, src, rate)}
        total, chans = expectation(np, u, inters, made)
        for p in u.particles:
            if p.in_equilibrium:
                continue
            fast = bool(lib[p.name].get('fast_decay'))
            C = p.collision_integral
            d = dict(primary=name, species=p.name)
            if not total[p]:
                ctx.check(not np.any(C), 'something is produced out of nothing', **d)
                continue
            if fast:
                ctx.close(p.num_creation, total[p], 'number of unstable particles produced', rel=1e-6, **d)
                left = 1 - sum(br for br, _ in chans[p].values())
                ctx.close(number(np, p, C) / total[p], left, 'unstable particles do not all decay', rel=0, abs_=3e-3, **d)
            else:
                ctx.close(number(np, p, C), total[p], 'number of products', rel=1e-6, **d)
            n += 1
            ctx.seen(name, p.name)
        # next step: nothing produced, nothing remains
        with worlds.quiet():
            ctx.code('update', u.update_distributions)
        for p in u.particles:
            if lib[p.name].get('fast_decay'):
                ctx.check(not np.any(p._distribution), 'unstable particles survive the step', species=p.name)
        for p in u.particles:
            # the solver of many steps would carry on with the terms of the previous step
            p.data['collision_integral'].length = 0
        step(ctx, u, inters, [Source(src, 0 * rate)])
        for p in u.particles:
            if not p.in_equilibrium:
                ctx.check(np.all(p.collision_integral == 0), 'decays of particles that were not produced', primary=name, species=p.name)
    ctx.require('numbers compared', n, 4)


for _part in range(6):
    S.job(name='library{}'.format(_part + 1))(lambda ctx, part=_part: library(ctx, part))


def synthetic(ctx, steps):
    """ a tree of two-body decays with arbitrary properties: numbers and energies """
    import numpy as np
    from common import UNITS, LinearSpacedGrid, statistics as ST
    from interactions.four_particle import CollisionIntegralKind as Kind
    from particles import Particle
    from library import SM
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    n = 0
    for _ in range(60 if ctx.thorough else 8):
        T = r.choice([1., 1., 2., 3.])
        letters = iter('ABCDEFGH')
        top = 260. * MeV

        def mk(m, fast=False, **kw):
            c = next(letters)
            d = dict(name='species ' + c, symbol=c, mass=m * MeV, dof=r.choice([1, 2, 3, 4]), majorana=r.random() < .5,
                     statistics=r.choice([ST.FERMION, ST.BOSON]) if m else ST.FERMION, Q=0, flavour=None, decoupling_temperature=1e6 * MeV,
                     grid=LinearSpacedGrid(MOMENTUM_SAMPLES=r.choice([201, 241, 261]), MAX_MOMENTUM=top))
            if fast:
                d.update(fast_decay=True, thermal_dyn=False, lifetime=1e-8 * UNITS.s, BR={}, Q=r.choice([0, 0, 1]))
                if r.random() < .5:
                    d.update(thermalization=True)
            d.update(kw)
            if not d['majorana'] and d['dof'] % 2:
                d['dof'] += 1
            return Particle(**d)
        M = r.uniform(160, 200)
        X = mk(M, fast=True)
        m2 = r.uniform(90, M - 40)
        Y = mk(m2, fast=True)
        a, b, c = mk(0), mk(r.choice([0., r.uniform(1, 30)])), mk(r.uniform(0, 20))
        everyone = [X, Y, a, b, c]
        chain = r.random() < .6
        channels = {X: [], Y: []}
        shares = [r.uniform(.1, .5), r.uniform(.1, .45)]
        pairs = [(b, c), (Y, a)] if chain else [r.choice([(a, a), (b, b)]), (b, c)]
        for q, br in zip(pairs, shares):
            channels[X].append((q, br))
        for q, br in zip([r.choice([(a, a), (c, c)]), (a, c)], [r.uniform(.1, .5), r.uniform(.1, .5)]):
            channels[Y].append((q, br))
        inters = []
        for p in (X, Y):
            for q, br in channels[p]:
                p.BR[''.join(i.symbol for i in q)] = br
                anti = [False, False, not q[1].majorana]
                inters += SM.interactions.three_particle_meson_decay([p] + list(q), anti, ME=10 ** r.uniform(-14, -8) * MeV ** 2)
        for i in inters:
            i.integrals = [g for g in i.integrals if abs(sum(x.side for x in g.reaction)) > 0]
            for g in i.integrals:
                g.kind = Kind.F_creation if [x.side for x in g.reaction].count(1) == 1 else Kind.F_decay
        r.shuffle(inters)
        u = universe(ctx, T, everyone)
        sources = []
        both = not chain or r.random() < .4
        for p in ([X, Y] if both else [X]):
            y = p.grid.TEMPLATE
            sources.append(Source(p, bump(r, np, y / MeV, r.choice(['rest', 'moving'])) * 10 ** r.uniform(-12, -4)))
            if r.random() < .3:
                sources.append(Source(p, bump(r, np, y / MeV, r.choice(['rest', 'moving'])) * 10 ** r.uniform(-12, -4)))
        for k in range(steps):
            if k:
                for s in sources:
                    s.rate *= r.uniform(.2, 3.)
                for p in u.particles:
                    p.data['collision_integral'].length = 0
                # the universe expands and its plasma is heated meanwhile
                par = u.params
                h = par.h
                fa, ft = r.uniform(1., 1.1), r.uniform(1.02, 1.2)
                worlds.move(par, par.T / fa * ft, par.a * fa)
                par.h = h
            step(ctx, u, inters, sources)
            made = {}
            for s in sources:
                made[s.particle] = made.get(s.particle, 0.) + number(np, s.particle, s.rate)
            total, chans = expectation(np, u, inters, made)
            for p in (X, Y):
                d = dict(parent=p.symbol, step=k, thermal=hasattr(p, 'thermalization'), majorana=p.majorana)
                if not total[p]:
                    continue
                ctx.close(p.num_creation, total[p], 'number of unstable particles produced', rel=1e-6, **d)
                left = 1 - sum(br for q, br in channels[p])
                ctx.close(number(np, p, p.collision_integral) / total[p], left, 'unstable particles do not all decay', rel=0, abs_=3e-3, **d)
                ctx.close(number(np, p, p._distribution), total[p] * u.params.h, 'number of unstable particles before they decay', rel=3e-3, **d)
                if hasattr(p, 'thermalization'):
                    y = p.grid.TEMPLATE
                    f = p._distribution
                    w = f > 1e-9 * f.max()
                    slope = np.polyfit(y[w] ** 2, np.log(f[w]), 1)[0]
                    # charged ones lose it to the plasma
                    aT = u.params.aT if p.Q else p.aT
                    ctx.close(slope * 2 * p.conformal_mass * aT, -1., 'temperature of unstable particles that lose their energy', rel=1e-3, charge=p.Q, **d)
                n += 1
            # energies: every product's share is fixed by the kinematics of the decay at rest
            want_E = {p: 0. for p in (a, b, c)}
            for p in (X, Y):
                if not total[p]:
                    continue
                E = energy(np, p, p._distribution) / u.params.h * weight(p)
                for q, br in channels[p]:
                    for i in (0, 1):
                        if q[i] in want_E:
                            e = (p.mass ** 2 + q[i].mass ** 2 - q[1 - i].mass ** 2) / (2 * p.mass ** 2)
                            want_E[q[i]] += br * e * E
            for p in (a, b, c):
                d = dict(product=p.symbol, step=k, majorana=p.majorana, chain=chain, mass=p.mass / MeV)
                C = p.collision_integral
                if not total[p]:
                    ctx.check(not np.any(C), 'something is produced out of nothing', **d)
                    continue
                ctx.close(number(np, p, C), total[p], 'number of products', rel=1e-6, **d)
                ctx.close(energy(np, p, C) * weight(p), want_E[p], 'energy of products', rel=.06, **d)
                ctx.check(C.min() >= 0, 'negative number of products', **d)
                n += 1
            ctx.seen(chain, both, X.majorana, Y.majorana, a.majorana, b.majorana, c.majorana, hasattr(X, 'thermalization'))
            with worlds.quiet():
                ctx.code('update', u.update_distributions)
            for p in (X, Y):
                ctx.check(not np.any(p._distribution), 'unstable particles survive the step', species=p.name)
            u.params.t += 1e-3 * UNITS.s
    ctx.require('numbers compared', n, 10)


@S.job()
def trees(ctx):
    synthetic(ctx, 2)


@S.job(env={'LOGARITHMIC_TIMESTEP': 'False'})
def linear(ctx):
    synthetic(ctx, 2)


@S.job()
def relics(ctx):
    """ the population left over from equilibrium disappears exponentially; what is produced comes on top of it """
    import numpy as np
    from common import UNITS, LinearSpacedGrid
    from evolution import Universe
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    n = 0
    for case in range(60 if ctx.thorough else 16):
        Ti = r.uniform(3., 30.)
        early = case % 3 == 0
        m = Ti * r.choice([.1, 1., 3., 6.])
        Td = Ti * (1.3 if early else r.uniform(.5, .9))
        eta = r.choice([1, -1])
        t0 = 1.3 * UNITS.s * (1 / Ti) ** 2
        tau = t0 * r.choice([.3, 1., 5.])
        p = worlds.spec_particle(0, r.choice([1, 2, 4]), m, eta, decoupling_temperature=Td * MeV, fast_decay=True, lifetime=tau, BR={}, majorana=r.random() < .5,
                                 grid=LinearSpacedGrid(MOMENTUM_SAMPLES=r.choice([41, 67]), MAX_MOMENTUM=r.choice([15., 25.]) * MeV))
        u = Universe(params=worlds.make_params(Ti, .05))
        bath = [worlds.spec_particle(1, 2, 0., -1), worlds.spec_particle(2, r.choice([20, 60]), 0., 1)]
        with worlds.quiet():
            ctx.code('create', u.add_particles, [p] + bath)
        y = p.grid.TEMPLATE
        source = None
        if r.random() < .6:
            source = Source(p, np.exp(-((y / MeV - r.uniform(0, 5)) / r.uniform(1, 4)) ** 2) * 10 ** r.uniform(-8, -5))

            class Producer(object):
                integrals = ()

                def initialize(self):
                    if not p.in_equilibrium:
                        p.collision_integrals.append(source)
            u.interactions = [Producer()]
        before, rows = [], []
        orig = u.update_distributions

        def watched():
            before.append(p._distribution.copy())
            orig()
        u.update_distributions = watched
        u.step_monitor = lambda v: rows.append((v.params.t, bool(p.in_equilibrium), v.params.a, p._distribution.copy(), before[-1], v.params.h, p.aT))
        with worlds.quiet():
            ctx.code('evolve', u.evolve, Ti / 3 * MeV, export=False)
        start = None
        for k, (t, eq, a, f, bef, h, aT) in enumerate(rows):
            if eq:
                continue
            if start is None:
                start = k
                t_dec = t
                frozen = 1. / (np.exp(np.sqrt(y ** 2 + (m / Td * aT) ** 2) / aT) + eta)
            if k < start + 2 and early:
                t_dec = t if k == 0 else min(t_dec, t)        # species that start decoupled
            want = frozen * np.exp(-(t - t_dec) / tau)
            d = dict(m=m, Ti=Ti, Td=Td, tau=tau / UNITS.s, row=k, early=early, eta=eta, produced=source is not None)
            w = want > 1e-200
            w[0] = w[0] and m > 0
            dt = rows[start + 1][0] - rows[start][0] if len(rows) > start + 1 else 0.
            slack = 2 * dt / tau + 1e-9                          # origin of time to within a step
            ctx.check(bool(np.all(np.abs(np.log(f[w] / want[w])) < slack)), 'population left over from equilibrium',
                      worst=float(np.max(np.abs(np.log(f[w] / want[w])))), slack=slack, **d)
            if source is not None and k > start + 1:
                extra = bef - f
                ctx.check(bool(np.all(np.abs(extra - source.rate * h) <= 1e-9 * (source.rate * h + f))) if m > 0 or eta > 0 else True, 'production on top of the left over population', **d)
                ctx.close(p.num_creation, number(np, p, source.rate), 'number of unstable particles produced', rel=1e-9, **d)
            if k > start + 1 and (k - start) % 7 == 0:
                t1, f1 = rows[k - 1][0], rows[k - 1][3]
                q = (f[w] / f1[w])
                ctx.check(bool(np.all(np.abs(q / np.exp(-(t - t1) / tau) - 1) < 1e-7)), 'rate of disappearance', **d)
            n += 1
        ctx.seen('relic', early, eta, m > Ti, source is not None, p.majorana)
    ctx.require('rows of decaying populations', n, 50)


if __name__ == '__main__':
    main(S)
