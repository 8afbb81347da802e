"""C27: crossing the QCD transition: species and reactions are exchanged, entropy is kept, the record continues."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C27', 'distinct = (step formulation, species before and after, which are heavy, which have decoupled, interactions exchanged); non-trivial = a transition in which the number of degrees of freedom changed',
          assumptions=['a species counts with all its degrees of freedom while the plasma is hotter than its mass and not at all afterwards',
                       'the temperature before the transition is that of the last or the last but one recorded step (the last row is rewritten when the evolution goes on)'])

QUARKS = ['Up quark', 'Down quark', 'Charm quark', 'Strange quark', 'Top quark', 'Bottom quark', 'Gluon']


class Interactions(object):
    """ stand-in for a set of reactions: counts how often it takes part in a step """
    def __init__(self, name):
        self.name, self.integrals, self.calls = name, [], 0

    def initialize(self):
        self.calls += 1

    def __str__(self):
        return self.name


def dof(u):
    return sum(p.dof * (7 / 8. if p.eta > 0 else 1.) for p in u.particles if u.params.T > p.mass and p.in_equilibrium)


def build(ctx, r, real):
    """ universe above the transition and the species that appear in it """
    from evolution import Universe
    from lib import worlds
    from common import UNITS
    log = r.random() < .7
    T0 = r.choice([200., 350., 800.])
    with worlds.settings(LOGARITHMIC_TIMESTEP='True' if log else 'False'):
        u = Universe(params=worlds.make_params(T0, r.choice([.01, .02, .05]) if log else 1. / T0 * r.choice([.01, .03]), log=log))
    if real:
        from library import SM
        from particles import Particle
        P = SM.particles
        mk = lambda d, **kw: Particle(**dict(d, **kw))
        first = [mk(P.photon)] + [mk(d) for d in (P.leptons.neutrino_e, P.leptons.neutrino_mu, P.leptons.neutrino_tau, P.leptons.electron)]
        first += [mk(dict(d), decoupling_temperature=0.) for d in (P.leptons.muon, P.leptons.tau)]
        first += [mk(getattr(P.quarks, k)) for k in ('up', 'down', 'charm', 'strange', 'top', 'bottom')] + [mk(P.gluon)]
        had = [mk(getattr(P.hadrons, k), decoupling_temperature=0.) for k in r.sample(['neutral_pion', 'charged_pion', 'eta', 'charged_kaon', 'omega'], r.randint(1, 5))]
        for p in had:
            if hasattr(p, 'fast_decay'):
                del p.fast_decay
    else:
        first = [worlds.spec_particle(0, 2, 0., -1, name='Photon', decoupling_temperature=0.)]
        for k in range(r.randint(0, 4)):
            m, tdec = r.choice([0., 1., 100., 300.]), r.choice([0., 0., 0., 180. if T0 > 180 else 0.])
            first.append(worlds.spec_particle(k + 1, r.choice([1, 2, 4, 6]), m, r.choice([1, -1]) if m or not tdec else 1, name='lepton {}'.format(k),
                                              decoupling_temperature=tdec * UNITS.MeV))
        for k, q in enumerate(r.sample(QUARKS, r.randint(1, 7))):
            first.append(worlds.spec_particle(20 + k, r.choice([6, 12, 16]), r.choice([0., 5., 100., 1200.]), r.choice([1, -1]), name=q, decoupling_temperature=0.))
        # names that merely resemble those of quarks
        if r.random() < .3:
            first.append(worlds.spec_particle(40, 2, r.choice([0., 50.]), 1, name=r.choice(['Quark', 'Up', 'Gluino', 'Strange', 'Bottomonium']), decoupling_temperature=0.))
        had = [worlds.spec_particle(50 + k, r.choice([1, 2, 3]), r.choice([0., 50., 135., 140., 140., 149., 500., 800.]), -1, name='hadron {}'.format(k), decoupling_temperature=0.)
               for k in range(r.randint(1, 4))]
    r.shuffle(first)
    return u, first, had, log, T0


def once(ctx, r, real, counts):
    import numpy as np
    from common import UNITS, CONST
    from lib import worlds
    MeV = UNITS.MeV
    with worlds.quiet():
        u, first, had, log, T0 = build(ctx, r, real)
        k = r.randint(1, len(first))
        with worlds.settings(LOGARITHMIC_TIMESTEP='True' if log else 'False'):
            u.add_particles(first[:k])
            u.add_particles(first[k:])
            Iq = [Interactions('quark {}'.format(j)) for j in range(r.randint(0, 3))]
            Ik = [Interactions('kept {}'.format(j)) for j in range(r.randint(0, 2))]
            Ih = [Interactions('hadron {}'.format(j)) for j in range(r.randint(0, 2))]
            Is = [Interactions('secondary {}'.format(j)) for j in range(r.randint(0, 2))]
            if Iq and Ik and r.random() < .3:                   # same name, different set
                Ik[0].name = Iq[0].name
            mix = Iq + Ik
            r.shuffle(mix)
            u.interactions += mix
            TQ = r.choice([150., 150., 160.]) if T0 > 160 else 150.
            ctx.code('evolve', u.evolve, TQ * MeV, export=False)
            before = {c: np.array(u.data[c]) for c in u.data.columns}
            names0 = sorted(p.name for p in u.particles)
            g0 = dof(u)
            T1, a1, t1, x1 = u.params.T, u.params.a, u.params.t, u.params.x
            steps0 = u.step
            calls0 = {i: i.calls for i in mix}
            args = {}
            if Iq:
                args['quarkic_interactions'] = list(Iq)
            if Ih:
                args['hadronic_interactions'] = list(Ih)
            if Is:
                args['secondary_interactions'] = list(Is)
            ctx.code('transition', u.QCD_transition, hadrons=list(had), **args)
            d = dict(real=real, log=log, T0=T0, before=names0, hadrons=[(p.name, p.mass / MeV) for p in had])
            # species
            want = sorted([n for n in names0 if n not in QUARKS] + [p.name for p in had])
            ctx.check(sorted(p.name for p in u.particles) == want, 'species after the transition', got=sorted(p.name for p in u.particles), want=want)
            ctx.check(all(p.params is u.params for p in u.particles), 'species does not follow the universe')
            ctx.check(all(a.mass >= b.mass for a, b in zip(u.particles, u.particles[1:])), 'order of species')
            # temperature: count the degrees of freedom at the temperature of the transition
            T2 = u.params.T
            g1 = sum(p.dof * (7 / 8. if p.eta > 0 else 1.) for p in u.particles if T1 > p.mass and T1 > p.decoupling_temperature)
            ratios = [u.params.aT / before['aT'][-1], u.params.aT / before['aT'][-2]]
            f = (g0 / g1) ** (1 / 3.)
            ctx.check(min(abs(q / f - 1) for q in ratios) < 1e-9, 'entropy of the plasma is not kept', got=ratios, want=f, dof=(g0, g1), **d)
            ctx.close(u.params.a, a1, 'scale factor jumps', rel=1e-12)
            ctx.close(u.params.x, x1, 'scale factor jumps', rel=1e-12)
            ctx.close(u.params.t, t1, 'time jumps', rel=1e-12)
            ctx.close(T2 * u.params.a, u.params.aT, 'temperature after the transition', rel=1e-12)
            for p in u.particles:
                if T1 > p.decoupling_temperature * 1.0001:
                    ctx.close(p.T, T2, 'species is not at the temperature of the plasma', rel=1e-9, name=p.name)
                elif T1 < p.decoupling_temperature:
                    ctx.check(not p.in_equilibrium, 'species recouples')
            # record
            ctx.check(len(u.data) == len(before['a']) - 1 and all(np.array_equal(u.data[c], before[c][:-1]) for c in u.data.columns), 'record before the transition is not kept')
            # reactions
            ctx.check(sorted(i.name for i in u.interactions) == sorted(i.name for i in Ik + Ih + Is), 'reactions after the transition', got=[i.name for i in u.interactions])
            T3 = T2 * r.choice([.8, .5])
            n0 = len(u.data)
            ctx.code('evolve', u.evolve, T3, export=False, init_time=False)
            steps = u.step - steps0
            for i in mix + Ih + Is:
                ctx.check(i.calls - calls0.get(i, 0) == (0 if i in Iq else steps), 'reactions evaluated after the transition', name=i.name, calls=i.calls - calls0.get(i, 0), steps=steps)
            D = u.data
            ctx.check(len(D) == n0 + 1 + steps and u.params.T <= T3, 'record after the transition', rows=len(D), want=n0 + 1 + steps)
            ctx.check(bool(np.all(np.diff(D['a'])[1:] > 0)) and bool(np.all(np.diff(D['t']) >= 0)), 'time or scale factor run backwards')
            ctx.close(D['aT'][n0], T2 * a1, 'first record after the transition', rel=1e-9)
            ctx.close(D['t'][n0], t1, 'first record after the transition', rel=1e-9)
            ctx.close(D['a'][n0], a1, 'first record after the transition', rel=1e-9)
            # density and entropy recorded after the transition are those of the new species
            # (recorded by the last step: the sum over the species as they are now)
            ctx.close(D['rho'][-1], sum(p.energy_density for p in u.particles), 'density after the transition', rel=1e-9)
            if all(p.in_equilibrium for p in u.particles):
                ref = sum(eq_entropy(p, T2) for p in u.particles) * a1 ** 3
                end = sum(eq_entropy(p, u.params.T) for p in u.particles) * u.params.a ** 3
                h = max(np.diff(D['a'])[n0:] / D['a'][n0:-1])
                ctx.stat('entropy drift/step', abs(end / ref - 1) / h)
                ctx.check(abs(end / ref - 1) < .7 * h, 'entropy changes after the transition', drift=end / ref - 1, step=h, **d)
                ctx.seen('entropy', real, log)
    counts[abs(g1 / g0 - 1) > .01] = counts.get(abs(g1 / g0 - 1) > .01, 0) + 1
    ctx.seen(real, log, len(had), sum(p.mass < T1 for p in had), len(Iq), len(Ih), len(Is))


def eq_entropy(p, T):
    import numpy as np
    m = p.mass
    x = np.linspace(1e-6, 60 + m / T, 6001)
    e = np.sqrt(x * x + (m / T) ** 2)
    f = 1. / (np.exp(np.minimum(e, 600)) + p.eta)
    return p.dof / (2 * math.pi ** 2) * T ** 3 * np.trapz((x * x * e + x ** 4 / 3 / e) * f, x)


@S.job()
def synthetic(ctx):
    counts = {}
    for _ in range(60 if ctx.thorough else 14):
        once(ctx, ctx.rng, False, counts)
    ctx.require('transitions that change the degrees of freedom', counts.get(True, 0), 6)


@S.job()
def library(ctx):
    counts = {}
    for _ in range(16 if ctx.thorough else 4):
        once(ctx, ctx.rng, True, counts)
    ctx.require('transitions that change the degrees of freedom', counts.get(True, 0), 2)


if __name__ == '__main__':
    main(S)
