"""C26: reactions and species are selected, removed and ordered exactly as asked."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C26', 'distinct = (kind of request, number of names, kinds of reaction dropped, how many were kept); non-trivial = a request that drops some reactions or species and keeps others')


def snapshot(inters):
    return [list(i.integrals) for i in inters]


def names_of(g, first):
    return [g.reaction[0].specie.name] if first else [x.specie.name for x in g.reaction]


def side_sum(g):
    return sum(x.side for x in g.reaction)


def real_interactions(ctx, r):
    """ some set of interactions of the library """
    from library import SM, NuMSM
    from particles import Particle
    from common import UNITS
    mk = lambda d, **kw: Particle(**dict(d, **kw))
    nus = [mk(d) for d in (SM.particles.leptons.neutrino_e, SM.particles.leptons.neutrino_mu, SM.particles.leptons.neutrino_tau)][:r.choice([1, 2, 3])]
    lep = [mk(d) for d in (SM.particles.leptons.electron, SM.particles.leptons.muon)][:r.choice([1, 2])]
    out = SM.interactions.neutrino_interactions(leptons=lep, neutrinos=nus)
    sp = nus + lep
    if r.random() < .7:
        st = mk(NuMSM.particles.dirac_sterile_neutrino(r.uniform(20, 300) * UNITS.MeV))
        thetas = {'electron': 1e-3, 'muon': r.choice([0, 1e-3]), 'tau': 0}
        out += NuMSM.interactions.sterile_leptons_interactions(thetas=thetas, sterile=st, neutrinos=nus, leptons=lep)
        sp.append(st)
    return out, sp


def judge(ctx, before, after, returned, given, names, first, sums):
    ctx.check(returned is given or list(returned) == list(given), 'another list of interactions is returned')
    dropped = kept = 0
    for b, a in zip(before, after):
        want = [g for g in b if not any(n in names for n in names_of(g, first)) and side_sum(g) not in sums]
        ctx.check(len(a) == len(want) and all(x is y for x, y in zip(a, want)), 'reactions that remain', names=list(names), first=first, sums=sums,
                  had=len(b), have=len(a), want=len(want))
        dropped += len(b) - len(want)
        kept += len(want)
    ctx.seen('filter', len(names), first, str(sums), 'drops' if dropped else 'none', 'keeps' if kept else 'none')
    return dropped and kept


@S.job()
def library(ctx):
    from common import utils
    r = ctx.rng
    both = 0
    for case in range(60 if ctx.thorough else 20):
        inters, sp = ctx.code('library', real_interactions, ctx, r)
        for _ in range(3):
            before = snapshot(inters)
            names = r.sample([p.name for p in sp], r.choice([0, 1, 1, 2]))
            if r.random() < .2:
                names = names + ['Electron neutrinos', 'neutrino']         # nobody is called so
            first = r.random() < .6
            sums = r.choice([None, None, [0], [2], [-2], [2, -2], [1, -1]])
            kw = {} if first and r.random() < .5 else {'first_only': first}
            if sums is not None:
                kw['reaction_type'] = sums
            got = ctx.code('filter', utils.interaction_filter, names, inters, **kw)
            both += bool(judge(ctx, before, snapshot(inters), got, inters, names, first, sums or []))
            # and what is evaluated afterwards are the remaining ones only
    ctx.require('requests that drop some and keep some', both, 15)


class Item(object):
    def __init__(self, side, specie):
        self.side, self.specie = side, specie


class Integral(object):
    def __init__(self, items):
        self.reaction = items
        self.particle = items[0].specie


class Bundle(object):
    def __init__(self, integrals):
        self.integrals = integrals


@S.job()
def synthetic(ctx):
    from common import utils
    from lib import worlds
    r = ctx.rng
    both = 0
    for case in range(600 if ctx.thorough else 200):
        pre = r.choice(['abcdef', ['a', 'a b', 'b a', 'b', 'ab', 'a b c']])        # names may contain each other
        pool = [worlds.spec_particle(k, 2, r.uniform(0, 5), 1, name='species ' + pre[k]) for k in range(6)]
        inters = []
        for _ in range(r.randint(0, 5)):
            gs = []
            for _ in range(r.randint(0, 6)):
                n = r.choice([3, 4, 4])
                k = r.randint(1, n - 1)
                gs.append(Integral([Item(-1 if j < k else 1, r.choice(pool)) for j in range(n)]))
            inters.append(Bundle(gs))
        for g in (g for i in inters for g in i.integrals):
            t = ctx.code('type', utils.reaction_type, g)
            s, n = side_sum(g), len(g.reaction)
            lhs = sum(x.side < 0 for x in g.reaction)
            want = ('CREATION' if lhs == n - 1 else 'DECAY' if lhs == 1 else 'SCATTERING')
            for k in ('CREATION', 'SCATTERING', 'DECAY'):
                ctx.check(bool(getattr(t, k)) == (k == want), 'type of reaction', lhs=lhs, of=n, asked=k)
            ctx.seen('type', lhs, n)
        before = snapshot(inters)
        names = r.sample([p.name for p in pool], r.randint(0, 3))
        first = r.random() < .5
        sums = r.sample([-2, -1, 0, 1, 2], r.choice([0, 0, 1, 2]))
        kw = dict(first_only=first)
        if sums:
            kw['reaction_type'] = sums
        got = ctx.code('filter', utils.interaction_filter, names, inters, **kw)
        both += bool(judge(ctx, before, snapshot(inters), got, inters, names, first, sums))
        # species
        sel = ctx.code('species', utils.particle_filter, names, pool)
        ctx.check([p.name for p in sel] == [p.name for p in pool if p.name not in names] and len(pool) == 6, 'species that remain', names=names)
        ctx.seen('species', len(names))
    ctx.require('requests that drop some and keep some', both, 60)


@S.job()
def ordering(ctx):
    """ species are kept ordered by mass, heaviest first, however they are added: decay products are computed after their parents """
    from common import utils, UNITS
    from evolution import Universe
    from lib import worlds
    r = ctx.rng
    for case in range(200 if ctx.thorough else 60):
        T = r.choice([1., 30., 200.])
        masses = [r.choice([0., 0., .511, 105.6, 134.98, 497.61, 497.61, r.uniform(0, 2000), 100 * (1 + 10 ** r.uniform(-12, -2))]) for _ in range(r.randint(1, 9))]
        sp = [worlds.spec_particle(k, 2, m, 1, name='species {}'.format(r.randrange(r.choice([4, 10 ** 6]))), decoupling_temperature=0.) for k, m in enumerate(masses)]
        got = ctx.code('order', utils.particle_orderer, sp)
        ctx.check(sorted(map(id, got)) == sorted(map(id, sp)), 'species lost or duplicated', n=len(sp), got=len(got))
        ctx.check(all(a.mass >= b.mass for a, b in zip(got, got[1:])), 'not ordered by mass')
        with worlds.quiet(), worlds.settings(LOGARITHMIC_TIMESTEP='True'):
            u = Universe(params=worlds.make_params(T, .05))
            seen = []
            k = 0
            while k < len(sp):
                n = r.randint(1, 4)
                ctx.code('add', u.add_particles, sp[k:k + n])
                seen += sp[k:k + n]
                k += n
                ctx.check(sorted(map(id, u.particles)) == sorted(map(id, seen)), 'species lost or duplicated when added in parts')
                ctx.check(all(a.mass >= b.mass for a, b in zip(u.particles, u.particles[1:])), 'universe does not keep the order by mass')
                ctx.check(all(p.params is u.params for p in u.particles), 'species does not follow the universe')
        # order in which collision terms are computed in a step
        calls = []
        for p in u.particles:
            class G(object):
                pass
            p.collision_integrals = [G()]
            p.integrate_collisions = (lambda p=p: calls.append(p) or p.collision_integral)
            if r.random() < .4:
                p.fast_decay = True
            p.collision_integrals *= r.randint(1, 3)
        idle = [p for p in u.particles if r.random() < .3]
        for p in idle:
            p.collision_integrals = []
        ctx.code('collisions', u.calculate_collisions)
        ctx.check(sorted(map(id, calls)) == sorted(id(p) for p in u.particles if p not in idle), 'collision terms computed for the wrong species', n=len(calls))
        ctx.check(all(a.mass >= b.mass for a, b in zip(calls, calls[1:])), 'products are computed before their parents')
        ctx.seen('order', len(sp), len(set(masses)) < len(masses))


if __name__ == '__main__':
    main(S)
