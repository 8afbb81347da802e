"""C13: crossing an interaction yields every allowed process exactly once, with the right matrix element, and conserves charges."""
import itertools
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C13', 'distinct = (shape of the reaction, pattern of identical/self-conjugate species and antiparticles, number of matrix elements, '
                 'number of generated processes); non-trivial = an interaction all of whose processes were compared with the enumeration',
          assumptions=['matrix elements are either sums of products of scalar products and mass terms, or one constant'])


def expected(particles, antiparticles, allowed_only=True):
    """ {(first species, LHS multiset, RHS multiset): [labelled processes]}; a process is (first, rest of LHS, RHS, anti, crossed) by original index """
    flat = [(s, a, side) for side, (ss, aa) in zip((-1, 1), zip(particles, antiparticles)) for s, a in zip(ss, aa)]
    n = len(flat)
    out = {}
    for k in range(1, n):
        for L in itertools.combinations(range(n), k):
            R = [i for i in range(n) if i not in L]
            crossed = [(flat[i][2] > 0) == (i in L) for i in range(n)]
            anti = [(flat[i][1] != crossed[i]) if not flat[i][0].majorana else (flat[i][1] and not crossed[i]) for i in range(n)]
            mass = lambda idx: sum(flat[i][0].mass for i in idx)
            if len(L) == 1 and mass(L) <= mass(R) or len(R) == 1 and mass(R) <= mass(L):
                continue
            for f in L:
                if anti[f]:
                    continue
                rest = [i for i in L if i != f]
                key = (id(flat[f][0]), tuple(sorted(id(flat[i][0]) for i in L)), tuple(sorted(id(flat[i][0]) for i in R)))
                out.setdefault(key, []).append((f, rest, R, anti, crossed))
    return flat, out


def symmetric_value(terms, species, sides, s, m):
    """ sum of the terms, averaged over relabelling identical species on the same side (position 0 stays) """
    n = len(species)
    groups = [[j for j in range(1, n) if species[j] is species[i] and sides[j] == sides[i]] for i in range(1, n)]
    total, count = 0., 0
    for perm in itertools.permutations(range(1, n)):
        p = (0,) + perm
        if any(species[p[j]] is not species[j] or sides[p[j]] != sides[j] for j in range(1, n)):
            continue
        count += 1
        for (a, b, c, d), K1, K2 in terms:
            a, b, c, d = p[a], p[b], p[c], p[d]
            total += K1 * s[a][b] * s[c][d] + K2 * m[a] * m[b] * s[c][d]
    return total / count


def compare(ctx, inter, particles, antiparticles, Ms0, tag, four=True):
    """ the processes of an interaction against the enumeration """
    flat, exp = expected(particles, antiparticles)
    got = {}
    for g in inter.integrals:
        r = g.reaction
        L = [i for i in r if i.side == -1]
        R = [i for i in r if i.side == 1]
        ctx.check(tuple(r) == tuple(L + R) and len(r) == len(flat), tag + ':sides', reaction=str(g))
        ctx.check(r[0].specie is g.particle and r[0].side == -1 and not r[0].antiparticle, tag + ':first particle', reaction=str(g))
        ctx.check(sorted(i.index for i in r) == list(range(len(flat))) and all(flat[i.index][0] is i.specie for i in r), tag + ':members', reaction=str(g))
        key = (id(g.particle), tuple(sorted(id(i.specie) for i in L)), tuple(sorted(id(i.specie) for i in R)))
        ctx.check(key not in got, tag + ':process listed twice', reaction=str(g))
        got[key] = g
        for i in r:
            want_cross = (flat[i.index][2] != i.side)
            want_anti = (flat[i.index][1] != want_cross) if not i.specie.majorana else (flat[i.index][1] and not want_cross)
            ctx.check(bool(i.crossed) == want_cross and bool(i.antiparticle) == want_anti, tag + ':crossed member', reaction=str(g), index=i.index)
        # charge
        q0 = sum((1 if s > 0 else -1) * p.Q * (-1 if a else 1) for p, a, s in flat)
        q = sum(i.side * i.specie.Q * (-1 if i.antiparticle else 1) for i in r)
        if abs(q0) < 1e-9:
            ctx.check(abs(q) < 1e-9, tag + ':charge', reaction=str(g), q=q)
    miss = [k for k in exp if k not in got]
    extra = [k for k in got if k not in exp]
    ctx.check(not miss, tag + ':process missing', missing=len(miss), generated=len(got), expected=len(exp))
    ctx.check(not extra, tag + ':impossible process', extra=[str(got[k]) for k in extra][:3])
    rng = ctx.rng
    for key, g in got.items():
        if key not in exp:
            continue
        r = g.reaction
        species = [i.specie for i in r]
        sides = [i.side for i in r]
        if not four:
            # every labelled way of picking the first particle contributes once
            ctx.close(sum(M.K for M in g.Ms), len(exp[key]) * sum(M.K for M in Ms0), tag + ':three-particle matrix element', rel=1e-12,
                      reaction=str(g), ways=len(exp[key]))
            continue
        if any(getattr(M, 'K', 0.) for M in Ms0):
            ctx.close(sum(M.K for M in g.Ms), len(exp[key]) * sum(M.K for M in Ms0), tag + ':constant matrix element', rel=1e-12,
                      reaction=str(g), ways=len(exp[key]))
            continue
        n = 4
        s = [[0.] * n for _ in range(n)]
        for a in range(n):
            for b in range(a):
                s[a][b] = s[b][a] = rng.uniform(.5, 2)
        m = [sp.mass for sp in species]
        terms = [(M.order, M.K1, M.K2) for M in g.Ms]
        have = symmetric_value(terms, species, sides, s, m)
        want = 0.
        # position of each original index in the canonical order is free among identical species: average does the rest
        for f, rest, R, anti, crossed in exp[key]:
            pos = {}
            free = {}
            for j in range(n):
                free.setdefault((id(species[j]), sides[j], j == 0), []).append(j)
            pos[f] = 0
            for idx, sd in [(i, -1) for i in rest] + [(i, 1) for i in R]:
                pos[idx] = free[(id(flat[idx][0]), sd, False)].pop(0)
            tt = []
            for M in Ms0:
                o = M.order
                flip = -1. if crossed[o[0]] != crossed[o[1]] else 1.
                tt.append((tuple(pos[i] for i in o), M.K1, M.K2 * flip))
            want += symmetric_value(tt, species, sides, s, m)
        scale = sum(abs(M.K1) + abs(M.K2) * max(m + [0]) ** 2 for M in Ms0) * len(exp[key]) * 4
        ctx.check(abs(have - want) <= 1e-9 * (abs(want) + 1e-3 * scale), tag + ':matrix element', got=have, want=want, reaction=str(g), ways=len(exp[key]))
        for M in g.Ms:
            ctx.check(sorted(M.order) == [0, 1, 2, 3], tag + ':momentum labels', order=M.order)
    for a, b in itertools.combinations(inter.integrals, 2):
        ctx.check(not (set(map(id, a.Ms)) & set(map(id, b.Ms))), tag + ':matrix elements shared between processes')
    return len(got)


def pool(r, nsp):
    from lib import worlds
    out = []
    for i in range(nsp):
        mass = r.choice([0., 0., .511, 105., 139., 500., 1500., float(r.uniform(0, 300))])
        maj = r.random() < .25
        out.append(worlds.spec_particle(i, r.choice([1, 2, 4]), mass, r.choice([1, -1]), majorana=maj, Q=0 if maj else r.choice([0, -1, 1]),
                                        name='%s %d' % (r.choice('abcxyz'), i), symbol='p%d' % i))
    return out


@S.job()
def random_four(ctx):
    from interactions import CrossGeneratingInteraction
    from interactions.four_particle import FourParticleM, FourParticleIntegral
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    r = ctx.rng
    kinds = [Kind.Full, Kind.F_1, Kind.F_f, Kind.F_creation, Kind.F_decay, Kind.Full_vacuum_decay, None]
    for i in range(1500 if ctx.thorough else 250):
        sp = pool(r, r.choice([2, 2, 3, 4]))
        shape = r.choice([(2, 2), (2, 2), (2, 2), (1, 3), (3, 1)])
        pick = [r.choice(sp) for _ in range(4)]
        anti = [bool(r.random() < .4) and not p.majorana for p in pick]
        P = (tuple(pick[:shape[0]]), tuple(pick[shape[0]:]))
        A = (tuple(anti[:shape[0]]), tuple(anti[shape[0]:]))
        orders = [(0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2), (2, 3, 0, 1), (1, 2, 0, 3), (1, 3, 0, 2)]
        Ms = []
        for _ in range(r.choice([1, 1, 2, 3])):
            K1, K2 = r.choice([(1., 0.), (r.uniform(.1, 4), 0.), (0., r.uniform(-2, 2)), (r.uniform(.1, 3), r.uniform(-2, 2))])
            Ms.append(FourParticleM(K1=K1, K2=K2, order=r.choice(orders)))
        if r.random() < .15:      # constant squared amplitude
            Ms = [FourParticleM(K=r.uniform(.1, 5))]
        before = [(M.K, M.K1, M.K2, M.order) for M in Ms]
        kind = r.choice(kinds)
        inter = ctx.code('crossing', CrossGeneratingInteraction, name='random', particles=P, antiparticles=A, Ms=tuple(Ms),
                         integral_type=FourParticleIntegral, washout_temperature=1.5, kind=kind)
        ctx.check(before == [(M.K, M.K1, M.K2, M.order) for M in Ms], 'crossing changed the matrix elements it was given')
        n = compare(ctx, inter, P, A, Ms, 'four')
        ctx.check(all(g.kind == (kind if kind is not None else Kind.Full) for g in inter.integrals), 'four:kind')
        ids = {}
        ctx.seen(shape, tuple(ids.setdefault(id(p), len(ids)) for p in pick), tuple(anti), tuple(p.majorana for p in pick), len(Ms), n)
        ctx.sample(dict(reaction=[[p.symbol for p in side] for side in P], anti=A, masses=[p.mass for p in pick], processes=[str(g).split('\t')[0] for g in inter.integrals][:4]))
    ctx.require('distinct reaction patterns', len(ctx.states), 100)
    # matrix elements that name a particle twice mean nothing
    for order in ((0, 0, 1, 2), (0, 1, 1, 2), (3, 1, 2, 3), (2, 2, 2, 2), (1, 0, 2, 2)):
        try:
            FourParticleM(K1=1., order=order)
            ctx.check(False, 'meaningless matrix element accepted', order=order)
        except Exception:
            ctx.check(True, 'meaningless matrix element accepted')


@S.job()
def random_three(ctx):
    from interactions import CrossGeneratingInteraction
    from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
    r = ctx.rng
    for i in range(800 if ctx.thorough else 200):
        sp = pool(r, r.choice([2, 3]))
        pick = [r.choice(sp) for _ in range(3)]
        anti = [bool(r.random() < .4) and not p.majorana for p in pick]
        c = r.choice([1, 1, 2])
        P, A = (tuple(pick[:c]), tuple(pick[c:])), (tuple(anti[:c]), tuple(anti[c:]))
        Ms = [ThreeParticleM(K=r.uniform(.1, 5))]
        inter = ctx.code('crossing', CrossGeneratingInteraction, name='random', particles=P, antiparticles=A, Ms=tuple(Ms), integral_type=ThreeParticleIntegral)
        n = compare(ctx, inter, P, A, Ms, 'three', four=False)
        ids = {}
        ctx.seen(c, tuple(ids.setdefault(id(p), len(ids)) for p in pick), tuple(anti), tuple(p.majorana for p in pick), n)


def library(ctx, monitor):
    """ all interactions of the library, for random sterile masses and mixing patterns """
    from collections import defaultdict
    from common import UNITS
    from particles import Particle
    from library.SM import particles as SMP, interactions as SMI
    from library.NuMSM import particles as NuP, interactions as NuI
    r = ctx.rng
    mk = lambda d: Particle(**d)
    L = {k: mk(getattr(SMP.leptons, k)) for k in 'neutrino_e neutrino_mu neutrino_tau electron muon tau'.split()}
    H = {k: mk(v) for k, v in sorted(vars(SMP.hadrons).items()) if isinstance(v, dict)}
    Q = [mk(getattr(SMP.quarks, k)) for k in 'up down charm strange top bottom'.split()]
    photon = mk(SMP.photon)
    nus = [L[k] for k in ('neutrino_e', 'neutrino_mu', 'neutrino_tau')]
    leps = [L[k] for k in ('electron', 'muon', 'tau')]
    mesons = [v for k, v in H.items() if k not in ('neutron', 'proton')]
    decaying = [m for m in mesons if m.name not in ('Charged kaon', 'Kaon long', 'Kaon short')]
    mass = r.choice([20., 60., 120., 145., 150., 300., 700., 900., 1100., 2500.]) * UNITS.MeV
    N = mk(NuP.dirac_sterile_neutrino(mass=mass))      # the library's crossings name N and its antiparticle: Dirac only
    th = defaultdict(float, {f: r.choice([0., 1e-3, 1e-2]) for f in ('electron', 'muon', 'tau')})
    nl, nn = leps[:r.randint(1, 3)], nus[:r.randint(1, 3)]
    groups = dict(neutrino=lambda: SMI.neutrino_interactions(leptons=nl, neutrinos=nn),
                  lepton=lambda: SMI.lepton_interactions(leptons=leps, neutrinos=nus),
                  sterile=lambda: NuI.sterile_leptons_interactions(thetas=th, sterile=N, neutrinos=nn, leptons=nl),
                  hadron=lambda: NuI.sterile_hadrons_interactions(thetas=th, sterile=N, neutrinos=nn, leptons=nl, mesons=decaying),
                  quark=lambda: NuI.sterile_quark_interactions(thetas=th, sterile=N, neutrinos=nn, leptons=nl, quarks=Q),
                  baryon=lambda: [SMI.baryons_interaction(neutron=H['neutron'], proton=H['proton'], neutrino=nus[0], electron=leps[0])],
                  meson=lambda: SMI.meson_interactions(primary_mesons=[r.choice(mesons)], mesons=mesons, leptons=leps, neutrinos=nus, photon=[photon], muon_tau=[0, 0]))
    for name, f in groups.items():
        for inter in ctx.code('library ' + name, f):
            monitor(name, inter, N, th)


@S.job()
def library_reactions(ctx):
    """ charge conservation, threshold and listing of every process of the library """
    def monitor(name, inter, N, th):
        keys = set()
        for g in inter.integrals:
            r = g.reaction
            q = sum(i.side * i.specie.Q * (-1 if i.antiparticle else 1) for i in r)
            ctx.check(abs(q) < 1e-9, 'library:charge', group=name, reaction=str(g).split('\t')[0], q=q)
            spin = sum(1 for i in r if i.specie.eta > 0)
            ctx.check(spin % 2 == 0, 'library:odd number of fermions', group=name, reaction=str(g).split('\t')[0])
            L, R = [i for i in r if i.side < 0], [i for i in r if i.side > 0]
            for one, many in ((L, R), (R, L)):
                if len(one) == 1:
                    ctx.check(one[0].specie.mass > sum(i.specie.mass for i in many), 'library:closed channel', group=name, reaction=str(g).split('\t')[0])
            k = (id(g.particle), tuple(sorted(id(i.specie) for i in L)), tuple(sorted(id(i.specie) for i in R)))
            ctx.check(k not in keys, 'library:listed twice', group=name, reaction=str(g).split('\t')[0])
            keys.add(k)
            ctx.check(r[0].specie is g.particle and not r[0].antiparticle and all(not (i.antiparticle and i.specie.majorana) for i in r), 'library:antiparticle', reaction=str(g).split('\t')[0])
            ctx.seen(name, str(g).split('\t')[0])
    for i in range(40 if ctx.thorough else 10):
        library(ctx, monitor)
    ctx.require('processes', len(ctx.states), 300)


@S.job()
def library_crossing(ctx):
    """ interactions with a single representation, compared with the enumeration """
    from common import UNITS, CONST
    from particles import Particle
    from library.SM import particles as SMP, interactions as SMI, WeakM
    from library.NuMSM import particles as NuP, interactions as NuI, SterileM
    from interactions.three_particle import ThreeParticleM
    r = ctx.rng
    mk = lambda d: Particle(**d)
    gR = CONST.g_R
    W = 32 * CONST.G_F ** 2

    class M(object):
        def __init__(self, order, K1=0., K2=0., f=1.):
            self.order, self.K1, self.K2 = order, K1 * W * f, K2 * W * f
    for i in range(60 if ctx.thorough else 15):
        e, mu = mk(SMP.leptons.electron), mk(SMP.leptons.muon)
        ne, nm = mk(SMP.leptons.neutrino_e), mk(SMP.leptons.neutrino_mu)
        N = mk(NuP.dirac_sterile_neutrino(mass=r.choice([20., 120., 150., 500.]) * UNITS.MeV))
        th = r.uniform(1e-4, 1e-1)
        a, b = r.choice([(ne, ne), (ne, nm), (nm, ne)])
        compare(ctx, SMI.neutrino_scattering(a, b), ((a, b), (a, b)), ((False, False), (False, False)), [M((0, 1, 2, 3), 1.)], 'nu nu')
        for nu, lep in ((ne, e), (nm, e), (ne, mu), (nm, mu)):
            gL = gR + .5 if nu.flavour == lep.flavour else gR - .5
            want = [M((0, 3, 1, 2), 4 * gR ** 2), M((0, 2, 1, 3), 4 * gL ** 2), M((2, 3, 0, 1), 0., 4 * gL * gR)]
            compare(ctx, SMI.neutrinos_to_leptons(neutrino=nu, lepton=lep, g_L=gL), ((nu, nu), (lep, lep)), ((False, True), (False, True)), want, 'nu lepton')
            got = [x for x in SMI.neutrino_interactions(leptons=[lep], neutrinos=[nu]) if 'lepton' in x.name]
            ctx.check(len(got) == 1, 'one neutral current interaction per pair', n=len(got))
            compare(ctx, got[0], ((nu, nu), (lep, lep)), ((False, True), (False, True)), want, 'nu lepton (collection)')
            ctx.seen('nu lepton', nu.symbol, lep.symbol)
        compare(ctx, SMI.leptons_CC(active1=ne, active2=nm, lepton1=e, lepton2=mu), ((e, mu), (ne, nm)), ((False, True), (False, True)), [M((0, 3, 1, 2), 4.)], 'CC')
        s1, s2 = NuI.sterile_active_scattering(theta=th, sterile=N, active_a=a, active_b=b)
        k = (2. if a is b else 1.)
        F = ((False, False), (False, False))
        compare(ctx, s1, ((N, b), (a, b)), F, [M((0, 1, 2, 3), k, f=th ** 2)], 'sterile scattering')
        compare(ctx, s2, ((a, b), (N, b)), F, [M((2, 3, 0, 1), k, f=th ** 2)], 'sterile scattering')
        gL = gR + r.choice([.5, -.5])
        for inter, A in zip(NuI.sterile_active_to_leptons_NC(theta=th, g_L=gL, sterile=N, active=ne, lepton=e),
                            [((False, True), (True, False)), ((True, False), (False, True))]):
            compare(ctx, inter, ((N, ne), (e, e)), A, [M((0, 2, 1, 3), 4 * gL ** 2, f=th ** 2), M((0, 3, 1, 2), 4 * gR ** 2, f=th ** 2),
                                                       M((2, 3, 0, 1), 0., 4 * gR * gL, f=th ** 2)], 'sterile NC')
        i1, i2 = NuI.sterile_active_to_leptons_CC(theta=th, sterile=N, active=nm, lepton1=e, lepton2=mu)
        A = ((False, True), (True, False))
        compare(ctx, i1, ((N, nm), (mu, e)), A, [M((0, 2, 1, 3), 4., f=th ** 2)], 'sterile CC')
        compare(ctx, i2, ((nm, N), (e, mu)), A, [M((0, 2, 1, 3), 4., f=th ** 2)], 'sterile CC')
        ctx.seen('sterile', N.mass > mu.mass, a is b)


if __name__ == '__main__':
    main(S)
