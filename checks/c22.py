"""C22: particle library: consistent quantum numbers, decay widths equal branching ratio over lifetime, textbook couplings."""
import itertools
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C22', 'distinct = (species) and (process, masses, mixing angles); non-trivial = a width or squared matrix element compared with its textbook value',
          assumptions=['tabulated masses, lifetimes and branching ratios are compared with rounded literature values (tolerances 1 %, light quarks 15 %)',
                       'decays into quarks are those into free quarks (no QCD corrections)'])

#        mass/MeV, tol,  particles+antiparticles x spin x colour, statistics, charge, self-conjugate, lifetime/s
TABLE = {
    'Photon': (0, 0, 2, -1, 0, True, None), 'Gluon': (0, 0, 16, -1, 0, True, None),
    'Neutron': (939.57, 1e-3, 4, 1, 0, False, None), 'Proton': (938.27, 1e-3, 4, 1, 1, False, None),
    'Neutral pion': (134.98, 1e-3, 1, -1, 0, True, 8.5e-17), 'Charged pion': (139.57, 1e-3, 2, -1, -1, False, 2.603e-8),
    'Charged kaon': (493.68, 1e-3, 2, -1, -1, False, 1.238e-8), 'Kaon long': (497.61, 1e-3, 1, -1, 0, True, 5.116e-8),
    'Kaon short': (497.61, 1e-3, 1, -1, 0, True, 8.954e-11), 'Eta': (547.86, 1e-3, 1, -1, 0, True, 5.02e-19),
    'Charged rho': (775.2, 2e-3, 6, -1, -1, False, 4.42e-24), 'Neutral rho': (775.3, 2e-3, 3, -1, 0, True, 4.42e-24),
    'Omega': (782.65, 1e-3, 3, -1, 0, True, 7.75e-23), 'Eta prime': (957.78, 1e-3, 1, -1, 0, True, 3.36e-21),
    'Phi': (1019.46, 1e-3, 3, -1, 0, True, 1.55e-22),
    'Electron neutrino': (0, 0, 2, 1, 0, False, None), 'Muon neutrino': (0, 0, 2, 1, 0, False, None), 'Tau neutrino': (0, 0, 2, 1, 0, False, None),
    'Electron': (.511, 1e-3, 4, 1, -1, False, None), 'Muon': (105.658, 1e-4, 4, 1, -1, False, 2.197e-6), 'Tau': (1776.8, 1e-3, 4, 1, -1, False, 2.903e-13),
    'Up quark': (2.2, .15, 12, 1, 2 / 3., False, None), 'Down quark': (4.7, .15, 12, 1, -1 / 3., False, None), 'Charm quark': (1275., .05, 12, 1, 2 / 3., False, None),
    'Strange quark': (95., .1, 12, 1, -1 / 3., False, None), 'Top quark': (173000., .02, 12, 1, 2 / 3., False, None), 'Bottom quark': (4180., .05, 12, 1, -1 / 3., False, None)}
BR = {'Neutral pion': {'γγ': .988}, 'Charged pion': {'μν_μ': .99988}, 'Charged kaon': {'π0eν_e': .0507, 'πππ': .0558, 'μν_μ': .6356, 'ππ0': .2067},
      'Kaon long': {'πeν_e': .4055, 'πμν_μ': .2704, 'π0π0π0': .1952, 'πππ0': .1254}, 'Kaon short': {'ππ': .692, 'π0π0': .3069},
      'Eta': {'γγ': .394, 'π0π0π0': .3268, 'πππ0': .2292, 'ππγ': .0422}, 'Charged rho': {'ππ0': 1.}, 'Neutral rho': {'ππ': 1.},
      'Omega': {'πππ0': .892, 'π0γ': .084}, 'Eta prime': {'ππη': .426, 'ρ0γ': .289, 'π0π0η': .228}, 'Phi': {'KK': .489, 'K0LK0S': .342, 'ρ0π0': .1532},
      'Muon': {'eν_eν_μ': 1.}}
DECAY_CONSTANTS = {'Neutral pion': 130.2, 'Charged pion': 130.2, 'Charged kaon': 155.6, 'Eta': 81.7, 'Eta prime': 94.7, 'Charged rho': 209., 'Neutral rho': 208.9, 'Omega': 195.5, 'Phi': 229.5}


def everything():
    from library import SM
    out = {}
    for c in (SM.particles, SM.particles.leptons, SM.particles.quarks, SM.particles.hadrons):
        for k, v in vars(c).items():
            if isinstance(v, dict) and 'name' in v:
                out[v['name']] = v
    return out


def symbols(d):
    """ {frozen composition: value}: the order of the daughters in a label does not matter """
    return {tuple(sorted(k)): v for k, v in d.items()}


@S.job()
def table(ctx):
    from common import UNITS, statistics as ST
    from particles import Particle
    lib = everything()
    sym = {}
    for name, (m, tol, dof, eta, q, self_conj, life) in TABLE.items():
        if not ctx.check(name in lib, 'species missing from the library', name=name):
            continue
        d = lib[name]
        p = ctx.code('create', Particle, **d)
        ctx.check(abs(p.mass / UNITS.MeV - m) <= tol * m, 'mass', name=name, got=p.mass / UNITS.MeV, want=m)
        ctx.check(p.dof == dof, 'degrees of freedom', name=name, got=p.dof, want=dof)
        ctx.check(p.eta == eta and p.statistics == (ST.FERMION if eta > 0 else ST.BOSON), 'statistics', name=name)
        ctx.check(abs(p.Q - q) < 1e-12, 'charge', name=name, got=p.Q, want=q)
        ctx.check(bool(p.majorana) == self_conj, 'self-conjugate', name=name)
        if life:
            ctx.close(d['lifetime'] / UNITS.s, life, 'lifetime', rel=.01, name=name)
            ctx.check(bool(d.get('fast_decay')), 'unstable species treated as stable', name=name)
        else:
            ctx.check('fast_decay' not in d, 'stable species treated as unstable', name=name)
        if name in BR:
            got, want = symbols(d['BR']), symbols(BR[name])
            ctx.check(set(got) == set(want), 'decay channels', name=name, got=sorted(d['BR']))
            for k in want:
                if k in got:
                    ctx.close(got[k], want[k], 'branching ratio', rel=.01, name=name, channel=''.join(k))
            ctx.check(0 < sum(d['BR'].values()) <= 1 + 1e-9, 'sum of branching ratios', name=name)
        if name in DECAY_CONSTANTS:
            ctx.close(abs(d['decay_constant']) / UNITS.MeV, DECAY_CONSTANTS[name], 'decay constant', rel=.01, name=name)
        sym.setdefault(d['symbol'], []).append(name)
        ctx.seen(name)
    ctx.check(all(len(v) == 1 for v in sym.values()), 'symbols are not unique', dup=[v for v in sym.values() if len(v) > 1])
    from library import SM
    V = SM.particles.quarks.CKM
    for i in (1, 2, 3):
        ctx.check(abs(sum(V[(i, j)] ** 2 for j in (1, 2, 3)) - 1) < 4e-3 and abs(sum(V[(j, i)] ** 2 for j in (1, 2, 3)) - 1) < 4e-3, 'quark mixing is not unitary', row=i)
    for ij, v in {(1, 1): .974, (1, 2): .225, (2, 1): .225, (2, 2): .973, (3, 3): .999}.items():
        ctx.close(V[ij], v, 'quark mixing', rel=.01, element=str(ij))
    for a, b in (('electron', 'Electron'), ('muon', 'Muon'), ('tau', 'Tau')):
        ctx.check(lib[b].get('flavour') == a and lib[b + ' neutrino'].get('flavour') == a, 'flavours', name=b)

    # heavy neutrinos: two spin states, twice as many when distinct from their antiparticles
    from library import NuMSM
    for make, dof, majorana in ((NuMSM.particles.sterile_neutrino, 2, True), (NuMSM.particles.dirac_sterile_neutrino, 4, False)):
        M, th = ctx.rng.uniform(1., 2000.), 10 ** ctx.rng.uniform(-6, -1)
        d = ctx.code('heavy neutrino', make, mass=M * UNITS.MeV, mixing_angle=th)
        p = ctx.code('create', Particle, **d)
        ctx.close(p.mass, M * UNITS.MeV, 'mass', rel=1e-12, name=p.name)
        ctx.close(p.mixing_angle, th, 'mixing', rel=1e-12, name=p.name)
        ctx.check(p.dof == dof, 'degrees of freedom', name=p.name, got=p.dof, want=dof)
        ctx.check(bool(p.majorana) == majorana, 'self-conjugate', name=p.name)
        ctx.check(p.eta == 1 and p.statistics == ST.FERMION and p.Q == 0, 'statistics', name=p.name)
        ctx.seen(p.name)


def width(ctx, g):
    """ vacuum width implied by the squared matrix element of a decay: (Gamma summed over its spin states) """
    import numpy as np
    from lib import boltz
    r = g.reaction
    ms = [i.specie.mass for i in r]
    p = r[0].specie
    g0 = p.dof if p.majorana else p.dof / 2.
    if len(r) == 3:
        q = math.sqrt(max(boltz.kallen(ms[0] ** 2, ms[1] ** 2, ms[2] ** 2), 0)) / (2 * ms[0])
        return sum(M.K for M in g.Ms) * q / (8 * math.pi * ms[0] ** 2) / g0
    K = [M.K for M in g.Ms if M.K]
    M2 = (lambda V: K[0]) if K else boltz.matrix([(M.K1, M.K2, M.order) for M in g.Ms], ms)
    return -boltz.decay(0., ms, [1] * 4, [lambda q: 0 * q] * 4, M2, n=1 << 16, seed=ctx.np_seed, parts=lambda *a: (1., -1.))[1] / g0


def decays(inters):
    for i in inters:
        for g in i.integrals:
            if [x.side for x in g.reaction].count(-1) == 1:
                yield g


def family(r):
    """ the species, in any order: the physics does not depend on how they are listed """
    from particles import Particle
    lib = everything()
    mk = lambda names: [Particle(**lib[n]) for n in names]
    mes = mk(['Neutral pion', 'Charged pion', 'Charged kaon', 'Kaon long', 'Kaon short', 'Eta', 'Charged rho', 'Neutral rho', 'Omega', 'Eta prime', 'Phi'])
    lep, nus = mk(['Electron', 'Muon', 'Tau']), mk(['Electron neutrino', 'Muon neutrino', 'Tau neutrino'])
    for x in (mes, lep, nus):
        if r.random() < .6:
            r.shuffle(x)
    return mes, lep, nus, Particle(**lib['Photon'])


def handed_down(ctx, inters, skip=()):
    """ every product of every decay has its own process that produces it: once """
    from collections import Counter
    made = Counter()
    for i in inters:
        for g in i.integrals:
            if [x.side for x in g.reaction].count(1) == 1:
                made[g.particle.name, g.reaction[-1].specie.name, tuple(sorted(x.specie.name for x in g.reaction[:-1]))] += 1
    for g in decays(inters):
        prods = tuple(sorted(x.specie.name for x in g.reaction[1:]))
        if g.particle.name in skip:
            continue
        for p in set(prods):
            k = made.pop((p, g.particle.name, prods), 0)
            ctx.check(k == 1, 'product of a decay is not produced once', parent=g.particle.name, products=prods, product=p, times=k)
    for (p, parent, prods) in made:
        ctx.check(parent in skip, 'product without a decay', parent=parent, product=p, products=prods)


@S.job()
def lifetimes(ctx):
    """ every tabulated decay channel is generated, with the width its lifetime and branching ratio demand """
    from common import UNITS
    from library import SM
    mes, lep, nus, ph = family(ctx.rng)
    n = 0
    for m in mes:
        muons = ctx.rng.choice([0, 0, 1])
        inters = ctx.code('meson interactions', SM.interactions.meson_interactions, primary_mesons=[m], mesons=mes, leptons=lep, neutrinos=nus, photon=[ph], muon_tau=[muons, 0])
        handed_down(ctx, inters)
        found = {}
        for g in decays(inters):
            p = g.particle
            found.setdefault((p.name, tuple(sorted(''.join(i.specie.symbol for i in g.reaction[1:])))), []).append(g)
        parents = {k[0] for k in found}
        ctx.check(m.name in parents, 'primary meson does not decay', name=m.name)
        for (name, comp), gs in found.items():
            if name == 'Tau':
                continue
            want = symbols(BR[name])
            if not ctx.check(comp in want, 'unknown decay channel', name=name, channel=''.join(comp)):
                continue
            ctx.check(len(gs) == 1, 'decay channel listed twice', name=name, channel=''.join(comp), n=len(gs))
            G = width(ctx, gs[0]) * UNITS.s
            # the listed partial widths have their own literature rounding
            ctx.close(G, want[comp] / TABLE[name][6], 'width of a decay channel', rel=.035, name=name, channel=''.join(comp))
            ctx.seen(name, ''.join(comp), m.name)
            n += 1
        for name in parents - {'Tau'}:
            ctx.check({c for (a, c) in found if a == name} == set(symbols(BR[name])), 'decay channel missing', name=name, got=sorted(''.join(c) for (a, c) in found if a == name))
        # daughters that are unstable decay as well
        daughters = {i.specie.name for g in decays(inters) for i in g.reaction[1:]}
        for d in daughters & set(BR):
            if d == 'Muon' and muons:
                continue
            ctx.check(d in parents, 'unstable decay product does not decay', name=d, primary=m.name)
    # leptonic decays of muon and tau
    inters = SM.interactions.lepton_interactions(leptons=lep, neutrinos=nus)
    got = {}
    for g in decays(inters):
        got[(g.particle.name, tuple(sorted(i.specie.symbol for i in g.reaction[1:])))] = width(ctx, g) * UNITS.s
    want = {('Muon', ('e', 'ν_e', 'ν_μ')): 1 / 2.197e-6, ('Tau', ('e', 'ν_e', 'ν_τ')): .1782 / 2.903e-13, ('Tau', ('μ', 'ν_μ', 'ν_τ')): .1739 / 2.903e-13}
    ctx.check(set(got) == set(want), 'leptonic decays', got=[str(k) for k in got])
    for k in want:
        if k in got:
            ctx.close(got[k], want[k], 'leptonic decay width', rel=.02, channel=str(k))
    ctx.require('decay channels', n, 30)


def I3(xu, xd, xl):
    """ phase space function of N -> l u d (massive) """
    import numpy as np
    from lib.boltz import kallen
    lo, hi = (xd + xl) ** 2, (1 - xu) ** 2
    t, w = np.polynomial.legendre.leggauss(400)
    th = (t + 1) * math.pi / 2
    s = lo + (hi - lo) * (1 - np.cos(th)) / 2
    jac = (hi - lo) * np.sin(th) / 2 * math.pi / 2
    f = (s - xl ** 2 - xd ** 2) * (1 + xu ** 2 - s) / np.maximum(s, 1e-300) * np.sqrt(np.maximum(kallen(s, xl ** 2, xd ** 2) * kallen(1., s, xu ** 2), 0))
    return 12 * float(np.sum(w * jac * f))


def neutral_current(x, gL, gR):
    """ N -> nu f fbar, in units of G_F^2 M^5 / 192 pi^3 """
    r = math.sqrt(1 - 4 * x * x)
    L = math.log(4 * x ** 4 / ((1 + r) * (1 - 3 * x * x + (1 - x * x) * r)))
    A = (1 - 14 * x ** 2 - 2 * x ** 4 - 12 * x ** 6) * r + 12 * x ** 4 * (x ** 4 - 1) * L
    B = x ** 2 * (2 + 10 * x ** 2 - 12 * x ** 4) * r + 6 * x ** 4 * (1 - 2 * x ** 2 + 2 * x ** 4) * L
    return (gL ** 2 + gR ** 2) * A + 4 * gL * gR * B


GF, S2W = 1.166e-11, .2312        # MeV^-2


@S.job()
def sterile(ctx):
    """ heavy neutrino decays: every open channel, with the textbook width and the mixing of the right flavour """
    import numpy as np
    from common import UNITS
    from particles import Particle
    from library import NuMSM
    from interactions.four_particle import CollisionIntegralKind as Kind
    r = ctx.rng
    lib = everything()
    mes, lep, nus, ph = family(ctx.rng)
    FL = ('electron', 'muon', 'tau')
    ml = {p.flavour: p.mass / UNITS.MeV for p in lep}
    n = 0
    for case in range(60 if ctx.thorough else 16):
        M = r.choice([3., 33.9, 60., 120., 160., 300., 550., 800., 1100., 1500.]) * r.uniform(.9, 1.1)
        th = {f: r.choice([0., 10 ** r.uniform(-6, -1)]) for f in FL}
        if not any(th.values()):
            th[r.choice(FL)] = 1e-3
        N = Particle(**NuMSM.particles.dirac_sterile_neutrino(mass=M * UNITS.MeV, mixing_angle=1e-3))
        unit = GF ** 2 * M ** 5 / (192 * math.pi ** 3)
        want, got = {}, {}
        # leptons
        lsub = r.sample(lep, r.choice([1, 2, 3]))
        r.shuffle(nus)
        kind = r.choice([None, Kind.Full, Kind.Full_vacuum_decay, Kind.F_1, Kind.F_f])
        inters = ctx.code('leptonic interactions', NuMSM.interactions.sterile_leptons_interactions, thetas=th, sterile=N, neutrinos=nus, leptons=lsub, kind=kind)
        for a in nus:
            for b in nus:
                k = tuple(sorted([a.symbol, b.symbol, b.symbol]))
                want[k] = want.get(k, 0.) + (2 if a is b else 1) * .25 * th[a.flavour] ** 2 * unit
        for a in nus:
            for l in lsub:
                x = ml[l.flavour] / M
                if 2 * x < 1:
                    gR = S2W
                    gL = S2W + (.5 if l.flavour == a.flavour else -.5)
                    k = tuple(sorted([a.symbol, l.symbol, l.symbol]))
                    want[k] = want.get(k, 0.) + th[a.flavour] ** 2 * unit * neutral_current(x, gL, gR)
        for la in lsub:
            for lb in lsub:
                if la is not lb and ml[la.flavour] + ml[lb.flavour] < M:
                    nu_b = [v for v in nus if v.flavour == lb.flavour][0]
                    k = tuple(sorted([la.symbol, lb.symbol, nu_b.symbol]))
                    want[k] = want.get(k, 0.) + th[la.flavour] ** 2 * unit * I3(0., ml[lb.flavour] / M, ml[la.flavour] / M)
        # mesons
        hsub = [m for m in mes if m.name in DECAY_CONSTANTS]
        inters2 = ctx.code('hadronic interactions', NuMSM.interactions.sterile_hadrons_interactions, thetas=th, sterile=N, neutrinos=nus, leptons=lsub, mesons=hsub, kind=kind)
        for i in inters + inters2:
            for g in i.integrals:
                if not hasattr(g.particle, 'fast_decay'):
                    ctx.check(g.kind == (kind if kind is not None else Kind.Full), 'part of the collision term that was asked for', process=str(g), kind=str(g.kind), asked=str(kind))
                else:       # unstable particles: what is created and what decays is followed separately
                    ctx.check(g.kind == Kind.F_creation or g.kind == Kind.F_decay and [x.side for x in g.reaction].count(-1) == 1, 'part of the collision term of an unstable particle', process=str(g), kind=str(g.kind))
        for m in hsub:
            x = m.mass / UNITS.MeV / M
            f = DECAY_CONSTANTS[m.name]
            vector = m.name in ('Charged rho', 'Neutral rho', 'Omega', 'Phi')
            if m.Q == 0:
                for a in nus:
                    if x < 1:
                        kap = {'Neutral rho': 1 - 2 * S2W, 'Omega': 4 * S2W / 3, 'Phi': 4 * S2W / 3 - 1}.get(m.name, 1.)
                        want[tuple(sorted([a.symbol, m.symbol]))] = th[a.flavour] ** 2 * (GF * f * kap) ** 2 * M ** 3 / (32 * math.pi) * (1 - x * x) ** 2 * ((1 + 2 * x * x) if vector else 1.)
            else:
                for l in lsub:
                    y = ml[l.flavour] / M
                    if x + y < 1:
                        lam = math.sqrt((1 - (x + y) ** 2) * (1 - (x - y) ** 2))
                        br = (1 - y * y) ** 2 + x * x * (1 + y * y) - 2 * x ** 4 if vector else (1 - y * y) ** 2 - x * x * (1 + y * y)
                        want[tuple(sorted([l.symbol, m.symbol]))] = th[l.flavour] ** 2 * (GF * f * (.225 if m.name == 'Charged kaon' else .974)) ** 2 * M ** 3 / (16 * math.pi) * br * lam
        for g in decays(list(inters) + list(inters2)):
            if g.particle is N:
                k = tuple(sorted(i.specie.symbol for i in g.reaction[1:]))
                got[k] = got.get(k, 0.) + width(ctx, g) / UNITS.MeV
        want = {k: v for k, v in want.items() if v}
        ctx.check(set(want) <= set(got), 'heavy neutrino decay missing', M=M, missing=[''.join(k) for k in set(want) - set(got)], thetas=th)
        ctx.check(all(k in want for k in got if got[k]), 'forbidden heavy neutrino decay', M=M, extra=[''.join(k) for k in set(got) - set(want)], thetas=th)
        for k in want:
            if k in got:
                ctx.close(got[k], want[k], 'heavy neutrino decay width', rel=.02, channel='+'.join(k), M=M, thetas=th)
                ctx.seen('+'.join(k))
                n += 1
    ctx.require('widths', n, 100)


@S.job()
def quarks(ctx):
    """ decays into free quarks: neutral and charged currents, mixing of quarks and flavours; every colour counts """
    from common import UNITS
    from particles import Particle
    from library import NuMSM
    r = ctx.rng
    lib = everything()
    mes, lep, nus, ph = family(ctx.rng)
    V = {(1, 1): .974, (1, 2): .225, (1, 3): .004, (2, 1): .225, (2, 2): .973, (2, 3): .041}
    n, ratios = 0, []
    for case in range(30 if ctx.thorough else 8):
        M = r.choice([300., 900., 2500., 6000.]) * r.uniform(.9, 1.1)
        th = {f: r.choice([0., 10 ** r.uniform(-6, -1)]) for f in ('electron', 'muon', 'tau')}
        th[r.choice(list(th))] = 1e-3
        N = Particle(**NuMSM.particles.dirac_sterile_neutrino(mass=M * UNITS.MeV, mixing_angle=1e-3))
        qs = [Particle(**lib[x + ' quark']) for x in ('Up', 'Down', 'Charm', 'Strange', 'Bottom')]
        inters = ctx.code('quark interactions', NuMSM.interactions.sterile_quark_interactions, thetas=th, sterile=N, neutrinos=nus, leptons=lep, quarks=qs)
        unit = GF ** 2 * M ** 5 / (192 * math.pi ** 3)
        want, got = {}, {}
        for a in nus:
            for q in qs:
                x = q.mass / UNITS.MeV / M
                if 2 * x < 1 and th[a.flavour]:
                    gL, gR = (.5 - 2 / 3. * S2W, -2 / 3. * S2W) if q.Q > 0 else (-.5 + S2W / 3, S2W / 3)
                    want[tuple(sorted([a.symbol, q.symbol, q.symbol]))] = 3 * th[a.flavour] ** 2 * unit * neutral_current(x, gL, gR)
        for l in lep:
            for u in [q for q in qs if q.Q > 0]:
                for d in [q for q in qs if q.Q < 0]:
                    xs = [p.mass / UNITS.MeV / M for p in (u, d, l)]
                    if sum(xs) < 1 and th[l.flavour]:
                        want[tuple(sorted([l.symbol, u.symbol, d.symbol]))] = 3 * th[l.flavour] ** 2 * unit * V[(u.family, d.family)] ** 2 * I3(*xs)
        for g in decays(inters):
            if g.particle is N:
                k = tuple(sorted(i.specie.symbol for i in g.reaction[1:]))
                got[k] = got.get(k, 0.) + width(ctx, g) / UNITS.MeV
        ctx.check(set(want) == {k for k in got if got[k]}, 'decays into quarks', M=M, missing=[''.join(k) for k in set(want) - set(got)], extra=[''.join(k) for k in set(got) - set(want)])
        for k in want:
            if k in got:
                ratios.append((got[k] / want[k], '+'.join(k), M))
                ctx.seen('+'.join(k))
                n += 1
    # every colour is a channel of its own
    for x, k, M in ratios:
        ctx.stat('ratio', x)
        ctx.check(abs(x - 1) < .03, 'width into quarks', channel=k, M=M, ratio=x)
    ctx.require('widths', n, 40)


@S.job()
def products(ctx):
    """ the processes of unstable decay products: only their creation and decay, of the requested kind, for everything that is produced """
    from common import UNITS
    from interactions.four_particle import CollisionIntegralKind as Kind
    from particles import Particle
    from library import NuMSM
    r = ctx.rng
    n = 0
    for case in range(30 if ctx.thorough else 10):
        mes, lep, nus, ph = family(ctx.rng)
        M = r.choice([120., 160., 300., 550., 800., 1100., 1500., 2000., 2500.]) * r.uniform(.97, 1.03)
        th = {f: r.choice([0., 10 ** r.uniform(-6, -1)]) for f in ('electron', 'muon', 'tau')}
        th[r.choice(['electron', 'muon'])] = 1e-3
        if case == 1:       # tau leptons among the products, but no muons
            M, th = 2500., {'electron': 1e-3, 'muon': 0., 'tau': 1e-3}
        N = Particle(**NuMSM.particles.dirac_sterile_neutrino(mass=M * UNITS.MeV, mixing_angle=1e-3))
        kind = r.choice([None, Kind.Full, Kind.F_1_vacuum_decay, Kind.F_f_vacuum_decay])
        hs = [m for m in mes if m.name in DECAY_CONSTANTS]
        prim = [NuMSM.interactions.sterile_leptons_interactions(thetas=th, sterile=N, neutrinos=nus, leptons=lep),
                NuMSM.interactions.sterile_hadrons_interactions(thetas=th, sterile=N, neutrinos=nus, leptons=lep, mesons=hs)]
        # either group of primary decays alone, or both
        prim = prim[1:] if case == 1 else r.choice([prim, prim, prim[:1], prim[1:]])
        made = {i.specie.name for p in prim for g in decays(p) if g.particle is N for i in g.reaction[1:]}
        inters = ctx.code('decay products', NuMSM.interactions.interactions_decay_products, interactions_primary=prim, neutrinos=nus, leptons=lep, mesons=mes, photon=[ph], kind=kind)
        create, decay = (Kind.F_1_vacuum_decay, Kind.F_f_vacuum_decay) if kind in (Kind.F_1_vacuum_decay, Kind.F_f_vacuum_decay) else (Kind.F_creation, Kind.F_decay)
        parents = set()
        for i in inters:
            for g in i.integrals:
                left = [x.side for x in g.reaction].count(-1)
                right = len(g.reaction) - left
                ctx.check(left == 1 or right == 1, 'scattering among the processes of decay products', process=str(g))
                ctx.check(g.kind == (decay if left == 1 else create), 'kind of a process of decay products', process=str(g), kind=str(g.kind))
                if left == 1:
                    parents.add(g.particle.name)
                n += 1
        handed_down(ctx, inters)
        todo = {x for x in made if x in BR}
        ctx.check(todo <= parents, 'unstable decay product does not decay', missing=sorted(todo - parents), M=M)
        ctx.check('Sterile neutrino (Dirac)' not in parents, 'primary decay repeated among the secondary ones')
        # muons decay elsewhere: all the same, except for the decays of charged leptons into each other
        rest = ctx.code('decay products', NuMSM.interactions.interactions_decay_products, interactions_primary=prim, neutrinos=nus, leptons=lep, mesons=mes, photon=[ph], kind=kind, muon_dec=True)
        if not any(x.specie.name == 'Tau' for p in prim for i in p for g in i.integrals for x in g.reaction):
            key = lambda g: (str(g.kind), str(g).split('\t')[0], [(M.K, M.K1, M.K2, M.order) if hasattr(M, 'order') else M.K for M in g.Ms])
            of = lambda inters: sorted((key(g) for i in inters for g in i.integrals if len({x.specie.name for x in g.reaction} & {'Electron', 'Muon', 'Tau'}) < 2), key=str)
            ctx.check(of(inters) == of(rest), 'processes without those of the muon', M=M, got=len(of(rest)), want=len(of(inters)))
            ctx.check('Muon' not in {g.particle.name for i in rest for g in i.integrals if [x.side for x in g.reaction].count(-1) == 1}, 'muon decays listed twice', M=M)
            n += 1
        ctx.seen(len(made), tuple(sorted(parents)))
    ctx.require('processes', n, 50)


@S.job()
def weak(ctx):
    """ scatterings of active neutrinos among each other and with charged leptons """
    from common import CONST, UNITS
    from library import SM
    r = ctx.rng
    mes, lep, nus, ph = family(ctx.rng)
    W = 32 * GF ** 2 / UNITS.MeV ** 4
    n = 0
    for case in range(8):
        ls = r.sample(lep, r.choice([1, 1, 2, 3]))
        ns = r.sample(nus, r.choice([1, 2, 3]))
        inters = ctx.code('weak interactions', SM.interactions.neutrino_interactions, leptons=ls, neutrinos=ns)
        for a in ns:
            procs = {}
            for i in inters:
                for g in i.integrals:
                    if g.particle is a and [x.side for x in g.reaction].count(-1) == 2:
                        L = tuple(sorted(x.specie.name for x in g.reaction if x.side < 0))
                        R = tuple(sorted(x.specie.name for x in g.reaction if x.side > 0))
                        procs.setdefault((L, R), []).append(g)
            # physical kinematics: momenta of 0 1 -> 2 3
            for (L, R), gs in procs.items():
                ctx.check(len(gs) == 1, 'process listed twice', process=str((L, R)))
                g = gs[0]
                names = [x.specie.name for x in g.reaction]
                ms = [x.specie.mass for x in g.reaction]
                V = scatter(r, ms)
                s = [[dot(x, y) for y in V] for x in V]
                val = lambda V: sum(M.K1 * s[M.order[0]][M.order[1]] * s[M.order[2]][M.order[3]] + M.K2 * ms[M.order[0]] * ms[M.order[1]] * s[M.order[2]][M.order[3]] for M in g.Ms)
                have = val(V)
                # average over exchanging the two outgoing momenta when they are identical species
                if names[2] == names[3]:
                    V = [V[0], V[1], V[3], V[2]]
                    s = [[dot(x, y) for y in V] for x in V]
                    have = (have + val(V)) / 2
                S12, S13, S14 = s[0][1] * s[2][3], s[0][2] * s[1][3], s[0][3] * s[1][2]
                sym = names[2] == names[3]
                others = [x for x in names if x != a.name]
                l = [p for p in ls if p.name in names]
                if not l:
                    if names == [a.name] * 4:
                        want = None
                        # nu nu -> nu nu (2 * 1/2 S12 * 2) and nu nubar -> nu nubar (4 S14), averaged over the labels of the outgoing pair
                        want = W * (2 * S12 * 1 + 4 * (S13 + S14) / 2) if sym else None
                    elif len(set(R)) == 1:      # annihilation into another flavour
                        want = W * (S13 + S14) / 2
                    else:                        # scattering off another flavour and its antiparticle
                        j = names.index(a.name, 1)
                        want = W * (S12 + (S14 if j == 2 else S13))
                else:
                    gR = S2W
                    gL = S2W + (.5 if l[0].flavour == a.flavour else -.5)
                    m2 = l[0].mass ** 2
                    if sym:
                        want = W * 4 * ((gL ** 2 + gR ** 2) * (S13 + S14) / 2 + gL * gR * m2 * s[0][1])
                    else:
                        j = names.index(a.name, 1)
                        Sx = S14 if j == 2 else S13
                        want = W * 4 * ((gL ** 2 + gR ** 2) * (S12 + Sx) - 2 * gL * gR * m2 * s[0][j])
                if want is not None:
                    ctx.stat('ratio:' + str((names)), have / want)
                    ctx.close(have, want, 'weak scattering matrix element', rel=.01, process=str(g), names=str(names))
                    ctx.seen(tuple(names))
                    n += 1
    ctx.require('processes', n, 20)


def dot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]


def scatter(r, ms):
    """ a physical configuration 0 1 -> 2 3 in the centre-of-mass frame """
    Ecm = (max(ms[0] + ms[1], ms[2] + ms[3]) + .001) * r.uniform(1.2, 4)
    q = lambda a, b: math.sqrt(max((Ecm ** 2 - (a + b) ** 2) * (Ecm ** 2 - (a - b) ** 2), 0)) / (2 * Ecm)
    p, k = q(ms[0], ms[1]), q(ms[2], ms[3])
    c = r.uniform(-1, 1)
    sn = math.sqrt(1 - c * c)
    E = lambda m, p: math.sqrt(m * m + p * p)
    return [[E(ms[0], p), 0, 0, p], [E(ms[1], p), 0, 0, -p], [E(ms[2], k), k * sn, 0, k * c], [E(ms[3], k), -k * sn, 0, -k * c]]


def positions(names, k):
    return [i for i, x in enumerate(names) if x == k]


def strength(g, A, B, v, first=None):
    """ squared matrix element of a listed process at the invariants v, legs in the order A then B; averaged over the labels of equal species.
        first: position of the species that the process belongs to (all of them if not given) """
    names = [x.specie.name for x in g.reaction]
    ms = [x.specie.mass for x in g.reaction]
    left = [k for k, x in enumerate(g.reaction) if x.side < 0]
    right = [k for k, x in enumerate(g.reaction) if x.side > 0]
    if len(g.reaction) == 3:
        return sum(M.K for M in g.Ms)
    total, count = 0., 0
    for (P, p0), (Q, q0) in (((A, 0), (B, len(A))), ((B, len(A)), (A, 0))):
        if tuple(sorted(names[k] for k in left)) != P:
            continue
        for a in itertools.permutations(range(len(left))):
            if any(names[k] != P[a[i]] for i, k in enumerate(left)):
                continue
            for b in itertools.permutations(range(len(right))):
                if any(names[k] != Q[b[i]] for i, k in enumerate(right)):
                    continue
                pos = dict([(k, p0 + a[i]) for i, k in enumerate(left)] + [(k, q0 + b[i]) for i, k in enumerate(right)])
                if first is not None and pos[0] != first:
                    continue
                s = lambda x, y: v[min(pos[x], pos[y])][max(pos[x], pos[y])]
                for M in g.Ms:
                    o = M.order
                    total += M.K + M.K1 * s(o[0], o[1]) * s(o[2], o[3]) + M.K2 * ms[o[0]] * ms[o[1]] * s(o[2], o[3])
                count += 1
    return total / count if count else 0.


@S.job()
def balance(ctx):
    """ the processes listed for the participants of a reaction describe the same reaction: at every configuration of the momenta, with the same strength """
    from common import UNITS
    from particles import Particle
    from library import NuMSM, SM
    r = ctx.rng
    lib = everything()
    n = 0
    for case in range(30 if ctx.thorough else 8):
        mes, lep, nus, ph = family(ctx.rng)
        M = r.choice([30., 120., 160., 300., 600., 1200., 5000.]) * r.uniform(.95, 1.05)
        th = {f: r.choice([0., 10 ** r.uniform(-4, -1)]) for f in ('electron', 'muon', 'tau')}
        th[r.choice(list(th))] = 1e-2
        N = Particle(**NuMSM.particles.dirac_sterile_neutrino(mass=M * UNITS.MeV, mixing_angle=1e-3))
        qs = [Particle(**lib[x + ' quark']) for x in r.sample(['Up', 'Down', 'Charm', 'Strange', 'Bottom'], 3)]
        hs = [m for m in mes if m.name in DECAY_CONSTANTS]
        ns, ls = r.sample(nus, r.choice([1, 2, 3])), r.sample(lep, r.choice([1, 2, 3]))
        groups = dict(active=lambda: SM.interactions.neutrino_interactions(leptons=ls[:1], neutrinos=ns),
                      leptons=lambda: NuMSM.interactions.sterile_leptons_interactions(thetas=th, sterile=N, neutrinos=ns, leptons=ls),
                      hadrons=lambda: NuMSM.interactions.sterile_hadrons_interactions(thetas=th, sterile=N, neutrinos=ns, leptons=ls, mesons=hs),
                      quarks=lambda: NuMSM.interactions.sterile_quark_interactions(thetas=th, sterile=N, neutrinos=ns, leptons=ls, quarks=qs))
        for group, f in groups.items():
            classes = {}
            for i in ctx.code(group, f):
                for g in i.integrals:
                    L, R = [tuple(sorted(x.specie.name for x in g.reaction if x.side == s)) for s in (-1, 1)]
                    classes.setdefault(min((L, R), (R, L)), []).append(g)
            for (A, B), gs in sorted(classes.items()):
                legs = A + B
                of = {x.specie.name: x.specie for g in gs for x in g.reaction}
                if A == B and len(set(A)) == 1:
                    continue
                # reactions of unstable leptons with the plasma only count for the heavy neutrino
                alone = group == 'leptons' and any(x in A and x in B for x in ('Muon', 'Tau'))
                v = [[10 ** r.uniform(-1, 1) for _ in legs] for _ in legs]
                seen = {}
                # exchanging the two sides changes nothing if they are alike
                flip = [list(range(len(legs)))] + ([[(i + len(A)) % len(legs) for i in range(len(legs))]] if A == B else [])
                vs = [[[v[min(p[i], p[j])][max(p[i], p[j])] for j in range(len(legs))] for i in range(len(legs))] for p in flip]
                for k, x in enumerate(legs):
                    if A == B and k >= len(A):
                        continue
                    side = A if k < len(A) else B
                    mine = [g for g in gs if g.particle.name == x and (tuple(sorted(y.specie.name for y in g.reaction if y.side < 0)) == side)]
                    w = 1. if of[x].majorana else 2.
                    seen[k] = w * sum(sum(strength(g, A, B, u, first=k) for u in vs) / len(vs) for g in mine) / side.count(x)
                # the reference: a species that takes part once, whose processes do not tell equal partners apart
                once = [k for k, x in enumerate(legs) if k in seen and (A if k < len(A) else B).count(x) == 1 and not (alone and x != N.name)]
                want = max((seen[k] for k in once), key=abs, default=None)
                if want is None:
                    continue
                for k in seen:
                    if alone and legs[k] != N.name:
                        continue
                    ctx.check(abs(seen[k] - want) <= 1e-9 * abs(want), 'participants disagree about the strength of a reaction', reaction='+'.join(A) + ' <-> ' + '+'.join(B), species=legs[k],
                              relative=seen[k] / want if want else None, group=group)
                    n += 1
                ctx.seen(group, A, B)
    ctx.require('participants', n, 400)



if __name__ == '__main__':
    main(S)
