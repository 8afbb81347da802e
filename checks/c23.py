"""C23: units and constants are mutually consistent, and no result depends on the choice of units."""
import json
import math
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main, PY

S = Suite('C23', 'distinct = (quantity, unit of energy) and computations repeated in other units; non-trivial = a conversion compared with the literature or a number compared between two unit systems',
          assumptions=['accuracy of the tabulated conversions: 1e-4'])
DIMENSION = dict(M_p=1, G=-2, G_F=-2, H=1, f_K=1, f_eta_c=1, f_D=1, f_Ds=1, f_Ds_star=1, lambda_QCD=1, M_W=1, delta_m12_sq=2, delta_m13_sq=2, rate_normalization=-5, MSW_constant=-4)


@S.job()
def conversions(ctx):
    from common import UNITS as U, CONST as C
    def same(got, want, what, rel=1e-4):
        ctx.close(got, want, what, rel=rel)
        ctx.seen(what)
    same(U.keV, 1e3 * U.eV, 'keV', 1e-12)
    same(U.MeV, 1e6 * U.eV, 'MeV', 1e-12)
    same(U.GeV, 1e9 * U.eV, 'GeV', 1e-12)
    same(U.TeV, 1e12 * U.eV, 'TeV', 1e-12)
    same(U.m / U.s * 299792458., 1., 'speed of light')
    same(U.MeV * U.s, 1 / 6.582119e-22, 'reduced Planck constant')
    same(U.MeV * U.m, 1 / 1.973270e-13, 'metre')
    same(U.kg / U.GeV, 5.609589e26, 'kilogram')
    same(U.kg * U.m ** 2 / U.s ** 2, 6.241509e12 * U.MeV, 'joule')
    same(U.N, U.kg * U.m / U.s ** 2, 'newton', 2e-4)
    same(U.K9, 8.617333e-2 * U.MeV, 'kelvin')
    same(U.g_cm3, 1e-3 * U.kg / (1e-2 * U.m) ** 3, 'gram per cubic centimetre', 1e-3)
    same(C.M_p, 1.2209e19 * U.GeV, 'Planck mass', 1e-3)
    same(C.G * C.M_p ** 2, 1., 'gravitational constant', 1e-9)
    same(C.G, 6.674e-11 * U.N * U.m ** 2 / U.kg ** 2, 'gravitational constant in SI units', 3e-3)
    same(C.G_F * U.GeV ** 2, 1.1664e-5, 'Fermi constant', 1e-3)
    same(C.sin_theta_w_2, .2312, 'weak mixing angle', 2e-3)
    same(C.g_R, .2312, 'right-handed coupling', 2e-3)
    same(C.g_L, .7312, 'left-handed coupling', 2e-3)
    same(C.alpha, 1 / 137.036, 'fine structure constant', 1e-3)
    same(C.M_W / U.GeV, 80.38, 'W mass', 1e-3)
    same(C.delta_m12_sq / U.eV ** 2, 7.37e-5, 'solar mass splitting', .03)
    same(C.delta_m13_sq / U.eV ** 2, 2.56e-3, 'atmospheric mass splitting', .05)
    if hasattr(C, 'eta'):
        same(C.eta, 6.1e-10, 'baryon to photon ratio', .03)
    same(C.lambda_QCD / U.MeV, 150., 'QCD scale', .1)
    same(C.H * 4.55e17 * U.s, 1., 'Hubble constant', .05)
    same(C.MSW_constant * C.M_W ** 2 / C.G_F, 16 * 1.2020569 * math.sqrt(2) / math.pi, 'matter potential', 1e-3)
    # free neutron decay normalisation: 1 / integral of the phase space, m_e = .511, q = 1.29333
    import numpy as np
    q, m = 1.293332, .511
    t, w = np.polynomial.legendre.leggauss(300)
    th = (t + 1) * math.pi / 4
    E = m + (q - m) * np.sin(th) ** 2
    f = (q - E) ** 2 * E * np.sqrt(E * E - m * m) * (q - m) * 2 * np.sin(th) * np.cos(th) * math.pi / 4
    same(C.rate_normalization * U.MeV ** 5 * float(np.sum(w * f)), 1., 'neutron decay normalisation', .1)
    # expansion law in conventional units: t = 1.3 s at 1 MeV for 10.75 degrees of freedom (within the accuracy of the rule)
    from common import Params
    p = Params(T=1 * U.MeV, dy=.01)
    rho = math.pi ** 2 / 30 * 10.75 * U.MeV ** 4
    p.init_time(rho)
    same(p.t / U.s, .7386, 'age at one MeV', 5e-3)
    p.update(rho, 1.)
    same(1 / (2 * p.H) / U.s, .7386, 'Hubble time at one MeV', 5e-3)


WORK = '''
import sys, os, json, random
sys.path.insert(0, {verif!r})
from lib.boot import boot
boot('release')
import common
from common import UNITS, CONST
factor = {factor!r}
if factor != 1:
    UNITS.eV = UNITS.eV * factor
    UNITS.reset_units()
    for k, d in {dims!r}.items():
        if hasattr(CONST, k):
            setattr(CONST, k, getattr(CONST, k) * factor ** d)
from checks import c23
print('RESULT' + json.dumps(c23.compute({seed}, {thorough})))
'''


def compute(seed, thorough):
    """ dimensionless numbers from every part of the code """
    import random
    import numpy as np
    from common import UNITS, CONST, LinearSpacedGrid, LogSpacedGrid, kinematics, statistics as ST
    from evolution import Universe
    from particles import Particle
    from library import SM, NuMSM
    from lib import worlds
    import kawano
    r = random.Random(seed)
    M = UNITS.MeV
    out = {}
    def put(k, v):
        out[k] = [float(x) for x in np.ravel(v)]
    with worlds.quiet():
        # library
        for c in (SM.particles, SM.particles.leptons, SM.particles.quarks, SM.particles.hadrons):
            for k, v in vars(c).items():
                if isinstance(v, dict) and 'name' in v:
                    put('library ' + k, [v.get('mass', 0) / M, v.get('decoupling_temperature', 0) / M, v.get('lifetime', 0) / UNITS.s, v.get('decay_constant', 0) / M])
        # a universe with equilibrium plasma, decoupled neutrinos, oscillations and conversion rates
        T0 = r.uniform(3, 8)
        u = Universe(params=worlds.make_params(T0, .03))
        g = lambda n: Particle(**dict(n, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=41, MAX_MOMENTUM=20 * M)))
        ph, e = g(SM.particles.photon), g(SM.particles.leptons.electron)
        nus = [g(SM.particles.leptons.neutrino_e), g(SM.particles.leptons.neutrino_mu), g(SM.particles.leptons.neutrino_tau)]
        x = worlds.spec_particle(7, 2, r.uniform(1, 5), -1, decoupling_temperature=2 * M, grid=LogSpacedGrid(MOMENTUM_SAMPLES=41, MAX_MOMENTUM=20 * M))
        u.add_particles([ph, e, x] + nus)
        u.init_oscillations(SM.particles.leptons.oscillations_map, nus)
        u.init_kawano(electron=e, neutrino=nus[0])
        u.interactions = SM.interactions.neutrino_interactions(leptons=[e], neutrinos=nus) if thorough else [SM.interactions.neutrinos_to_leptons(lepton=e, neutrino=nus[0])]
        u.params.dy = .03
        u.evolve(T0 * (.93 if thorough else .96) * M)
        for (name, _, unit) in (('aT', 0, M), ('T', 0, M), ('a', 0, 1), ('x', 0, M), ('t', 0, UNITS.s), ('rho', 0, M ** 4), ('N_eff', 0, 1), ('S', 0, M ** 3)):
            put('evolution ' + name, np.array(u.data[name]) / unit)
        for p in u.particles:
            put('density ' + p.name, [p.density / M ** 3, p.energy_density / M ** 4, p.pressure / M ** 4])
            put('distribution ' + p.name, p._distribution)
        put('rates', kawano.baryonic_rates(u.params.a))
        # heavy neutrino: kinematics
        for _ in range(6):
            m, th = r.choice([5., 120., 160., 900.]) * r.uniform(.9, 1.1) * M, 10 ** r.uniform(-4, -1)
            put('decoupling %d' % _, [kinematics.decoupling_temperature(m, th) / M, kinematics.grid_resolution_HNL(m, th) / M, kinematics.grid_resolution_neutrino(m, th) / M,
                                      kinematics.grid_resolution_meson(m, th) / M, kinematics.grid_resolution_lepton(m, th) / M])
            for k in ('HNL', 'neutrino', 'meson', 'lepton'):
                n, top = getattr(kinematics, 'grid_params_' + k)(m, th)
                put('grid %s %d' % (k, _), [top / M])
        # widths of a heavy neutrino and of the mesons
        N = Particle(**NuMSM.particles.dirac_sterile_neutrino(mass=900 * M, mixing_angle=1e-2))
        from checks import c22
        import random
        mes, lep, nu3, pho = c22.family(random.Random(5))
        th = dict(electron=1e-3, muon=2e-3, tau=3e-3)
        class C(object):
            np_seed = 5
        hs = [m_ for m_ in mes if m_.name in c22.DECAY_CONSTANTS]
        for i in NuMSM.interactions.sterile_leptons_interactions(thetas=th, sterile=N, neutrinos=nu3, leptons=lep) + NuMSM.interactions.sterile_hadrons_interactions(thetas=th, sterile=N, neutrinos=nu3, leptons=lep, mesons=hs):
            for gg in i.integrals:
                if gg.particle is N and [s.side for s in gg.reaction].count(-1) == 1:
                    put('width ' + str(len(out)), c22.width(C, gg) / M)
        for m_ in mes:
            for i in SM.interactions.meson_interactions(primary_mesons=[m_], mesons=mes, leptons=lep, neutrinos=nu3, photon=[pho], muon_tau=[0, 0]):
                for gg in i.integrals:
                    if [s.side for s in gg.reaction].count(-1) == 1 and gg.particle.name != 'Tau':
                        put('width ' + str(len(out)), c22.width(C, gg) * UNITS.s)
        # equilibrium thermodynamics of a few species in every regime
        for k in range(8):
            p = worlds.spec_particle(k, 2, r.choice([0., .01, 1., 20., 3000.]), r.choice([1, -1]))
            p.set_params(worlds.free_params(2 * M, .6, dy=.05))
            put('thermodynamics %d' % k, [p.density / M ** 3, p.energy_density / M ** 4, p.pressure / M ** 4, p.entropy / M ** 3])
    return out


@S.job(timeout=600)
def rescaled(ctx):
    """ the same computations with another unit of energy """
    r = ctx.rng
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    n = 0
    def run(factor, seed):
        code = WORK.format(verif=here, factor=factor, dims=DIMENSION, seed=seed, thorough=ctx.thorough)
        p = subprocess.run([PY, '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        lines = [l for l in p.stdout.splitlines() if l.startswith('RESULT')]
        return json.loads(lines[-1][6:]) if lines else p.stderr[-600:]
    for case in range(3 if ctx.thorough else 1):
        seed = r.randint(0, 10 ** 6)
        base = run(1, seed)
        if not ctx.check(isinstance(base, dict), 'computation fails', err=base):
            continue
        for factor in ([2. ** 10, 2. ** -7, 1e9, 1e3, 37.] if ctx.thorough else [2. ** 10, 1e3]):
            other = run(factor, seed)
            if not ctx.check(isinstance(other, dict), 'computation fails in other units', err=other, factor=factor):
                continue
            ctx.check(set(base) == set(other), 'other results in other units', factor=factor)
            for k in base:
                a, b = base[k], other.get(k, [])
                if not ctx.check(len(a) == len(b), 'number of values depends on the units', what=k, factor=factor, n=(len(a), len(b))):
                    continue
                scale = max([abs(v) for v in a if math.isfinite(v)] + [0])
                for i, (v, w) in enumerate(zip(a, b)):
                    if not (v == w or abs(v - w) <= 3e-4 * abs(v) + 1e-7 * scale):
                        ctx.check(False, 'result depends on the units', what=k, index=i, one=v, other=w, factor=factor)
                        break
                else:
                    ctx.check(True, 'result depends on the units')
                for v, w in zip(a, b):
                    if v and math.isfinite(v) and abs(v) > 1e-6 * scale:
                        ctx.stat('difference ' + k.split()[0], abs(v - w) / abs(v))
                ctx.seen(k, factor)
                n += len(a)
    ctx.require('numbers compared', n, 500)


if __name__ == '__main__':
    main(S)
