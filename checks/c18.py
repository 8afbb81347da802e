"""C18: flavour oscillations redistribute, but neither create nor destroy, and follow mixing angles and matter effects."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C18', 'distinct = (matter effects, hierarchy, size of the matter potential, which flavours are decoupled, step formulation, history length); non-trivial = a step in which different '
                 'collision terms of the flavours were mixed',
          assumptions=['the averaged three-flavour mixing with vanishing atmospheric angle documented in the library; matter mixing is compared in full below the resonance and through the '
                       'electron-muon channel above it'])
FL = ('electron', 'muon', 'tau')
TH12, TH13 = .57636, .14715


def reference(t12, t13):
    """ averaged probabilities: sum_i |U_ai|^2 |U_bi|^2 """
    import numpy as np
    c12, s12, c13, s13 = np.cos(t12), np.sin(t12), np.cos(t13), np.sin(t13)
    z = 0 * c12 * c13
    U2 = [[(c12 * c13) ** 2, (s12 * c13) ** 2, s13 ** 2 + z], [s12 ** 2 + z, c12 ** 2 + z, z], [(c12 * s13) ** 2, (s12 * s13) ** 2, c13 ** 2 + z]]
    return {(a, b): sum(U2[i][k] * U2[j][k] for k in range(3)) for i, a in enumerate(FL) for j, b in enumerate(FL)}


def matter(t, x):
    import numpy as np
    return .5 * np.arctan2(np.sin(2 * t) + 0 * x, np.cos(2 * t) + x)


def doubly(ctx, P, what, **det):
    import numpy as np
    ok = set(P) == {(a, b) for a in FL for b in FL}
    ctx.check(ok, 'flavour pairs missing', got=sorted(P))
    for a in FL:
        row, col = sum(P[(a, b)] for b in FL), sum(P[(b, a)] for b in FL)
        ctx.check(np.all(np.abs(row - 1) < 1e-12) and np.all(np.abs(col - 1) < 1e-12), 'probabilities do not add up:' + what, flavour=a, row=np.max(np.abs(row - 1)), col=np.max(np.abs(col - 1)), **det)
        for b in FL:
            v = np.asarray(P[(a, b)])
            ctx.check(np.all(v >= -1e-15) and np.all(v <= 1 + 1e-15), 'probability outside [0, 1]:' + what, pair=(a, b), **det)
            ctx.check(np.array_equal(v, P[(b, a)]), 'asymmetric:' + what, pair=(a, b), **det)


@S.job()
def pattern(ctx):
    import numpy as np
    from library import SM
    r = ctx.rng
    np.random.seed(ctx.np_seed)
    f = SM.particles.leptons.oscillations_map
    V = reference(TH12, TH13)
    for P, n in ((ctx.code('map', f), 'no argument'), (ctx.code('map', f, matter_effects=False), 'vacuum'), (ctx.code('map', f, 0., 0., False), 'vacuum'), (ctx.code('map', f, 3., -2., False), 'vacuum, ignored potentials')):
        doubly(ctx, P, n)
        for k in V:
            ctx.close(P[k], V[k], 'vacuum mixing', rel=1e-12, pair=k)
        ctx.seen('vacuum', n)
    for case in range(600 if ctx.thorough else 120):
        n = r.choice([1, 2, 17, 60])
        mag = r.uniform(-6, 8)
        x12 = 10 ** mag * np.random.rand(n) * r.choice([1, 1, 1, -1])
        x13 = x12 * r.choice([1, -1]) * r.uniform(.01, .2)
        if n == 1 and r.random() < .5:
            x12, x13 = float(x12[0]), float(x13[0])
        P = ctx.code('map', f, x12, x13, True)
        doubly(ctx, P, 'matter', mag=mag)
        R = reference(matter(TH12, x12), matter(TH13, x13))
        below = (np.asarray(x12) > -math.cos(2 * TH12)) & (np.asarray(x13) > -math.cos(2 * TH13))
        for k in R:
            d = np.abs(np.asarray(P[k]) - R[k])
            ctx.check(np.all(d[below] < 1e-12) if np.ndim(d) else (not below or d < 1e-12), 'matter mixing', pair=k, worst=np.max(d), mag=mag)
        # the electron-muon angle enters the muon survival only through sin^2, which has no branch
        s2 = math.sin(2 * TH12) ** 2 / (math.sin(2 * TH12) ** 2 + (math.cos(2 * TH12) + np.asarray(x12)) ** 2)
        ctx.check(np.all(np.abs(np.asarray(P[('muon', 'muon')]) - (1 - s2 / 2)) < 1e-12), 'matter mixing:muon survival', mag=mag)
        ctx.seen('matter', int(mag), n, bool(np.all(below)))
    big = ctx.code('map', f, 1e12, 1e12, True)
    for k in big:
        ctx.check(abs(big[k] - (k[0] == k[1])) < 1e-10, 'mixing is not suppressed at high density', pair=k, got=big[k])


class Stub(object):
    """ an interaction that feeds given collision terms to decoupled species """

    def __init__(self, terms):
        self.terms, self.integrals = terms, []

    def initialize(self):
        from interactions.four_particle import CollisionIntegralKind as Kind
        for p, fn in self.terms:
            if not p.in_equilibrium:
                p.collision_integrals.append(type('I', (), dict(kind=Kind.Full, integrate=lambda self, ps, stepsize=None, fn=fn, bounds=None: (fn(), 0. * fn()), __str__=lambda s: 'stub'))())

    def __str__(self):
        return 'stub'


def universe(ctx, T, dec, log, dy, amp, osc, grid_n, gen):
    import numpy as np
    from common import UNITS, LinearSpacedGrid, statistics as ST
    from evolution import Universe
    from particles import Particle
    from lib import worlds
    u = Universe(params=worlds.make_params(T, dy if log else dy * 1., log))
    nus = []
    for k, fl in enumerate(FL):
        nus.append(Particle(name='nu ' + fl, symbol='v' + fl[0], statistics=ST.FERMION, dof=2, mass=0, Q=0, majorana=False, flavour=fl, decoupling_temperature=dec[k] * UNITS.MeV,
                            grid=LinearSpacedGrid(MOMENTUM_SAMPLES=grid_n, MAX_MOMENTUM=20 * UNITS.MeV)))
    ph = Particle(name='photon', symbol='g', statistics=ST.BOSON, dof=2, Q=0, majorana=True, flavour=None)
    by = Particle(name='bystander', symbol='b', statistics=ST.FERMION, dof=2, mass=0, Q=0, majorana=False, flavour=None, decoupling_temperature=T * 1.5 * UNITS.MeV,
                  grid=LinearSpacedGrid(MOMENTUM_SAMPLES=grid_n, MAX_MOMENTUM=20 * UNITS.MeV))
    u.add_particles([ph, by] + nus)
    state = dict(step=0)
    terms = [(p, lambda k=k: amp[k][state['step'] % len(amp[k])]) for k, p in enumerate(nus + [by])]
    u.interactions = [Stub(terms)]
    if osc is not None:
        u.init_oscillations(gen, nus, matter_effects=osc)
    return u, nus, by, state


def steps(ctx, log, cases):
    import numpy as np
    from common import UNITS, CONST
    from common.integrators import adams_moulton_solver, MAX_ADAMS_MOULTON_ORDER
    from library import SM
    from lib import worlds
    r = ctx.rng
    np.random.seed(ctx.np_seed)
    mixed = 0
    for case in range(cases):
        T = 10 ** r.uniform(-1, 2)
        matter_on = r.random() < .6
        late = r.random() < .3
        dec = [T * 1.5] * 3
        if late:
            dec[r.randrange(3)] = T * .3
        n = r.choice([9, 16, 25])
        shape = lambda: np.random.rand(n) * 1e-3 * np.exp(-np.linspace(0, 8, n))
        if r.random() < .2:
            s = [shape()]
            amp = [s, s, s, [shape()]]
        else:
            amp = [[shape() * r.choice([1, 1, 1, 0, 5]) for _ in range(3)] for _ in range(4)]
        dy = .03 if log else .02 / T
        if not log:
            amp = [[x * (.03 / (dy * UNITS.MeV)) for x in a] for a in amp]
        with worlds.quiet():
            u, nus, by, st = ctx.code('universe', universe, ctx, T, dec, log, dy, amp, matter_on, n, SM.particles.leptons.oscillations_map)
            v, nvs, bv, sv = ctx.code('universe', universe, ctx, T, dec, log, dy, amp, None, n, None)
            w, nws, bw, sw = ctx.code('universe', universe, ctx, T, dec, log, dy, amp, False, n, lambda a, b, m: {(x, y): float(x == y) for x in FL for y in FL})
            for z in (u, v, w):
                z.params.init_time(z.total_energy_density())
                z.params.update(z.total_energy_density(), z.total_entropy())
                z.save_params()
            hist = [[], [], []]
            for k in range(r.choice([1, 2, 4, 7])):
                before = [p._distribution.copy() for p in nus]
                Tn, an = u.params.T, u.params.a
                st['step'] = sv['step'] = sw['step'] = k
                for z in (u, v, w):
                    ctx.code('step', z.make_step)
                    z.save()
                    z.step += 1
                # nothing is created: the sum over the flavours is that of the universe without oscillations
                if not late:
                    a, b = sum(p._distribution for p in nus), sum(p._distribution for p in nvs)
                    ctx.check(np.all(np.abs(a - b) <= 1e-13 * np.max(b)), 'oscillations change the total number of neutrinos', step=k, T=T, worst=np.max(np.abs(a - b)), matter=matter_on)
                    ctx.close(u.params.aT, v.params.aT, 'oscillations change the temperature', rel=1e-11)
                for x, y, z in zip(nus, nvs, nws):
                    ctx.check(np.all(np.abs(z._distribution - y._distribution) <= 1e-15), 'identity mixing changes something', T=T)
                for q in (bw, by):
                    ctx.check(np.all(np.abs(q._distribution - bv._distribution) <= 1e-15), 'a species that does not oscillate is mixed', T=T)
                # explicit pattern: state at the moment of the step; the collision terms are those of the multi-step solver
                y = nus[0].grid.TEMPLATE
                V = CONST.MSW_constant * y ** 2 * Tn ** 4 / an ** 2
                sgn = -1. if os.environ.get('NORMAL_HIERARCHY_NEUTRINOS') == 'False' else 1.
                # independent value of the potential: 16 sqrt(2) zeta(3) G_F p^2 T^4 / (pi M_W^2 delta m^2)
                W = 16 * math.sqrt(2) * 1.2020569 * 1.166e-5 / math.pi / 80.379 ** 2 * (y / UNITS.GeV / an) ** 2 * (Tn / UNITS.GeV) ** 4
                x12, x13 = W / 7.37e-23, sgn * W / 2.56e-21
                if matter_on:
                    R = reference(matter(TH12, x12), matter(TH13, x13))
                    cut = x13 > -math.cos(2 * TH13)
                else:
                    R, cut = reference(TH12, TH13), np.ones(n, bool)
                h = .03 if log else dy * UNITS.MeV
                term = [adams_moulton_solver(y=0., fs=hist[j][-MAX_ADAMS_MOULTON_ORDER:], A=amp[j][k % len(amp[j])], B=0., h=h) / h if dec[j] > T else 0. for j in range(3)]
                for i, p in enumerate(nus):
                    if dec[i] < T:
                        continue
                    want = before[i] + h * sum(R[(FL[i], FL[j])] * term[j] for j in range(3))
                    d = np.abs(p._distribution - want)[cut]
                    ctx.check(np.all(d <= 2e-4 * h * max(np.max(np.abs(x)) for a in amp for x in a) + 1e-14), 'distribution does not follow the mixed collision terms', flavour=FL[i], T=T, step=k, worst=np.max(d) if len(d) else 0, matter=matter_on)
                    hist[i].append((p._distribution - before[i]) / h)
                    ctx.stat('change of the matter potential', (x12[-1] / first_x12) if k else 1.)
                if k == 0:
                    first_x12 = x12[-1]
                    mixed += bool(np.any(amp[0][0] != amp[1][0]))
                ctx.seen(log, matter_on, late, int(math.log10(T) * 2), k)
    ctx.require('mixed steps', mixed, cases // 2)


@S.job()
def mixing(ctx):
    steps(ctx, True, 160 if ctx.thorough else 40)


@S.job(env=dict(NORMAL_HIERARCHY_NEUTRINOS='False'))
def inverted(ctx):
    steps(ctx, True, 160 if ctx.thorough else 30)


@S.job(env=dict(LOGARITHMIC_TIMESTEP='False'))
def linear(ctx):
    steps(ctx, False, 80 if ctx.thorough else 20)


if __name__ == '__main__':
    main(S)
