"""C16: collision integrals equal the Boltzmann phase-space integrals they stand for."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C16', 'distinct = (type of reaction, masses, statistics, matrix element, kind of the integral, position of the momentum); non-trivial = a collision '
                 'integral value compared with an independent covariant phase-space integral',
          assumptions=['squared matrix elements are sums of products of scalar products and mass terms (four particles) or constants (three particles)',
                       'the integrator of the code promises 1 % per integration by its own estimate: the typical error has to stay below 1 %, single values (edges of phase space) below 25 %'])


class Setup(object):
    """ species with thermal-like distributions (own temperature and chemical potential) on their grids """

    def __init__(self, ctx, masses, eta, dofs=None, majorana=None, T=None, eq=(), grids=None, shapes=None, log=True, tops=None):
        import numpy as np
        from common import UNITS, LinearSpacedGrid
        from lib import worlds
        r = ctx.rng
        MeV = UNITS.MeV
        self.T = T = (T or math.exp(r.uniform(math.log(.3), math.log(30.)))) * MeV
        aT = MeV * r.choice([1., 1., 1.2, .8])
        self.par = worlds.free_params(T, aT / T, dy=.05)
        self.par.H = math.exp(r.uniform(-3, 3)) * (1e-44 if False else 1.) * self.scale_H(T)
        self.a = self.par.a
        self.sp, self.f = [], []
        self.m = [x * T for x in masses]
        self.eta = eta
        for i, (x, e) in enumerate(zip(masses, eta)):
            g = (grids or {}).get(i) or LinearSpacedGrid(MOMENTUM_SAMPLES=r.choice([61, 73, 81] if i or (tops or {}).get(i, 26.) > 20 else [37, 43, 47]),
                                                           MAX_MOMENTUM=aT * (tops or {}).get(i, 26.))
            p = worlds.spec_particle(i, (dofs or {}).get(i, r.choice([1, 2, 4])), x * T / MeV, e,
                                     decoupling_temperature=T * (.5 if i in eq else 2.), grid=g, majorana=(majorana or {}).get(i, r.random() < .5))
            if i and i not in eq and r.random() < .2:      # never thermal, whatever its decoupling temperature
                p.thermal_dyn, p.decoupling_temperature = False, T * r.choice([.5, 2.])
            with worlds.quiet():
                ctx.code('create', p.set_params, self.par)
            t = 1. if i in eq else r.uniform(.7, 1.25)
            mu = 0. if i in eq else (r.uniform(-2., .3) if e > 0 else r.uniform(-2, -.3) + x)
            t, mu = (shapes or {}).get(i, (t, mu))
            q = self.m[i]
            fun = (lambda pp, q=q, t=t, mu=mu, e=e: 1. / (np.exp(np.minimum((np.sqrt(pp ** 2 + q ** 2) - mu * T) / (t * T), 600)) + e))
            if i not in eq:
                p._distribution = fun(g.TEMPLATE / self.a)
                p.aT = aT * t          # the slope of the exponential tail beyond the grid
                p.T = p.aT / self.a
                end = g.MAX_MOMENTUM / self.a
                fun = (lambda pp, fun=fun, end=end, q=q, t=t: np.where(pp <= end, fun(pp), fun(end) * np.exp(np.maximum(
                    (math.sqrt(end ** 2 + q * q) - np.sqrt(pp ** 2 + q * q)) / (t * T), -600))))
            self.sp.append(p)
            self.f.append(fun)
        self.pmax = [p.grid.MAX_MOMENTUM / self.a for p in self.sp]

    @staticmethod
    def scale_H(T):
        return T ** 2 * 1e-22

    def reaction(self, sides):
        from interactions import IntegralItem
        return [IntegralItem(side=s, specie=p, antiparticle=False, index=i, crossed=False) for i, (p, s) in enumerate(zip(self.sp, sides))]

    def g0(self):
        p = self.sp[0]
        return p.dof if p.majorana else p.dof / 2.


def compare(ctx, got, want, y, sig, rel, floor, **det):
    """ The adaptive integrator of the code estimates its error, so single values may miss the promised accuracy (next to a
    kinematic edge); the typical value must not, neither within one integral nor over all of them """
    errs = []
    for k in want:
        scale = max(abs(want[k]), floor)
        err = abs(got[k] - want[k]) / scale if scale else abs(got[k])
        ok = math.isfinite(got[k]) and err <= rel
        if math.isfinite(err):
            ctx.stat('relerr:' + sig, err)
        if abs(want[k]) > floor:
            errs.append(err)
        ctx.check(ok, sig, got=float(got[k]), want=float(want[k]), y=float(y[k]), index=k, scale=float(scale), **det)
    if errs:
        errs.sort()
        if len(errs) >= 4:
            ctx.stat('median:' + sig, errs[len(errs) // 2])
            ctx.check(errs[len(errs) // 2] <= rel / 4, sig + ' (typical value)', median=errs[len(errs) // 2], n=len(errs), **det)
        ctx.__dict__.setdefault('_errs', {}).setdefault(sig, []).extend(errs)


def overall(ctx, limit):
    for sig, errs in sorted(ctx.__dict__.get('_errs', {}).items()):
        errs.sort()
        m = errs[len(errs) // 2]
        ctx.stat('overall median:' + sig, m)
        if len(errs) >= 12:
            ctx.check(m <= limit, sig + ' (overall)', median=m, n=len(errs))


def momenta_indices(r, n, count):
    out = {0, 1, n // 6}
    while len(out) < count:
        out.add(min(n - 1, int(n * .6 * r.random() ** 1.5)))
    return sorted(out)


MASSES = dict(
    scattering=[(0, 0, 0, 0), (0, 1., 0, 1.), (0, 0, 1., 1.), (2., 0, 0, 0), (2.5, .5, 1., 1.), (1., 1., 0, 0), (.3, 2., 1., .6), (1., 1., 2., 1.5), (0, 2., 1., 0),
                (0, .5, 2., 1.), (3., 1., 0., 2.), (2., 0, 3., 0.), (0, 1., 1., 2.), (0, 3., 1., .5), (1.5, 0., 1., 0.)],
    decay=[(4., 0, 0, 0), (4., 0, 1., 1.), (5., 1., 1., 0), (6., 2., .5, 1.), (3., 0, 0, 1.), (10., 0, 3., 0)],
    creation=[(0, 0, 0, 4.), (0, 1., 1., 4.), (1., 0, 0, 4.), (1., 1., .5, 6.), (0, 0, 1., 3.), (3., 0, 0, 10.), (0., 2., 3., 8.)])
SIDES = dict(scattering=(-1, -1, 1, 1), decay=(-1, 1, 1, 1), creation=(-1, -1, -1, 1))


def grid_tops(r, kind, last=3):
    """ where the grids of the participants end: long for the momentum integrated over, anything for the others """
    tops = {i: r.choice([26., 26., 15., 6., 5.]) for i in range(1, last + 1)}
    tops[0] = r.choice([26., 15.])
    if kind == 'scattering':
        tops[1] = r.choice([26., 18.])
    if last == 2 and kind == 'creation':
        tops[2] = r.choice([26., 15., 9.])
    return tops


def statistics_of(name, heavy):
    """ (part without f0, part proportional to f0) of the statistical factor of a kind of integral """
    from lib import boltz
    if 'vacuum' in name:
        return lambda sides, e, fs, V: ((fs[heavy](boltz.mom(V[heavy])) if heavy else 1.) + 0 * V[0][0], -1. + 0 * V[0][0])
    if name == 'F_creation':
        def parts(sides, e, fs, V):
            gain, loss = boltz.statistical(sides, e, fs, V)
            return gain * (1 - e[0] * fs[0](boltz.mom(V[0]))), loss
        return parts
    if name == 'F_decay':
        def parts(sides, e, fs, V):
            gain, loss = boltz.statistical(sides, e, fs, V)
            return gain, loss + e[0] * gain
        return parts
    return boltz.statistical


GAINS, LOSSES = ('F_1', 'F_1_vacuum_decay', 'F_creation'), ('F_f', 'F_f_vacuum_decay', 'F_decay')


def random_Ms(r, masses):
    import itertools
    from common import CONST
    W = 32 * CONST.G_F ** 2
    orders = list(itertools.permutations(range(4)))
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        K1, K2 = r.choice([(1., 0.), (r.uniform(.2, 3), 0.), (r.uniform(.2, 2), r.uniform(-.4, .4))])
        out.append((K1 * W, K1 * K2 * W, r.choice(orders)))
    return out


def four(ctx, kind_of_reaction, cases, kinds, log=True, rest=False, const=False, shapes=None, label=''):
    import numpy as np
    from common import UNITS
    from interactions.four_particle import FourParticleIntegral, FourParticleM, CollisionIntegralKind as Kind
    from lib import boltz, worlds
    r = ctx.rng
    for case in range(cases):
        shape = shapes or MASSES[kind_of_reaction]
        masses = shape[case % len(shape)]
        masses = [x * r.uniform(.9, 1.1) if x else 0. for x in masses]
        if kind_of_reaction != 'scattering':
            heavy = 0 if kind_of_reaction == 'decay' else 3
            masses[heavy] *= 1.15
        eta = [r.choice([1, 1, -1]) if x else r.choice([1, 1, 1, -1]) for x in masses]
        eq = [i for i in (1, 2, 3) if r.random() < .25 and not (masses[i] == 0 and eta[i] < 0)]
        s = Setup(ctx, masses, eta, eq=eq, tops=grid_tops(r, kind_of_reaction))
        if rest:
            step, rel = (.5, .3) if kind_of_reaction == 'decay' and min(masses[1:]) == 0 else (3., .3)
            if const and kind_of_reaction == 'decay':
                step = .1
        else:
            # away from rest the kernels are smooth enough for a tight tolerance of the integrator
            step, rel = 100., .25
            small = s.sp[0].grid.TEMPLATE[1] * .05
            s.sp[0].grid.TEMPLATE[0] = min(small, small / s.par.aT * s.par.aT)       # survives the change of units
            if 0 not in eq:
                s.sp[0]._distribution = s.f[0](s.sp[0].grid.TEMPLATE / s.a)
        Ms = random_Ms(r, masses)
        M2 = boltz.matrix(Ms, s.m)
        kind = getattr(Kind, r.choice(kinds))
        elements = [FourParticleM(K1=a, K2=b, order=o) for a, b, o in Ms]
        if const:
            K = 10 ** r.uniform(-12, 3)
            Ms = [(K, 0., (0, 1, 2, 3))]
            M2 = lambda V, K=K: K
            elements = [FourParticleM(K=K)]
        inter = FourParticleIntegral(particle=s.sp[0], reaction=s.reaction(SIDES[kind_of_reaction]), kind=kind, Ms=elements)
        ctx.code('initialize', inter.initialize)
        y = s.sp[0].grid.TEMPLATE
        name = str(kind).split('.')[-1]
        two = name in ('Full', 'Full_vacuum_decay')
        idx = [0, len(y) // 15] if rest else momenta_indices(r, len(y), 7 if ctx.thorough else 5)
        A, B = {}, {}
        parts = statistics_of(name, 3 if kind_of_reaction == 'creation' else None)
        n = 1 << (15 if ctx.thorough else 14)
        f0 = {}
        for k in idx:
            p0 = y[k] / s.a
            if p0 == 0 and s.m[0] == 0:
                if const:
                    continue             # divergent
                p0 = 1e-4 * s.T          # the limit
            # average of two independent randomisations, to know the error of the reference
            res = []
            for seed in (ctx.np_seed + case, ctx.np_seed + 7919 + case):
                if kind_of_reaction == 'scattering':
                    p1max = s.pmax[1]
                    v = boltz.scattering(p0, s.m, s.eta, s.f, M2, p1max, n=n, seed=seed, parts=parts)
                elif kind_of_reaction == 'decay':
                    v = boltz.decay(p0, s.m, s.eta, s.f, M2, n=n, seed=seed, parts=parts)
                else:
                    v = boltz.creation(p0, s.m, s.eta, s.f, M2, s.pmax[3], n=n * 2, seed=seed, parts=parts)
                res.append(v)
            res = np.array(res) / s.g0() / s.par.H
            if not log:
                res = res / s.par.x
            A[k], B[k] = res.mean(axis=0)
            spread = np.abs(res[0] - res[1])
            if spread[0] > .01 * abs(A[k]) or spread[1] > .01 * abs(B[k]):
                ctx.stats.setdefault('reference too noisy', [0, 0, 0])[2] += 1
                del A[k], B[k]
                continue
            f0[k] = s.f[0](p0)
        if kind_of_reaction == 'scattering' and len(A) == 0:
            continue
        # the absolute accuracy of the integrator follows the size of the step: choose it far below the values compared
        scale = max([abs(v) for v in A.values()] + [abs(v) for v in B.values()] + [1e-300])
        if const:
            # the same term was already evaluated in the step before
            here = s.par.T, s.par.a
            worlds.move(s.par, here[0] * 2, here[1] / 2)     # exact in floating point
            ctx.code('integrate', inter.integrate, y.copy(), stepsize=1e-3 * step / scale * (1. if log else s.par.aT))
            worlds.move(s.par, *here)
            ctx.code('initialize', inter.initialize)
        out = ctx.code('integrate', inter.integrate, y.copy(), stepsize=step / scale * (1. if log else s.par.aT))
        got = out if isinstance(out, tuple) else (out,)
        ctx.check(len(got) == 1 + (two or name in LOSSES) and all(np.shape(g) == np.shape(y) for g in got), 'shape', kind=name)
        # values far below the largest one (exponential tails) are compared on an absolute scale
        flA = 1e-3 * max([abs(v) for v in A.values()] or [0])
        flB = 1e-3 * max([abs(v) for v in B.values()] or [0])
        if rest:            # a massless particle at rest does not scatter at all: compare on the scale of its neighbours
            flA, flB = 20 * flA, 20 * flB
            for d in (A, B):
                d.pop(len(y) // 15, None)
        det = dict(masses=masses, eta=s.eta, eq=eq, Ms=[(round(a / Ms[0][0], 3), round(b / Ms[0][0], 3), o) for a, b, o in Ms], kind=name, T=s.T / UNITS.MeV)
        sig = kind_of_reaction + (' with constant matrix element' if const else '') + (' at rest' if rest else '') + label
        if two:
            C = {k: A[k] + f0[k] * B[k] for k in A}
            gain = {k: got[0][k] - f0[k] * got[1][k] for k in A}
            compare(ctx, gain, A, y, sig + ' gain', rel, flA, **det)
            compare(ctx, got[1], B, y, sig + ' loss', rel, flB, **det)
            for k in C:
                scale = abs(A[k]) + abs(f0[k] * B[k])
                ctx.check(abs(got[0][k] - C[k]) <= rel * max(scale, flA), sig + ' total', got=float(got[0][k]), want=float(C[k]), index=k, **det)
        elif name in GAINS:
            compare(ctx, got[0], A, y, sig + ' gain', rel, flA, **det)
        elif name in LOSSES:
            compare(ctx, got[0], {k: B[k] * f0[k] for k in B}, y, sig + ' loss', rel, 1e-3 * max([abs(B[k] * f0[k]) for k in B] or [0]), **det)
            compare(ctx, got[1], B, y, sig + ' loss', rel, flB, **det)
        ctx.seen(kind_of_reaction, tuple(bool(x) for x in masses), tuple(eta), name, len(Ms), any(b for _, b, _ in Ms), len(A))
        ctx.sample(dict(det, gain=[(k, float(A[k])) for k in A][:2]))
    overall(ctx, .03 if rest else .006)
    ctx.require('integrals compared', len(ctx.states), max(3, cases // 3))


KINDS = ['Full', 'Full', 'Full', 'F_1', 'F_f', 'F_creation', 'F_decay']


@S.job()
def scattering(ctx):
    four(ctx, 'scattering', 90 if ctx.thorough else 30, KINDS)


@S.job()
def decay(ctx):
    four(ctx, 'decay', 60 if ctx.thorough else 18, KINDS + ['F_f_vacuum_decay'])


@S.job()
def creation(ctx):
    four(ctx, 'creation', 70 if ctx.thorough else 21, KINDS + ['F_1_vacuum_decay'])


@S.job()
def at_rest(ctx):
    """ vanishing momentum has its own kernel and integration bounds """
    for k, n in (('scattering', 30), ('decay', 12), ('creation', 14)):
        four(ctx, k, 3 * n if ctx.thorough else n, ['Full', 'F_1'], rest=True)


@S.job()
def massless_at_rest(ctx):
    """ a massless particle at rest takes part in nothing but the decay of its partner """
    four(ctx, 'scattering', 40 if ctx.thorough else 16, ['Full', 'F_1'], rest=True, label=' without mass',
         shapes=[(0, 3., 1.5, .3), (0, 3., .3, 1.5), (0, 2., 0., 1.2), (0, 2., 1.2, 0.), (0, 4., .5, 3.), (0, 4., 3., .5)])


@S.job()
def constant(ctx):
    """ constant squared matrix elements """
    for k, n in (('scattering', 8), ('decay', 8), ('creation', 8)):
        four(ctx, k, 3 * n if ctx.thorough else n, ['Full', 'F_1', 'F_f'], const=True)
    for k, n in (('scattering', 8), ('decay', 6), ('creation', 6)):
        four(ctx, k, 3 * n if ctx.thorough else n, ['Full', 'F_1'], rest=True, const=True)


@S.job()
def fine_grids(ctx):
    """ on grids finer than the configured resolution the values in between are interpolated """
    import numpy as np
    from common import LinearSpacedGrid, LogSpacedGrid, UNITS
    from interactions.four_particle import FourParticleIntegral, FourParticleM, CollisionIntegralKind as Kind
    from lib import worlds
    r = ctx.rng
    n = 0
    for case in range(36 if ctx.thorough else 12):
        what = ['scattering', 'decay', 'creation'][case % 3]
        masses = [x * r.uniform(.9, 1.1) if x else 0. for x in r.choice(MASSES[what])]
        if what != 'scattering':
            masses[0 if what == 'decay' else 3] *= 1.15
        eta = [1 if not x else r.choice([1, -1]) for x in masses]
        aT = UNITS.MeV
        top = r.choice([14., 17.3, 20.])
        g = LinearSpacedGrid(MOMENTUM_SAMPLES=int(top / r.choice([.03, .06, .11])), MAX_MOMENTUM=aT * top)
        s = Setup(ctx, masses, eta, grids={0: g}, tops=grid_tops(r, what))
        small = g.TEMPLATE[1] * .05
        g.TEMPLATE[0] = min(small, small / s.par.aT * s.par.aT)       # the kernel at rest has its own check
        if not s.sp[0].in_equilibrium:
            s.sp[0]._distribution = s.f[0](g.TEMPLATE / s.a)
        Ms = random_Ms(r, masses)
        name = r.choice(KINDS)
        keep = r.choice([6, 10, 20])
        sp = s.sp[0]
        values = []
        with worlds.settings(MAX_MOMENTUM_MEV=keep):
            step = None
            for res in (1e-6, None):
                with worlds.settings(FOUR_PARTICLE_GRID_RESOLUTION=res):
                    inter = FourParticleIntegral(particle=sp, reaction=s.reaction(SIDES[what]), kind=getattr(Kind, name), Ms=[FourParticleM(K1=a, K2=b, order=o) for a, b, o in Ms])
                    ctx.code('initialize', inter.initialize)
                    if step is None:
                        rough = ctx.code('integrate', inter.integrate, sp.grid.TEMPLATE.copy(), stepsize=1e-40)
                        step = 20. / max(np.max(np.abs(rough)), 1e-300)
                    out = ctx.code('integrate', inter.integrate, sp.grid.TEMPLATE.copy(), stepsize=step)
                    values.append(out if isinstance(out, tuple) else (out,))
        det = dict(masses=masses, eta=eta, kind=name, what=what, samples=g.MOMENTUM_SAMPLES, top=top, keep=keep)
        for every, some in zip(*values):
            ctx.check(np.shape(every) == np.shape(some) == np.shape(g.TEMPLATE), 'shape on a fine grid', **det)
            scale = np.max(np.abs(every))
            err = np.abs(every - some)[2:]
            ctx.stat('interpolation', float(err.max() / scale) if scale else 0.)
            ctx.check(bool(np.all(err <= .25 * scale)) and np.median(err) <= .02 * scale, 'interpolated values on a fine grid', worst=float(err.max() / scale) if scale else 0.,
                      at=int(err.argmax()), **det)
            n += 1
        ctx.seen('fine', what, name, tuple(bool(x) for x in masses))
    ctx.require('fine grids', n, 10)


@S.job()
def pieces(ctx):
    """ the update of a species is the same whether its processes are given whole or as separate gain and loss terms; the default step is that of the run """
    import numpy as np
    from common import UNITS
    from interactions.four_particle import FourParticleIntegral, FourParticleM, CollisionIntegralKind as Kind
    from lib import worlds
    r = ctx.rng
    n = 0
    for case in range(48 if ctx.thorough else 16):
        what = ['scattering', 'scattering', 'decay', 'creation'][case % 4]
        masses = [x * r.uniform(.9, 1.1) if x else 0. for x in r.choice(MASSES[what])]
        if what != 'scattering':
            masses[0 if what == 'decay' else 3] *= 1.15
        eta = [1 if not x else r.choice([1, -1]) for x in masses]
        cold = case % 4 == 1        # heavy neutrinos no longer scatter
        s = Setup(ctx, masses, eta, tops=grid_tops(r, what), T=.6 if cold else None)
        sp, y = s.sp[0], s.sp[0].grid.TEMPLATE
        # (at vanishing momentum the separate kinds follow the same kernel as the whole)
        y[0] = min(y[1] * .05, y[1] * .05 / s.par.aT * s.par.aT)
        sp._distribution = s.f[0](y / s.a)
        Ms = random_Ms(r, masses)

        def terms(*kinds):
            out = []
            for k in kinds:
                g = FourParticleIntegral(particle=sp, reaction=s.reaction(SIDES[what]), kind=getattr(Kind, k), Ms=[FourParticleM(K1=a, K2=b, order=o) for a, b, o in Ms])
                ctx.code('initialize', g.initialize)
                out.append(g)
            return out
        rough = ctx.code('integrate', terms('Full')[0].integrate, y.copy(), stepsize=1e-40)
        size = float(np.max(np.abs(rough[1])))
        if not size:
            continue
        s.par.H *= size * s.par.h / r.choice([5., 40.])         # collisions per step
        det = dict(masses=masses, eta=eta, what=what, Ms=[(round(a / Ms[0][0], 3), round(b / Ms[0][0], 3), o) for a, b, o in Ms])
        whole = ctx.code('integrate', terms('Full')[0].integrate, y.copy(), stepsize=s.par.h)
        default = ctx.code('integrate', terms('Full')[0].integrate, y.copy())
        ctx.check(all(np.array_equal(a, b) for a, b in zip(whole, default)), 'default step', **det)
        ways = [('Full',), ('F_1', 'F_f'), ('F_f', 'F_1')]
        res = []
        for kinds in ways:
            sp.collision_integrals = terms(*kinds)
            res.append(ctx.code('collision terms', sp.calculate_collision_integral, y.copy()) * s.par.h)
        for kinds, x in zip(ways[1:], res[1:]):
            gap = float(np.max(np.abs(x - res[0])))
            ctx.stat('separate terms', gap)
            ctx.check(gap <= .02 * max(1., float(np.max(np.abs(res[0])))), 'separate gain and loss terms', terms=kinds, gap=gap, at=int(np.argmax(np.abs(x - res[0]))), size=float(np.max(np.abs(res[0]))), **det)
            n += 1
        if cold and masses[0]:
            sp.name = 'Sterile neutrino (Dirac)'
            for kinds in ways:
                sp.collision_integrals = terms(*kinds)
                x = ctx.code('collision terms', sp.calculate_collision_integral, y.copy())
                ctx.check(np.shape(x) == np.shape(y) and not np.any(x), 'neglected terms', terms=kinds, **det)
            ctx.seen('neglected')
        ctx.seen('pieces', what, tuple(bool(x) for x in masses))
        ctx.stat('increment', float(np.max(np.abs(res[0]))))
    ctx.require('separate terms', n, 15)


@S.job(env=dict(LOGARITHMIC_TIMESTEP='False'))
def linear_steps(ctx):
    """ the same with the linear step: the derivative is with respect to x """
    for k in ('scattering', 'decay', 'creation'):
        four(ctx, k, 12 if ctx.thorough else 4, ['Full'], log=False)


def three(ctx, kind_of_reaction, cases, log=True):
    import numpy as np
    from common import UNITS, LinearSpacedGrid
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    from interactions.four_particle import CollisionIntegralKind as Kind
    from lib import boltz
    r = ctx.rng
    shapes = dict(decay=[(4., 0, 0), (4., 1., 0), (4., 0., 1.), (5., 2., 2.), (3., 1., 1.5), (12., 0, 9.)],
                  creation=[(0, 0, 4.), (0, 1., 4.), (1., 0, 4.), (1., 1., 3.), (2., .5, 5.), (0, 5., 8.), (6., 0., 9.)])[kind_of_reaction]
    for case in range(cases):
        masses = [x * r.uniform(.9, 1.1) if x else 0. for x in shapes[case % len(shapes)]]
        eta = [r.choice([1, -1]) if x else r.choice([1, 1, 1, -1]) for x in masses]
        eq = [i for i in (1, 2) if r.random() < .25 and not (masses[i] == 0 and eta[i] < 0)]
        s = Setup(ctx, masses, eta, eq=eq, tops=grid_tops(r, kind_of_reaction, 2))
        K = s.T ** 2 * math.exp(r.uniform(-2, 2)) * 1e-20
        name = r.choice(KINDS + ['F_f_vacuum_decay' if kind_of_reaction == 'decay' else 'F_1_vacuum_decay'])
        kind = getattr(Kind, name)
        sides = (-1, 1, 1) if kind_of_reaction == 'decay' else (-1, -1, 1)
        inter = ThreeParticleIntegral(particle=s.sp[0], reaction=s.reaction(sides), kind=kind, Ms=[ThreeParticleM(K=K * .25), ThreeParticleM(K=K * .75)])
        ctx.code('initialize', inter.initialize)
        y = s.sp[0].grid.TEMPLATE
        two = name in ('Full', 'Full_vacuum_decay')
        parts = statistics_of(name, 2 if kind_of_reaction == 'creation' else None)
        A, B, f0 = {}, {}, {}
        for k in range(len(y)):
            p0 = y[k] / s.a
            if kind_of_reaction == 'decay':
                v = boltz.three_decay(p0, s.m, s.eta, s.f, K, parts=parts)
            else:
                v = boltz.three_creation(p0, s.m, s.eta, s.f, K, s.pmax[2], parts=parts)
            norm = s.g0() * s.par.H * (1. if log else s.par.x)
            A[k], B[k] = float(v[0]) / norm, float(v[1]) / norm
            f0[k] = s.f[0](p0)
        flA, flB = [1e-3 * max(abs(v) for v in d.values()) for d in (A, B)]
        scale = max([abs(v) for v in A.values()] + [abs(v) for v in B.values()] + [1e-300])
        out = ctx.code('integrate', inter.integrate, y.copy(), stepsize=100. / scale * (1. if log else s.par.aT))
        got = out if isinstance(out, tuple) else (out,)
        ctx.check(len(got) == 1 + (two or name in LOSSES) and all(np.shape(g) == np.shape(y) for g in got), 'shape', kind=name)
        det = dict(masses=masses, eta=s.eta, eq=eq, kind=name, T=s.T / UNITS.MeV)
        sig, rel = 'three ' + kind_of_reaction, .03
        if two:
            for k in A:
                scale = abs(A[k]) + abs(f0[k] * B[k])
                ctx.check(abs(got[0][k] - A[k] - f0[k] * B[k]) <= rel * max(scale, 2 * flA), sig + ' total', got=float(got[0][k]), want=float(A[k] + f0[k] * B[k]), index=k, **det)
            compare(ctx, got[1], B, y, sig + ' loss', rel, flB, **det)
        elif name in GAINS:
            compare(ctx, got[0], A, y, sig + ' gain', rel, flA, **det)
        else:
            compare(ctx, got[0], {k: B[k] * f0[k] for k in B}, y, sig + ' loss', rel, 1e-3 * max(abs(B[k] * f0[k]) for k in B), **det)
            compare(ctx, got[1], B, y, sig + ' loss', rel, flB, **det)
        ctx.seen(kind_of_reaction, tuple(bool(x) for x in masses), tuple(eta), name)
    overall(ctx, .002)
    ctx.require('integrals compared', len(ctx.states), max(3, cases // 4))


@S.job()
def three_decay(ctx):
    three(ctx, 'decay', 300 if ctx.thorough else 60)


@S.job()
def three_creation(ctx):
    three(ctx, 'creation', 300 if ctx.thorough else 60)


@S.job(env=dict(LOGARITHMIC_TIMESTEP='False'))
def three_linear(ctx):
    for k in ('decay', 'creation'):
        three(ctx, k, 60 if ctx.thorough else 14, log=False)


if __name__ == '__main__':
    main(S)
