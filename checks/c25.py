"""C25: kinematic limits, momentum grids, decoupling temperatures and the rules that drop reactions."""
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C25', 'distinct = (type of reaction, which masses vanish, relativistic or slow parent) and (regime of mass and mixing); non-trivial = a limit compared with sampled decays, '
                 'a grid with the width of the line it has to resolve, or a reaction dropped or kept for a stated reason')


def species(ctx, i, m, T, aT, par, top, n=101, **kw):
    """ m in units of T, top in units of aT """
    from common import UNITS, LinearSpacedGrid
    from lib import worlds
    p = worlds.spec_particle(i, kw.pop('dof', 2), m * T / UNITS.MeV, kw.pop('eta', 1), decoupling_temperature=T * kw.pop('tdec', 1.000001),
                             grid=LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=aT * top), **kw)
    with worlds.quiet():
        ctx.code('create', p.set_params, par)
    return p


def place(ctx, lo=.01, hi=1e3):
    from common import UNITS
    from lib import worlds
    r = ctx.rng
    T = math.exp(r.uniform(math.log(lo), math.log(hi))) * UNITS.MeV
    aT = UNITS.MeV * r.choice([1., 1.3, .8])
    par = worlds.free_params(T, aT / T)
    par.H = 1e-22 * T ** 2
    return T, aT, par


def items(sp, sides):
    from interactions import IntegralItem
    return [IntegralItem(side=s, specie=p, antiparticle=False, index=k, crossed=False) for k, (p, s) in enumerate(zip(sp, sides))]


class Reaction(object):
    def __init__(self, sp, sides, kind=None):
        from interactions.four_particle import CollisionIntegralKind as Kind
        self.reaction = items(sp, sides)
        self.particle = sp[0]
        self.kind = Kind.Full if kind is None else kind


def two_body(r, np, M, m1, m2, pmax, n=4000):
    """ momenta of daughter 1 in decays of parents with momenta up to pmax: random ones and all extremes """
    q = math.sqrt(max((M * M - (m1 + m2) ** 2) * (M * M - (m1 - m2) ** 2), 0)) / (2 * M)
    p = np.concatenate([pmax * np.sqrt(np.linspace(0, 1, n)), np.full(n, pmax)])
    c = np.concatenate([np.array([r.uniform(-1, 1) for _ in range(n)]), np.linspace(-1, 1, n)])
    e1 = math.sqrt(q * q + m1 * m1)
    E = np.sqrt(p * p + M * M)
    par = (p * e1 + E * q * c) / M
    per = q * np.sqrt(1 - c * c)
    return np.sqrt(par ** 2 + per ** 2)


@S.job()
def decay_limits(ctx):
    """ momentum range of the products of a two-body decay against decays sampled over all parents and angles """
    import numpy as np
    from common import kinematics as K
    r = ctx.rng
    n = 0
    for case in range(1500 if ctx.thorough else 300):
        T, aT, par = place(ctx)
        m1, m2 = [r.choice([0., r.uniform(.05, 3)]) for _ in range(2)]
        M = (m1 + m2) * r.choice([1.001, 1.1, 1.5]) + r.choice([.02, .3, 2., 5.])
        top = r.choice([.5, 3., 20., 40.])
        N = r.choice([11, 51, 200, 333])
        sp = [species(ctx, k, m, T, aT, par, t, n=N) for k, (m, t) in enumerate(((m1, r.choice([5., 20., 40.])), (m2, 20.), (M, top)))]
        rea = items(sp, (-1, -1, 1))
        lo, hi = ctx.code('bounds', K.three_particle_bounds_creation, rea)
        got = two_body(r, np, M * aT, m1 * aT, m2 * aT, top * aT)
        eps = 1e-6 * aT + 1e-7 * hi
        cls = '{}{}{}'.format('m' if m1 else '0', 'm' if m2 else '0', 'fast' if top > 5 * M else 'slow')
        d = dict(masses=(m1, m2, M), top=top, lo=lo / aT, hi=hi / aT, seen=(got.min() / aT, got.max() / aT))
        ctx.check(math.isfinite(lo) and math.isfinite(hi), 'limits are not finite', **d)
        ctx.check(lo >= -eps and lo <= got.min() + eps + 1e-3 * got.min(), 'lower limit excludes momenta products have', **d)
        ctx.check(hi >= got.max() - eps, 'upper limit excludes momenta products have', **d)
        ctx.check(abs(hi - got.max()) <= 1e-4 * hi + eps, 'upper limit is not reached by any product', **d)
        if m1 == 0:
            ctx.check(abs(lo - got.min()) <= 1e-3 * got.min() + eps, 'lower limit of a massless product is not reached', **d)
        # part of the grid for which the collision term is evaluated
        g = sp[0].grid.TEMPLATE
        a, b, c = ctx.code('grid', K.three_particle_grid_bounds_creation, rea)
        if len(b):
            ctx.check(len(a) + len(b) + len(c) == len(g), 'parts of the grid do not add up', parts=(len(a), len(b), len(c)), of=len(g), **d)
            ctx.check(not any(a) and not any(c), 'skipped part of the grid is not empty')
            sub = g[len(a):len(a) + len(b)]
            ctx.check(len(sub) == len(b) and bool(np.all(np.asarray(b) == sub)), 'evaluated momenta are not those of the grid', **d)
            out = np.concatenate([g[:len(a)], g[len(a) + len(b):]])
        else:
            out = g
        ctx.check(not ((out > got.min() + 2 * eps) & (out < got.max() - 2 * eps)).any(), 'grid points products can have are skipped', skipped=str(out[(out > got.min() + 2 * eps) & (out < got.max() - 2 * eps)][:4] / aT), **d)
        if len(b) > 2:
            step = g[1] - g[0]
            ctx.check(b[1] > lo - eps and b[-2] < hi + eps, 'evaluated range is much larger than that of the products', first=b[0] / aT, last=b[-1] / aT, step=step / aT, **d)
        # end to end
        got2 = ctx.code('cut-off', K.grid_cutoff_3p, Reaction(sp, (-1, -1, 1)), g / aT)
        if len(b):
            ps, s1, s3 = got2
            ctx.check(len(ps) == len(b) and np.allclose(ps * aT, b, rtol=1e-12), 'momenta handed to the integrator')
            ctx.check(len(s1) + len(ps) + len(s3) == len(g), 'parts of the grid do not add up', parts=(len(s1), len(ps), len(s3)))
        else:
            ctx.check(got2 is False, 'empty range is not reported')
        y = g / aT
        rest = ctx.code('cut-off', K.grid_cutoff_3p, Reaction([sp[2], sp[0], sp[1]], (-1, 1, 1)), y)
        ctx.check(len(rest[0]) == len(y) and not len(rest[1]) and not len(rest[2]), 'momenta of a decaying particle are cut off')
        n += 1
        ctx.seen('two-body', cls)
        if case < 2:
            ctx.sample(d)
    ctx.require('decays', n, 100)


def three_body(r, np, M, m, pmax, n=20000):
    """ momentum of daughter 1 for invariant masses of the other pair from the threshold to the end point """
    s = np.linspace((m[1] + m[2]) ** 2, (M - m[0]) ** 2, 200)
    best = 0.
    for w in s:
        best = max(best, two_body(r, np, M, m[0], math.sqrt(w), pmax, n=40).max())
    return best


@S.job()
def cutoffs(ctx):
    """ momenta at which four-particle collision terms are evaluated """
    import numpy as np
    from common import UNITS, kinematics as K
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    for case in range(400 if ctx.thorough else 120):
        T, aT, par = place(ctx)
        keep = r.choice([3, 10, 20])
        hnl = r.choice([None, None, 'other', 'self'])
        energy = None
        if hnl == 'other':
            energy = r.uniform(5, 60) * MeV
            par.HNL_energy = energy
        tops = [r.choice([10., 25., 60.]) for _ in range(4)]
        names = {'name': 'Sterile neutrino (Dirac)'} if hnl == 'self' else {}
        kind = r.choice(['creation', 'scattering', 'decay'])
        m = [r.choice([0., r.uniform(.1, 2)]) for _ in range(4)]
        sides = dict(creation=(-1, -1, -1, 1), scattering=(-1, -1, 1, 1), decay=(-1, 1, 1, 1))[kind]
        if kind == 'creation':
            m[3] = sum(m[:3]) + r.choice([.05, 1., 5.])
        if kind == 'decay':
            m[0] = sum(m[1:]) + r.choice([.05, 1., 5.])
        N = r.choice([11, 57, 201])
        with worlds.settings(MAX_MOMENTUM_MEV=keep):
            sp = [species(ctx, k, m[k], T, aT, par, tops[k], n=N, **(names if k == 0 else {})) for k in range(4)]
            g = sp[0].grid.TEMPLATE
            R = Reaction(sp, sides)
            ps, s1, s2 = ctx.code('cut-off', K.grid_cutoff_4p, R)
        d = dict(kind=kind, masses=[round(x, 3) for x in m], tops=tops, keep=keep, hnl=hnl)
        ctx.check(len(s1) + len(s2) == len(g) and len(ps) == len(s1), 'parts of the grid do not add up', parts=(len(s1), len(s2)), of=len(g), **d)
        ctx.check(np.allclose(ps * aT, g[:len(ps)], rtol=1e-12) and np.allclose(s1, g[:len(ps)]), 'evaluated momenta are not those of the grid', **d)
        ctx.check(not any(s2), 'skipped part of the grid is not empty')
        if kind == 'creation':
            need = max(three_body(r, np, m[3] * aT, [x * aT for x in m[:3]], tops[3] * aT), keep * MeV)
        elif hnl == 'self' or kind == 'decay' and energy is None:
            need = g[-1]
        else:
            need = keep * MeV
            if energy is not None:
                k2 = energy ** 2 - (m[0] * aT) ** 2
                need = max(need, math.sqrt(k2) if k2 > 0 else 0)
        ctx.check(not (g[len(ps):] < need * (1 - 1e-9)).any(), 'collision term is dropped at momenta that take part', evaluated_up_to=g[len(ps) - 1] / aT, need=need / aT, **d)
        if kind == 'scattering' and hnl is None and g[-1] > need + 2 * (g[1] - g[0]):
            ctx.check(len(ps) < len(g), 'no cut-off applied', **d)
        ctx.seen(kind, hnl, ''.join('m' if x else '0' for x in m), 'cut' if len(s2) else 'full')


@S.job()
def stored_energy(ctx):
    """ a universe with a heavy neutrino: the others are evaluated at least up to its energy at a tenth of its largest momentum """
    import numpy as np
    from common import UNITS, kinematics as K
    r = ctx.rng
    for case in range(40):
        T, aT, par = place(ctx)
        M, top = r.uniform(.1, 50), r.choice([10., 50., 230.])
        N = species(ctx, 0, M, T, aT, par, top, name='Sterile neutrino (Dirac)')
        o = [species(ctx, k, 0., T, aT, par, 20.) for k in (1, 2, 3)]
        ctx.check(not getattr(par, 'HNL_energy', None), 'energy is set before any collision')
        ctx.code('energy', K.store_energy, Reaction([o[0], N, o[1], o[2]], (-1, -1, 1, 1)))
        ctx.check(not getattr(par, 'HNL_energy', None), 'energy is taken from a particle that is not the heavy neutrino')
        ctx.code('energy', K.store_energy, Reaction([N] + o, (-1, -1, 1, 1)))
        ctx.close(par.HNL_energy, math.sqrt((top * aT / 10) ** 2 + (M * aT) ** 2), 'energy of the heavy neutrino', rel=1e-9)
        # it is that of the moment: follows the expansion
        from lib import worlds
        b = r.choice([.3, 2., 5.])
        par.a *= b
        par.T *= r.choice([.3, .9]) / b
        par.aT = par.a * par.T
        par.x = par.m * par.a
        for p in [N] + o:
            with worlds.quiet():
                ctx.code('update', p.update)
        ctx.code('energy', K.store_energy, Reaction([N] + o, (-1, -1, 1, 1)))
        ctx.close(par.HNL_energy, math.sqrt((N.grid.MAX_MOMENTUM / 10) ** 2 + N.conformal_mass ** 2), 'energy of the heavy neutrino after expansion', rel=1e-9)
        ctx.seen('energy', round(math.log10(M)), top)


@S.job()
def decoupling(ctx):
    """ heavy neutrino decouples when its weak interaction rate drops below the expansion rate """
    from common import UNITS as U, CONST as C, kinematics as K
    import environment
    r = ctx.rng
    for case in range(3000 if ctx.thorough else 600):
        m = math.exp(r.uniform(math.log(.5), math.log(3000.))) * U.MeV
        if case % 10 == 0:
            m = r.choice([100., 105.6, 105.7, 110., 149., 151., 200.]) * U.MeV
        th = 10 ** r.uniform(-7, -.5)
        T = ctx.code('temperature', K.decoupling_temperature_relativistic, m, th)
        g = 61.75 if m > 150. * U.MeV else 14.25 if m > 105.658 * U.MeV else 10.75
        ctx.check(T > 0 and math.isfinite(T), 'temperature is not positive', m=m / U.MeV, theta=th)
        ctx.close(C.G_F ** 2 * T ** 5 * th ** 2, 1.66 * math.sqrt(g) * T ** 2 / C.M_p, 'rate equals expansion at decoupling', rel=1e-9, m=m / U.MeV)
        D = ctx.code('temperature', K.decoupling_temperature, m, th)
        rel = bool(environment.get('Relativistic_decoupling'))
        d = dict(m=m / U.MeV, theta=th, T_rel=T / U.MeV, T_dec=D / U.MeV)
        ctx.check(D >= m * (1 - 1e-12), 'decouples below its mass', **d)
        if T > m:
            ctx.close(D, 1.5 * T, 'relativistic decoupling', rel=1e-12, **d)
            ctx.seen('relativistic', g)
        elif 1.5 * T >= m:
            ctx.close(D, 1.5 * m, 'intermediate decoupling', rel=1e-12, **d)
            ctx.seen('intermediate', g)
        else:
            ctx.close(D, m, 'non-relativistic decoupling', rel=1e-12, **d)
            ctx.seen('non-relativistic', g)
        ctx.check(rel == (T > m), 'regime is reported wrong', **d)


MESONS = dict(pi0=134.98, pi=139.57, K=493.677, K0=497.611, eta=547.86, rho=775.11, omega=782.65, etap=957.78, phi=1019.46)
NEUTRAL_OR_RHO = [MESONS[k] for k in ('pi0', 'pi', 'eta', 'rho', 'omega', 'etap', 'phi')]


@S.job()
def grids(ctx):
    """ proposed grids reach the largest momentum and resolve the lines of two-body decays """
    from common import UNITS as U, kinematics as K
    from lib import worlds
    r = ctx.rng
    MeV = U.MeV
    # width of the momentum distribution of non-relativistic particles in units of aT: standard deviation of a Maxwellian
    sigma = math.sqrt(3 - 8 / math.pi)

    def line(M, m, sharp, mx):
        """ half width of the line: spread of lab momenta when the parent moves by one sigma """
        p = math.sqrt((M ** 2 - m ** 2 - sharp ** 2) ** 2 - (2 * m * sharp) ** 2) / 2 / M
        return p, math.sqrt(p * p + m * m)

    for case in range(2500 if ctx.thorough else 500):
        m = math.exp(r.uniform(math.log(1.), math.log(2500.)))
        if case % 7 == 0:
            m = r.choice(list(MESONS.values()) + [105.658]) + r.choice([-.2, .1, .3, .5, 5., 20.])
        th = 10 ** r.uniform(-6, -1)
        res, scale = r.choice([.1, .2, .5, 1.]), r.choice([1, 2, 5])
        top = r.choice([10, 20, 50])
        with worlds.settings(FOUR_PARTICLE_GRID_RESOLUTION=res, MAX_SCALE_FACTOR=scale, MAX_MOMENTUM_MEV=top):
            got = {k: ctx.code('grid', getattr(K, 'grid_params_' + k), m * MeV, th) for k in ('HNL', 'neutrino', 'meson', 'lepton')}
            got['std'] = ctx.code('grid', K.grid_params_lepton, m * MeV, th, std=True)
            dec = K.decoupling_temperature(m * MeV, th)
            dhnl = K.grid_resolution_HNL(m * MeV, th)
        d = dict(m=m, theta=th, res=res, scale=scale)
        ctx.close(dhnl, sigma * MeV, 'resolution of the heavy neutrino', rel=1e-9)
        for k, (n, p) in got.items():
            ctx.check(isinstance(n, int) and n >= 0 and math.isfinite(p) and p > 0, 'grid is not usable', which=k, n=n, top=p, **d)
        n, p = got['HNL']
        E = math.hypot(p, m * MeV * MeV / dec)
        ctx.close(E / MeV, 100 * math.log(10), 'largest momentum of the heavy neutrino', rel=1e-9, **d)
        ctx.check(n <= p / dhnl < n + 1, 'number of samples', which='HNL', **d)
        # neutrinos
        n, p = got['neutrino']
        ctx.close(p / MeV, m * scale, 'largest momentum of neutrinos', rel=1e-9, **d)
        step = p / MeV / (n + .5) if n else None
        if n:
            lim = res
            if 105.658 < m < 115.658 and m < 134.98:
                lim = res / 2
            if m > 134.98:
                heavy = max(x for x in NEUTRAL_OR_RHO if x < m)
                width = 2 * line(m, heavy, 0, 0)[0] * sigma / m
                lim = min(.75 * width, res / 3)
                ctx.seen('neutrino line', heavy, 'line' if .75 * width < res / 3 else 'cap')
            ctx.check(p / MeV / (n + 1) <= lim * (1 + 1e-9) and p / MeV / n >= lim * (1 - 1e-9), 'resolution of neutrinos', step=step, want=lim, **d)
        # mesons
        n, p = got['meson']
        if m < 134.98:
            want = top
        elif m - 134.98 < .35:
            want = 10 * scale
        else:
            want = math.sqrt(m * m - 134.98 ** 2) * scale
        ctx.close(p / MeV, want, 'largest momentum of mesons', rel=1e-9, **d)
        if n:
            lim = res
            if m > 134.98:
                heavy = max(x for x in MESONS.values() if x < m)
                q, e = line(m, heavy, 0, 0)
                lo = (e - sigma * q / m) ** 2 - heavy ** 2
                w = math.sqrt((e + sigma * q / m) ** 2 - heavy ** 2) - math.sqrt(lo) if lo >= 0 else None
                if w is None or not w > 0:
                    w = res / 3
                lim = min(w / 3, res)
                ctx.seen('meson line', heavy)
            ctx.check(p / MeV / (n + 1) <= lim * (1 + 1e-9) and p / MeV / n >= lim * (1 - 1e-9), 'resolution of mesons', step=p / MeV / (n + .5), want=lim, **d)
        # leptons
        for k in ('lepton', 'std'):
            n, p = got[k]
            if m < 105.658 or k == 'std':
                want = m * scale
            elif m - 105.658 < .35:
                want = 10 * scale
            else:
                want = math.sqrt(m * m - 105.658 ** 2) * scale
            ctx.close(p / MeV, want, 'largest momentum of leptons', rel=1e-9, which=k, **d)
            if n:
                lim = res
                if 105.658 < m < 115.658:
                    lim = res / 2
                elif m > 139.57 and k == 'lepton':
                    q, e = line(139.57, 105.658, 0, 0)
                    s = .67 * math.sqrt(139.57 * .5) * q / 139.57
                    lim = min(res, math.sqrt((e + s) ** 2 - 105.658 ** 2) - math.sqrt((e - s) ** 2 - 105.658 ** 2))
                ctx.check(p / MeV / (n + 1) <= lim * (1 + 1e-9) and p / MeV / n >= lim * (1 - 1e-9), 'resolution of leptons', which=k, step=p / MeV / (n + .5), want=lim, **d)
        ctx.seen('grid', int(math.log10(m)))


@S.job()
def dropped(ctx):
    """ reactions are dropped for the stated reasons and for no other """
    import numpy as np
    from common import UNITS, kinematics as K
    from interactions.four_particle import CollisionIntegralKind as Kind
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    for case in range(3000 if ctx.thorough else 900):
        body = r.choice([3, 4, 4])
        kind = r.choice(['creation', 'decay'] + (['scattering'] * 2 if body == 4 else []))
        T, aT, par = place(ctx, .2, 30.)
        par.a_ini = r.choice([1., .1, 3., 10.]) * MeV / (10 * MeV)
        heavy = r.random() < .5         # heavy neutrino among the participants
        sides = {(3, 'creation'): (-1, -1, 1), (3, 'decay'): (-1, 1, 1), (4, 'creation'): (-1, -1, -1, 1), (4, 'decay'): (-1, 1, 1, 1), (4, 'scattering'): (-1, -1, 1, 1)}[body, kind]
        m = [r.choice([0., r.uniform(.1, 1)]) for _ in sides]
        if kind == 'creation':
            m[-1] = sum(m[:-1]) + .5
        if kind == 'decay':
            m[0] = sum(m[1:]) + .5
        if kind == 'decay' and body == 3 and r.random() < .1:
            m[0] = 0.
        where = r.randrange(len(m)) if kind == 'scattering' else (0 if kind == 'decay' else len(m) - 1)
        if heavy:
            m[where] = m[where] or 1.
            if r.random() < .3:
                m[where] *= r.uniform(.5, 20)
        fast = r.random() < .35
        sp = []
        for k, x in enumerate(m):
            kw = {}
            if heavy and k == where:
                kw['name'] = 'Sterile neutrino (Dirac)'
            elif fast and k == (0 if kind == 'decay' else len(m) - 1) and kind != 'scattering':
                kw['fast_decay'] = True
            sp.append(species(ctx, k, x, T, aT, par, 20., n=11, **kw))
        parent = sp[0] if kind == 'decay' else sp[-1]
        fast = hasattr(parent, 'fast_decay')
        made = r.choice([0, 0, 1e-5])
        if fast:
            parent.num_creation = made
        dec = r.random() < .3 and not fast
        parent.decayed = dec
        thr = 1e-10 * (par.a_ini / 10) ** 3
        diluted = []
        for p in sp:
            p.data['params']['density'][0] = n0 = 10. ** r.randint(-8, 8)
            x = r.choice([.01, .5, 3., 1e4, 1e9])
            p.density = thr * x * n0
            diluted.append(x < 1)
        k = r.choice([Kind.Full, Kind.Full, Kind.Full_vacuum_decay, Kind.F_creation, Kind.F_decay])
        if fast and kind == 'decay':
            k = Kind.F_decay
        R = Reaction(sp, sides, k)
        relat = r.random() < .5
        with worlds.settings(Relativistic_decoupling='True' if relat else None):
            if body == 3:
                got = ctx.code('neglect', K.Neglect3pInteraction, R, np.arange(3.))
            else:
                got = ctx.code('neglect', K.Neglect4pInteraction, R, np.arange(3.))
        whole = k in (Kind.Full, Kind.Full_vacuum_decay)
        why = []
        if body == 3:
            if kind == 'decay' and m[0] == 0:
                why.append('massless particle cannot decay')
            if (whole or hasattr(sp[0], 'fast_decay')) and kind == 'creation' and dec:
                why.append('parent is gone')
            if (whole or hasattr(sp[0], 'fast_decay')) and kind != 'scattering' and fast and made == 0:
                why.append('parent was not produced')
        else:
            if kind == 'creation' and dec:
                why.append('parent is gone')
            if kind != 'scattering' and fast and made == 0:
                why.append('parent was not produced')
            if kind == 'scattering':
                if (diluted[0] or diluted[1]) and (diluted[2] or diluted[3]):
                    why.append('diluted on both sides')
                if heavy:
                    if T < 1 * MeV:
                        why.append('heavy neutrino below 1 MeV')
                    if relat and T < par.m / par.a_ini / 15:
                        why.append('heavy neutrino long after decoupling')
            if kind == 'decay' and heavy and T > sp[0].mass:
                why.append('heavy neutrino is still relativistic')
        d = dict(body=body, kind=kind, why=why, heavy=heavy, fast=fast, decayed=dec, created=made, T=T / MeV, mode=str(k), diluted=diluted)
        ctx.check(bool(got) == bool(why), 'reaction is dropped without reason' if got else 'reaction is not dropped', **d)
        zero = ctx.code('zero', K.return_function, R, np.arange(5.))
        # the term, or the term and its relaxation rate
        two = isinstance(zero, tuple)
        ctx.check(two or not (whole or hasattr(sp[0], 'fast_decay')), 'dropped reaction contributes', **d)
        ctx.check(all(np.shape(z) == (5,) and not np.any(z) for z in (zero if two else (zero,))), 'dropped reaction contributes', **d)
        ctx.seen(body, kind, '+'.join(sorted(why)) or 'kept')


@S.job()
def multiplicity(ctx):
    """ reactions in which a species takes part several times change its number several times """
    from common import kinematics as K
    r = ctx.rng
    for case in range(1500 if ctx.thorough else 500):
        T, aT, par = place(ctx)
        body = r.choice([3, 4])
        kinds = {3: [(-1, -1, 1), (-1, 1, 1)], 4: [(-1, -1, -1, 1), (-1, -1, 1, 1), (-1, 1, 1, 1)]}[body]
        sides = r.choice(kinds)
        heavy = r.random() < .5
        pool = [species(ctx, k, r.uniform(0, 2), T, aT, par, 20., n=11, majorana=r.random() < .5, Q=r.choice([0, -1])) for k in range(3)]
        hn = species(ctx, 9, 2., T, aT, par, 20., n=11, name='Sterile neutrino (Dirac)')
        sp = [pool[0]] + [r.choice([pool[0], pool[0], pool[1], pool[2]]) for _ in sides[1:]]
        if heavy:
            sp[r.randrange(1, len(sp))] = hn
        creation = sides[-1] == 1 and sides[:-1] == (-1,) * (body - 1)
        left = sum(p is sp[0] for p, s in zip(sp, sides) if s < 0)
        right = sum(p is sp[0] for p, s in zip(sp, sides) if s > 0)
        got = ctx.code('multiplicity', K.CollisionMultiplier3p if body == 3 else K.CollisionMultiplier4p, Reaction(sp, sides))
        pairs = creation and sp[-1].majorana and sp[0].Q           # particle and antiparticle from a neutral parent: one of each
        if body == 4 and heavy or not heavy and (not creation or pairs):       # reactions of a heavy neutrino and its antiparticle are listed separately
            want = 1.
        elif left == 3 and right == 0:
            want = 3.
        elif left == 2 and right <= (1 if body == 4 else 0):
            want = 2.
        else:
            want = 1.
        ctx.check(got == want, 'multiplicity', got=got, want=want, sides=sides, left=left, right=right, heavy=heavy)
        ctx.seen(sides, left, right, heavy, bool(pairs))


@S.job()
def extinct(ctx):
    """ a massive species diluted below the threshold is declared decayed once and for all, and only then """
    import numpy as np
    from common import kinematics as K
    from lib import worlds
    r = ctx.rng
    for case in range(300 if ctx.thorough else 100):
        T, aT, par = place(ctx)
        par.a_ini = r.choice([.1, 1., 10.])
        m = r.choice([0., 1., 5.])
        kw = dict(fast_decay=True) if r.random() < .2 else {}
        if r.random() < .3:
            kw['name'] = 'Sterile neutrino (Dirac)'
        p = species(ctx, 0, m, T, aT, par, 20., n=21, **kw)
        steps = r.choice([0, 1, 3])
        for _ in range(steps):
            p.data['distribution'].append(p._distribution)
        thr = 1e-10 * (par.a_ini / 10) ** 3
        p.data['params']['density'][0] = n0 = r.choice([0., 1e-3, 7.])
        x = r.choice([1e-3, .9, 1.1, 1e6])
        p.density = n0 * thr * x
        p._distribution = np.full(21, 1e-30)
        with worlds.settings(STERILE_DECAYED=None):
            got = ctx.code('extinct', K.has_decayed, p, p.grid.TEMPLATE)
        want = steps > 0 and m > 0 and n0 > 0 and x < 1 and not kw.get('fast_decay')
        ctx.check(bool(got) == want and bool(p.decayed) == want, 'species declared decayed too early' if got else 'decayed species is kept', m=m, steps=steps, n0=n0, x=x)
        ctx.check(np.all(p._distribution == 0) if want else np.all(p._distribution == 1e-30), 'distribution of a decayed species', want=want)
        if want:
            class Stub(object):
                kind = None

                def integrate(self, *a, **k):
                    raise AssertionError
            p.collision_integrals = [Stub()]
            ctx.check(not np.any(ctx.code('gone', p.calculate_collision_integral, p.grid.TEMPLATE)), 'decayed species still collides')
        ctx.seen(steps, m, n0, x, bool(kw))


if __name__ == '__main__':
    main(S)
