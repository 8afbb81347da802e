"""C03: equilibrium species carry the thermodynamics of an ideal quantum gas in every regime."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C03', 'distinct = (regime, statistics, mass-to-temperature decade, quadrature scheme, switching factor); '
                 'non-trivial = a state whose four densities were compared with independently computed integrals',
          assumptions=['zero chemical potential', 'momenta above 20 T may be neglected in the intermediate regime',
                       'the relativistic number density uses zeta(3) = 1.2'])


def truncated(g, m, T, eta, cut):
    """ the same integrals without momenta above cut * T """
    import numpy as np
    from lib import phys
    mT = m / T
    E = lambda u: np.sqrt(u * u + mT * mT)
    ed = np.linspace(0, cut, 21)
    c = g / (2 * np.pi ** 2)
    n = c * T ** 3 * phys.panels(lambda u: u ** 2 * phys.occupation(u, mT, eta), ed)
    r = c * T ** 4 * phys.panels(lambda u: u ** 2 * E(u) * phys.occupation(u, mT, eta), ed)
    P = c * T ** 4 / 3 * phys.panels(lambda u: u ** 4 / E(u) * phys.occupation(u, mT, eta), ed)
    return n, r, P, (r + P) / T


def compare(ctx, p, g, m, T, eta, factor, tag):
    import numpy as np
    from lib import phys
    exact = phys.thermo(g, m, T, eta)
    mT = m / T
    names = ('density', 'energy density', 'pressure', 'entropy')
    got = (p.density, p.energy_density, p.pressure, p.entropy)
    ratio = mT if mT > 0 else 0.
    want_regime = 'radiation' if T > m * factor else 'dust' if T * factor < m else 'intermediate'
    ctx.check(p.regime.name == want_regime, tag + ':regime', regime=p.regime.name, want=want_regime, mT=mT, factor=factor)
    det = dict(g=g, m=m, T=T, mT=mT, eta=eta, factor=factor, regime=want_regime)
    if want_regime == 'radiation':
        tol = [2e-3, 1e-5, 1e-5, 1e-5]
        slack = .6 * mT ** 2 * (1 + abs(np.log(mT)) if mT else 1)
        if eta < 0:
            slack += 1.2 * mT
        for nm, x, w, t in zip(names, got, exact, tol):
            ctx.close(x, w, tag + ':radiation ' + nm, rel=t + slack, **det)
    elif want_regime == 'dust':
        for nm, x, w in zip(names, got, exact):
            ctx.close(x, w, tag + ':dust ' + nm, rel=3.5 / mT, abs_=1e-290, **det)
    else:
        low = truncated(g, m, T, eta, 20.)
        for nm, x, w, l in zip(names, got, exact, low):
            slack = 3e-6
            ok = np.isfinite(x) and l * (1 - slack) - 1e-300 <= x <= w * (1 + slack) + 1e-300
            ctx.check(ok, tag + ':intermediate ' + nm, got=float(x), want=w, low=l, **det)
            if w > 0 and mT < 3:
                ctx.stat('relerr intermediate ' + nm, abs(x / w - 1))
    # thermodynamic identities
    if got[1] > 1e-280:
        ctx.close(p.entropy * T, p.energy_density + p.pressure, tag + ':Ts = rho + P', rel=1e-9 if want_regime != 'dust' else 1e-9, **det)
        ctx.check(0 <= p.pressure <= p.energy_density / 3 * (1 + 1e-12), tag + ':0 <= P <= rho/3', **det)
    ctx.seen(want_regime, eta, int(np.floor(np.log10(mT))) if mT else 'massless', factor, tag)


def fixed(ctx, factor, n, tag):
    import numpy as np
    from common import UNITS
    from lib import worlds
    MeV = UNITS.MeV
    r = ctx.rng
    with worlds.settings(REGIME_SWITCHING_FACTOR=repr(factor)):
        for i in range(n):
            g = r.choice([1, 2, 3, 4, 6, 12, 16, 2.5])
            eta = r.choice([1, -1])
            T = float(np.exp(r.uniform(np.log(1e-3), np.log(1e5)))) * MeV
            kind = r.random()
            if kind < .1:
                m = 0.
            elif kind < .25:
                m = T / factor * r.choice([.99, 1.01, .5, 2.])
            elif kind < .4:
                m = T * factor * r.choice([.99, 1.01, .5, 2.])
            else:
                m = T * float(np.exp(r.uniform(np.log(1e-5), np.log(3e2))))
            a = float(np.exp(r.uniform(np.log(1e-2), np.log(1e2)))) * MeV / T
            p = worlds.spec_particle(i, g, m / MeV, eta)
            with worlds.quiet():
                ctx.code('create', p.set_params, worlds.free_params(T, a))
            compare(ctx, p, g, m, T, eta, factor, tag)
            if i < 2:
                ctx.sample(dict(g=g, m_over_T=m / T, eta=eta, T_MeV=T / MeV, regime=p.regime.name, rho_MeV4=p.energy_density / MeV ** 4))


@S.job()
def default_regimes(ctx):
    n = 3000 if ctx.thorough else 600
    fixed(ctx, 1e3, n, 'default')
    ctx.require('states', ctx.evals, n)


@S.job()
def other_factors(ctx):
    for f in (10., 30., 100., 300., 1e4):
        fixed(ctx, f, 400 if ctx.thorough else 90, 'factor')


@S.job(env=dict(FIXED_ORDER_1D_QUADRATURE='0'))
def adaptive(ctx):
    fixed(ctx, 1e3, 200 if ctx.thorough else 40, 'adaptive')


@S.job(env=dict(GAUSS_LEGENDRE_ORDER=200, GAUSS_LAGUERRE_ORDER=60))
def orders(ctx):
    fixed(ctx, 1e3, 300 if ctx.thorough else 60, 'orders')
    response(ctx, 60 if ctx.thorough else 12, {}, 'orders')


@S.job()
def cooling(ctx):
    """ one particle object followed through a cooling history, every state compared, regimes switched on the fly """
    import numpy as np
    from common import UNITS
    from lib import worlds
    MeV = UNITS.MeV
    r = ctx.rng
    switched = 0
    for i in range(30 if ctx.thorough else 8):
        factor = r.choice([1e3, 1e3, 20., 50.])
        g, eta, m = r.choice([1, 2, 4]), r.choice([1, -1]), float(np.exp(r.uniform(np.log(.01), np.log(1e3)))) * MeV
        with worlds.settings(REGIME_SWITCHING_FACTOR=repr(factor)):
            span = min(factor * 3, 60. if factor > 500 else 1e9)
            T = m * factor * 3
            par = worlds.free_params(T, MeV / T)
            p = worlds.spec_particle(i, g, m / MeV, eta)
            rows = 1
            with worlds.quiet():
                p.set_params(par)
                rows = len(p.data['params'])
                regs = [p.regime.name]
                Ts = list(np.exp(np.linspace(np.log(m * factor * 3), np.log(m / span), 40)))
                if r.random() < .3:
                    Ts += Ts[::-1][1:20]       # reheated
                for T in Ts:
                    worlds.move(par, T, MeV / T * r.uniform(.5, 2.), dt=1.)
                    ctx.code('update', p.update)
                    # an equilibrium species follows the plasma temperature one update behind only through aT
                    ctx.close(p.T, T, 'cooling:T', rel=1e-12)
                    compare(ctx, p, g, m, T, eta, factor, 'cooling')
                    rows += 1
                    row = p.data['params'][-1]
                    ctx.check(len(p.data['params']) == rows and row['a'] == par.a and row['t'] == par.t and row['T'] == par.T
                              and row['density'] == p.density and row['energy_density'] == p.energy_density, 'cooling:history')
                    if p.regime.name != regs[-1]:
                        regs.append(p.regime.name)
            switched += len(regs) - 1
            ctx.seen('cooling', '>'.join(regs), eta, factor)
    ctx.require('regime changes', switched, 8)


def response(ctx, n, env, tag):
    """ terms of the temperature equation against d(aT)/dlna of an adiabatic ideal gas mixture """
    import numpy as np
    from common import UNITS
    from evolution import Universe
    from lib import worlds, phys
    MeV = UNITS.MeV
    for i in range(n):
        T = float(np.exp(ctx.rng.uniform(np.log(.01), np.log(1e3))))
        specs = worlds.random_species(ctx.rng, T * 3, T / 5)
        log = ctx.rng.random() < .6
        with worlds.settings(LOGARITHMIC_TIMESTEP=str(log), **env):
            u = Universe(params=worlds.make_params(T, .03 if log else .03 / T, log))
            parts = [worlds.spec_particle(j, *s) for j, s in enumerate(specs)]
            with worlds.quiet():
                u.add_particles(parts)
                frac = ctx.code('integrand', u.integrand, u.params.x, u.params.aT)
        a, Tt = u.params.a, u.params.T
        s = sum(phys.thermo(g, m * MeV, Tt, e)[3] for g, m, e in specs)
        drho = sum(phys.dthermo(g, m * MeV, Tt, e) for g, m, e in specs)
        sp = drho / Tt
        want = -a * (3 * s - Tt * sp) / sp
        if not log:
            want /= u.params.x
        scale = u.params.aT / (1. if log else u.params.x)
        ctx.close(frac, want, tag + ':d(aT)/dlna', rel=2.5e-4, abs_=(1e-4 if tag == 'orders' else 8e-6) * scale, specs=repr(specs), T=T, log=log, env=repr(env))
        ctx.stat('d ln(aT)/dlna', want / scale)
        ctx.seen('response', tag, log, len(specs), round(want / scale, 1))


@S.job()
def temperature_equation(ctx):
    response(ctx, 300 if ctx.thorough else 50, {}, 'laguerre')
    response(ctx, 150 if ctx.thorough else 25, dict(LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES='no'), 'legendre')


if __name__ == '__main__':
    main(S)
