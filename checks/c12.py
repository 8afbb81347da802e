"""C12: settings come from the process environment, are typed like their defaults, and take effect."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C12', 'distinct = (setting, kind of value, history of sets and unsets); non-trivial = a setting read back after the environment changed',
          assumptions=['boolean settings accept the usual spellings of true and false'])

DEFAULTS = dict(SPLIT_COLLISION_INTEGRAL=True, FIXED_ORDER_1D_QUADRATURE=True, GAUSS_LEGENDRE_ORDER=100, GAUSS_LAGUERRE_ORDER=100,
                LOGARITHMIC_TIMESTEP=True, ADAMS_BASHFORTH_TEMPERATURE_CORRECTION=True, ADAMS_MOULTON_DISTRIBUTION_CORRECTION=False,
                MOMENTUM_SAMPLES=401, MAX_MOMENTUM_MEV=100, MAX_SCALE_FACTOR=10, FOUR_PARTICLE_GRID_RESOLUTION=.24999,
                NORMAL_HIERARCHY_NEUTRINOS=True, REGIME_SWITCHING_FACTOR=1e3, SIMPSONS_INTEGRATION=False, SIMPSONS_NONEQ_PARTICLES=True,
                LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES=True)
TRUE = ['True', 'true', '1', 't', 'yes', 'on', 'TRUE']
FALSE = ['False', 'false', '0', 'f', 'FALSE', 'no', 'off', '-1', 'F', '']


@S.job(native=False)
def typed(ctx):
    """ random histories of setting and unsetting, every setting read after each step """
    import environment
    r = ctx.rng
    for k in DEFAULTS:
        os.environ.pop(k, None)
    state = {}
    for step in range(6000 if ctx.thorough else 1200):
        k = r.choice(sorted(DEFAULTS) + ['HNL_ENERGY', 'SOMETHING_ELSE'])
        d = DEFAULTS.get(k)
        kind = 'unset'
        if r.random() < .3:
            os.environ.pop(k, None)
            state.pop(k, None)
        else:
            if isinstance(d, bool):
                v = r.random() < .5
                s = r.choice(TRUE if v else FALSE)
                kind = 'bool ' + s
            elif isinstance(d, int):
                v = r.choice([1, 2, 7, 100, 401, 5000, r.randint(1, 10 ** 6)])
                s = r.choice([str(v), ' %d ' % v, '+%d' % v])
                kind = 'int ' + ('plain' if s == str(v) else 'padded')
            elif isinstance(d, float):
                v = r.choice([.5, 1e-3, 1e3, 2., float(r.uniform(1e-5, 1e5))])
                s = r.choice([repr(v), '%.17g' % v, '%.17e' % v])
                kind = 'float ' + ('exp' if 'e' in s else 'plain')
            else:
                v = s = r.choice(['1', '12.5', 'True', 'text', ''])
                kind = 'raw'
            os.environ[k] = s
            state[k] = v
        for n, dv in list(DEFAULTS.items()) + [('HNL_ENERGY', None), ('SOMETHING_ELSE', None)]:
            want = state.get(n, dv)
            got = ctx.code('get', environment.get, n)
            ok = (got == want) and (type(got) is type(want))
            ctx.check(ok, 'value of a setting' if n in state else 'default of a setting', setting=n, got=repr(got), want=repr(want),
                      environment=repr(os.environ.get(n)))
        ctx.seen(k, kind)
    ctx.require('settings changed', len({s.split('|')[0] for s in ctx.states}), 16)
    for k in list(state):
        os.environ.pop(k, None)
    # malformed numbers are refused, not replaced by something else
    for n, dv in DEFAULTS.items():
        if isinstance(dv, bool):
            continue
        for bad in ['abc', '1.5.2', '--3'] + (['2.5'] if isinstance(dv, int) else []):
            os.environ[n] = bad
            try:
                got = environment.get(n)
                ctx.check(False, 'malformed number accepted', setting=n, text=bad, got=repr(got))
            except ValueError:
                ctx.check(True, 'malformed number accepted')
            del os.environ[n]
        ctx.seen(n, 'malformed')


@S.job(native=False)
def helpers(ctx):
    from common import utils
    r = ctx.rng
    for i in range(400):
        n = 'VP_FLAG_%d' % r.randint(0, 3)
        os.environ.pop(n, None)
        for d in (None, False, True):
            ctx.check(utils.getboolenv(n, d) is bool(d), 'flag default', default=d, got=utils.getboolenv(n, d))
        ctx.check(utils.getboolenv(n) is False and utils.getenv(n) is None and utils.getenv(n, 'x') == 'x', 'unset flag')
        v = r.random() < .5
        s = r.choice(['true', '1', 't', 'True'] if v else ['false', 'f', '0', '-1'])
        os.environ[n] = s
        for d in (None, False, True):
            ctx.check(utils.getboolenv(n, d) is v, 'flag', text=s, default=d, got=utils.getboolenv(n, d))
        ctx.check(utils.getenv(n, 'zzz') == s, 'text')
        ctx.seen('flag', s)
        os.environ.pop(n)


# ---- every setting takes effect, and only where it should
def effects(ctx, **want):
    import numpy as np
    import environment
    from common import GRID, UNITS, Params, integrators, LinearSpacedGrid
    from common.integrators import gauss_legendre, gauss_laguerre
    from lib import worlds
    cfg = dict(DEFAULTS)
    cfg.update(want)
    for n, v in cfg.items():
        ctx.check(environment.get(n) == v, 'effective setting', setting=n, got=repr(environment.get(n)), want=repr(v))
    ctx.check(len(gauss_legendre.points) == cfg['GAUSS_LEGENDRE_ORDER'], 'Legendre order', got=len(gauss_legendre.points))
    ctx.check(len(gauss_laguerre.points) == cfg['GAUSS_LAGUERRE_ORDER'], 'Laguerre order', got=len(gauss_laguerre.points))
    ctx.check(GRID.MOMENTUM_SAMPLES == cfg['MOMENTUM_SAMPLES'] and len(GRID.TEMPLATE) == cfg['MOMENTUM_SAMPLES'], 'grid size', got=len(GRID.TEMPLATE))
    ctx.close(GRID.MAX_MOMENTUM, cfg['MAX_MOMENTUM_MEV'] * UNITS.MeV, 'grid range', rel=1e-12)
    calls = []

    def f(x):
        calls.append(np.size(x))
        return np.cos(x)
    I, e = integrators.integrate_1D(f, (0., 1.))
    ctx.close(I, np.sin(1.), 'integral in the configured mode', rel=1e-8 if cfg['GAUSS_LEGENDRE_ORDER'] > 5 else 1e-2)
    ctx.check((calls == [cfg['GAUSS_LEGENDRE_ORDER']]) == cfg['FIXED_ORDER_1D_QUADRATURE'], 'quadrature mode', calls=repr(calls[:4]))
    # timestep formulation
    log = cfg['LOGARITHMIC_TIMESTEP']
    for kw, ok in ((dict(dy=.03), log), (dict(dx=.03 * UNITS.MeV), not log)):
        try:
            p = Params(T=2 * UNITS.MeV, **kw)
            ctx.check(ok, 'step specification accepted', kw=repr(kw))
            ctx.close(p.h, .03 if log else .03 * UNITS.MeV, 'step', rel=1e-12)
        except Exception as ex:
            ctx.check(not ok, 'step specification refused', error=repr(ex))
    # regime thresholds
    with worlds.quiet():
        with worlds.settings(LOGARITHMIC_TIMESTEP='True'):
            p = Params(T=1 * UNITS.MeV, dy=.03)
        g = cfg['REGIME_SWITCHING_FACTOR']
        for m, name in ((1.05 / g, 'intermediate'), (.95 / g, 'radiation'), (.95 * g, 'intermediate'), (1.05 * g, 'dust')):
            if g > 1.2:
                q = worlds.spec_particle(0, 2, m, 1)
                q.set_params(p)
                ctx.check(q.regime.name.lower().startswith(name[:4]), 'regime', m=m, got=q.regime.name, want=name, factor=g)
    ctx.seen(*['%s=%s' % kv for kv in sorted(want.items())] or ['defaults'])


CASES = dict(
    defaults={},
    small=dict(MOMENTUM_SAMPLES=33, MAX_MOMENTUM_MEV=12, GAUSS_LEGENDRE_ORDER=30, GAUSS_LAGUERRE_ORDER=40),
    lin=dict(LOGARITHMIC_TIMESTEP=False, ADAMS_BASHFORTH_TEMPERATURE_CORRECTION=False, SIMPSONS_NONEQ_PARTICLES=False),
    quad=dict(FIXED_ORDER_1D_QUADRATURE=False, LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES=False, ADAMS_MOULTON_DISTRIBUTION_CORRECTION=True),
    regime=dict(REGIME_SWITCHING_FACTOR=10., MAX_SCALE_FACTOR=5, FOUR_PARTICLE_GRID_RESOLUTION=.5, NORMAL_HIERARCHY_NEUTRINOS=False),
    other=dict(SPLIT_COLLISION_INTEGRAL=False, SIMPSONS_INTEGRATION=True, REGIME_SWITCHING_FACTOR=250.5, GAUSS_LEGENDRE_ORDER=64),
)
for _name, _want in CASES.items():
    S.job(env={k: str(v) for k, v in _want.items()}, name='effect_' + _name)(lambda ctx, w=_want: effects(ctx, **w))


def quadrature_of_plasma(ctx, laguerre):
    """ of a massive species in equilibrium, the quadrature that is switched on (of two points here) shows in the terms of the temperature equation, the other one does not """
    import numpy as np
    from scipy.integrate import quad
    from common import UNITS
    from lib import worlds
    r = ctx.rng
    for case in range(20):
        T, m, g, log = 10 ** r.uniform(-1, 1) * UNITS.MeV, 0, r.choice([2, 4]), r.random() < .5
        m = T * r.uniform(.5, 4)
        p = worlds.spec_particle(0, g, m / UNITS.MeV, 1)
        with worlds.quiet():
            p.set_params(worlds.free_params(T, UNITS.MeV / T))
        got = p.denominator()
        x = m / T
        # g / 2 pi^2 (aT)^3 integral of y^2 E^2 f (1 - f)
        f = lambda y: y ** 2 * (y ** 2 + x ** 2) / (2 + 2 * np.cosh(np.sqrt(y ** 2 + x ** 2)))
        want = g / 2 / np.pi ** 2 * UNITS.MeV ** 3 * quad(f, 0, 80, epsabs=0)[0]
        dev = abs(got / want - 1)
        ctx.stat('deviation, ' + ctx.job if hasattr(ctx, 'job') else 'deviation', dev)
        ctx.check((dev < 1e-4) != (laguerre == (os.environ['GAUSS_LAGUERRE_ORDER'] == '2')), 'quadrature of massive species in equilibrium', dev=dev, x=x, laguerre=laguerre, legendre_points=os.environ['GAUSS_LEGENDRE_ORDER'])
        ctx.seen('plasma quadrature', laguerre, os.environ['GAUSS_LAGUERRE_ORDER'])


for _l in (True, False):
    for _few in (True, False):
        S.job(env=dict(LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES=str(_l), GAUSS_LAGUERRE_ORDER='2' if _few else '100', GAUSS_LEGENDRE_ORDER='100' if _few else '2'),
              name='plasma_{}_{}'.format(_l, _few))(lambda ctx, l=_l: quadrature_of_plasma(ctx, l))


@S.job()
def temperature_scheme(ctx):
    """ the explicit multi-step temperature scheme is used exactly when it is switched on """
    import numpy as np
    from lib import worlds
    from evolution import Universe
    from common import UNITS, integrators
    for flag in (True, False):
        with worlds.quiet(), worlds.settings(ADAMS_BASHFORTH_TEMPERATURE_CORRECTION=str(flag)):
            u = Universe(params=worlds.make_params(2., .05))
            u.add_particles([worlds.spec_particle(0, 2, 0., -1), worlds.spec_particle(1, 4, .511, 1)])
            u.evolve(T_final=.7 * UNITS.MeV, export=False)
        aT, fr = np.array(u.data['aT']), np.array(u.data['fraction'])
        k = np.arange(8, len(aT))
        d = np.diff(aT)[7:]
        # row i holds the derivative used in the step that led to it
        euler = .05 * fr[8:]
        b = [251., -1274., 2616., -2774., 1901.]
        ab = .05 * sum(c * fr[8 - 4 + j:len(fr) - 4 + j] for j, c in enumerate(b)) / 720.
        want = ab if flag else euler
        ctx.check(np.allclose(d, want, rtol=1e-7, atol=1e-12 * aT[0]), 'temperature scheme', flag=flag, d=d[:3], want=want[:3])
        ctx.check(not np.allclose(ab, euler, rtol=1e-5), 'schemes distinguishable')
        ctx.seen('scheme', flag)


if __name__ == '__main__':
    main(S)
