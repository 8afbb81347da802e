"""C19: neutron-proton conversion rates and the table handed to the nucleosynthesis code."""
import math
import os, stat, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main, num

S = Suite('C19', 'distinct = (temperature decade, neutrino temperature and degeneracy, tabulated or thermal, scale of the grid, rate) and recorded rows of evolutions; non-trivial = a non-vanishing rate or a '
                 'recorded row compared field by field',
          assumptions=['Born approximation with infinitely heavy nucleons, normalised to the free neutron decay rate (as documented by the normalisation constant)'])
NORM, ME = 17.5426, .511
HBAR = 6.582119e-22      # MeV s


def reference(q, me, fe, fn, top):
    """ six rates; momenta in MeV """
    import numpy as np
    from lib.phys import panels
    pe = lambda E: np.sqrt(np.maximum(E * E - me * me, 0.))
    cut = q - me

    def integ(sign, a, b, we, wn):
        if b <= a:
            return 0.
        def f(u):
            # substitution resolving the square root at the threshold
            y = a + (b - a) * u * u * (3 - 2 * u)
            E = sign[0] * q + sign[1] * y
            return y ** 2 * pe(E) * E * we(fe(pe(E))) * wn(fn(y)) * (b - a) * 6 * u * (1 - u)
        return NORM * panels(f, np.linspace(0, 1, 41))
    one, same = (lambda f: 1 - f), (lambda f: f)
    return [integ((1, 1), 0, top, one, same), integ((1, 1), 0, top, same, one), integ((1, -1), 0, cut, one, one), integ((1, -1), 0, cut, same, same),
            integ((-1, 1), q + me, top, same, one), integ((-1, 1), q + me, top, one, same)]


def setup(ctx, T, aT, xi, t, grid_n, top, table):
    import numpy as np
    from common import UNITS, LinearSpacedGrid
    from library import SM
    from particles import Particle
    from lib import worlds
    MeV = UNITS.MeV
    par = worlds.free_params(T * MeV, aT / T)
    par.a_ini *= math.exp(ctx.rng.uniform(-4., 0.))           # where the universe started is irrelevant
    el = Particle(**SM.particles.leptons.electron)
    el.set_params(par)
    kw = dict(SM.particles.leptons.neutrino_e, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=grid_n, MAX_MOMENTUM=top * MeV))
    if table:
        kw['decoupling_temperature'] = 2 * T * MeV
    else:
        kw['decoupling_temperature'] = 0.
    nu = Particle(**kw)
    nu.set_params(par)
    if table:
        y = nu.grid.TEMPLATE / MeV
        nu._distribution = 1. / (np.exp(np.minimum(y / (aT * t) - xi, 600)) + 1)
        nu.aT = aT * t * MeV
    return par, el, nu


@S.job()
def rates(ctx):
    import numpy as np
    import kawano
    from common import UNITS
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    q = kawano.q / MeV
    ctx.check(abs(q - 1.2933) < 2e-3, 'neutron-proton mass difference', got=q)
    n = 0
    for case in range(160 if ctx.thorough else 40):
        T = 10 ** r.uniform(-2, 1)
        aT = r.choice([1., 1., 1.4, .7, 3.])
        table = r.random() < .6
        t, xi = (r.uniform(.6, 1.2), r.uniform(-1., 1.)) if table else (1., 0.)
        top = aT * r.choice([20., 30., 50.])
        with worlds.quiet():
            par, el, nu = ctx.code('species', setup, ctx, T, aT, xi, t, r.choice([101, 301, 801]), top, table)
            ctx.code('init', kawano.init_kawano, electron=el, neutrino=nu)
        got = ctx.code('rates', kawano.baryonic_rates, par.a)
        fe = lambda p: 1 / (np.exp(np.minimum(np.sqrt(p * p + .511 ** 2) / T, 600)) + 1)
        fn = lambda p: 1 / (np.exp(np.minimum(p / (T * t) - xi, 600)) + 1)
        want = reference(q, .511, fe, fn, top * T / aT)
        ctx.check(len(got) == 6, 'number of rates', got=len(got))
        big = max(want)
        for k in range(6):
            ctx.stat('relative error', abs(got[k] - want[k]) / big)
            ctx.check(math.isfinite(got[k]) and got[k] >= 0 and abs(got[k] - want[k]) <= 2e-3 * want[k] + 1e-5 * big, 'rate {}'.format(k + 1), got=got[k], want=want[k], T=T, t=t, xi=xi, aT=aT, table=table)
            if want[k] > 1e-5 * big:
                n += 1
                ctx.seen('rate', k, int(2 * math.log10(T)), table, top / aT)
        if not table:       # detailed balance
            for k in (0, 2, 4):
                if got[k] > 1e-12 * big and q / T < 300:
                    ctx.close(got[k + 1] / got[k], math.exp(-q / T), 'detailed balance', rel=1e-6, pair=k, T=T)
        else:               # the same with the neutrinos at the temperature of the plasma, degenerate or not
            y = nu.grid.TEMPLATE / MeV
            nu._distribution = 1. / (np.exp(y / aT - xi) + 1)
            nu.aT = aT * MeV
            g = ctx.code('rates', kawano.baryonic_rates, par.a)
            for i, j, s in ((0, 1, -1), (2, 3, 1), (4, 5, 1)):
                if g[i] > 1e-9 * max(g) and g[j] > 1e-9 * max(g):
                    ctx.close(g[j] / g[i], math.exp(-q / T + s * xi), 'detailed balance (degenerate)', rel=1e-4, pair=i, T=T, xi=xi)
    # empty, cold universe: only the decay of free neutrons remains, at its measured rate
    par, el, nu = setup(ctx, .002, 1., 0., 1., 401, 20., False)
    kawano.init_kawano(electron=el, neutrino=nu)
    v = ctx.code('rates', kawano.baryonic_rates, par.a)
    ctx.check(abs(v[2] - 1) < 1e-3, 'free neutron decay', got=v[2])
    ctx.check(all(x < 1e-5 for i, x in enumerate(v) if i not in (2,)), 'cold rates', got=v)
    ctx.require('non-vanishing rates', n, 100)


SCRIPT = '''#!/bin/sh
cat > "$OUTPUT.stdin"
cp "$INPUT" "$OUTPUT"
echo "nuclei of $INPUT" >> "$OUTPUT"
'''


def evolution_table(ctx, log, n):
    import numpy as np
    from common import UNITS
    from evolution import Universe
    from library import SM
    from particles import Particle
    from lib import worlds
    r = ctx.rng
    MeV = UNITS.MeV
    base = os.environ['VP_SCRATCH']
    binary = os.path.join(base, 'fake_kawano')
    with open(binary, 'w') as f:
        f.write(SCRIPT)
    os.chmod(binary, 0o755)
    os.environ['KAWANO'] = binary
    rows_seen = 0
    for case in range(n):
        T0 = r.choice([15., 12., 9., 3., 25.])
        T1 = T0 * r.uniform(.2, .5)
        if T0 > 10:
            T1 = min(T1, 8.)
        step = r.choice([.02, .03])
        folder = os.path.join(base, 'universe{}'.format(case)) if case % 3 else None
        out = sys.stdout
        try:
            with worlds.quiet():
                par = worlds.make_params(T0, step if log else step / T0, log)
                u = ctx.code('universe', Universe, folder=folder, params=par)
                u.export_freq = r.choice([3, 100])
                el, ph, ne = Particle(**SM.particles.leptons.electron), Particle(**SM.particles.photon), Particle(**dict(SM.particles.leptons.neutrino_e, decoupling_temperature=r.choice([0, T0 * .7 * MeV])))
                u.add_particles([el, ph, ne])
                ctx.code('init', u.init_kawano, electron=el, neutrino=ne)
                log_rates = []
                if case % 3 == 2:
                    # a run that is carried on after its results were exported
                    ctx.code('evolve', u.evolve, T1 * 1.3 * MeV)
                    u.data.truncate()
                    ctx.code('carry on', u.evolve, T1 * MeV, init_time=False)
                else:
                    ctx.code('evolve', u.evolve, T1 * MeV)
        finally:
            sys.stdout = out
        D, K = u.data, u.kawano_data
        cols = K.columns
        T = np.array(D['T'])
        idx = [k for k in range(1, len(T)) if T[k] <= 10 * MeV]
        ctx.check(len(K) == len(idx), 'rows of the rate table', got=len(K), want=len(idx), T0=T0, T1=T1)
        val = {}
        for j, k in enumerate(idx):
            if j >= len(K):
                break
            row = [float(K[c][j]) for c in cols]
            # state of the universe in that row, converted by hand
            want = dict(t=D['t'][k] / UNITS.s, x=D['x'][k] / MeV, Tg=D['T'][k] / MeV * 11.6045, rho=D['rho'][k] / MeV ** 4 * 2.32011575e5,
                        H=math.sqrt(8 * math.pi / 3 * D['rho'][k] / MeV ** 4) / 1.2209e22 / HBAR)
            units = [UNITS.s, MeV, UNITS.K9, UNITS.K9 / UNITS.s, UNITS.g_cm3, 1 / UNITS.s]
            got = [v / un for v, un in zip(row[:6], units)]
            for i, name, rel in ((0, 't', 1e-9), (1, 'x', 1e-9), (2, 'Tg', 1e-9), (4, 'rho', 1e-9), (5, 'H', 1e-6)):
                ctx.close(got[i], want[name], 'table:' + name, rel=rel, row=k)
            dT = (D['T'][k] - D['T'][k - 1]) / (D['t'][k] - D['t'][k - 1]) * (UNITS.s / MeV * 11.6045)
            ctx.close(got[3], dT, 'table:cooling rate', rel=.05, row=k, T=float(D['T'][k] / MeV))
            ctx.check(got[3] < 0, 'table:cooling rate sign', got=got[3])
            rows_seen += 1
            val[j] = got + row[6:]
        # the rates of the last row belong to the final state
        if idx:
            fin = u.kawano.baryonic_rates(u.params.a)
            if not ne.in_equilibrium or T[-1] > 0:
                # species are updated at the beginning of the next step: bring them to the final state
                with worlds.quiet():
                    u.update_particles()
                fin2 = u.kawano.baryonic_rates(u.params.a)
                for i in range(6):
                    lo, hi = sorted((fin[i], fin2[i]))
                    g = float(K[cols[6 + i]][len(K) - 1])
                    ctx.check(lo * (1 - 1e-6) <= g <= hi * (1 + 1e-6), 'table:rates of the last row', rate=i, got=g, lo=lo, hi=hi)
        if folder:
            with open(os.path.join(folder, 's4.dat')) as f:
                lines = f.read().split('\n')
            ctx.check(lines[0].split('\t') == ['t', 'x', 'Tg', 'dTg/dt', 'rho_tot', 'H', 'n nue->p e', 'p e->n nue', 'n->p e nue', 'p e nue->n', 'n e->p nue', 'p nue->n e'], 'header of the exported table', got=lines[0])
            body = [l for l in lines[1:] if l.strip()]
            ctx.check(len(body) == len(K), 'rows of the exported table', got=len(body), want=len(K))
            for j, l in enumerate(body):
                nums = [num(v) for v in l.split('\t') if v.strip()]
                if j in val:
                    ctx.check(len(nums) == 12 and all(abs(a - b) <= 2e-4 * abs(b) + 1e-300 for a, b in zip(nums, val[j])), 'exported row', row=j, got=nums, want=val[j])
            for name in ('kawano.txt', 'evolution.txt', 'log.txt', 'kawano_output.dat'):
                ctx.check(os.path.exists(os.path.join(folder, name)), 'output file missing', name=name)
            with open(os.path.join(folder, 'kawano_output.dat')) as f:
                o = f.read()
            ctx.check(o.startswith('\n'.join(lines[:2])) and 'nuclei of' in o, 'nucleosynthesis code did not receive the table', got=o[:200])
            with open(os.path.join(folder, 'kawano_output.dat.stdin')) as f:
                ctx.check(f.read().split('\n')[:4] == ['', '4', '2', ''], 'commands of the nucleosynthesis code')
            txt = ctx.code('exported rate table', np.loadtxt, os.path.join(folder, 'kawano.txt'), ndmin=2)
            ctx.check(txt.shape == (len(K), 12) and all(np.all(np.abs(txt[j] - val[j]) <= 2e-4 * np.abs(val[j])) for j in val), 'exported rate table', shape=txt.shape, want=len(K))
        ctx.seen('evolution', log, T0, bool(folder), bool(ne.in_equilibrium), u.export_freq)
    ctx.require('rows', rows_seen, 60)


@S.job()
def table(ctx):
    evolution_table(ctx, True, 24 if ctx.thorough else 6)


@S.job(env=dict(LOGARITHMIC_TIMESTEP='False'))
def table_linear(ctx):
    evolution_table(ctx, False, 12 if ctx.thorough else 4)


if __name__ == '__main__':
    main(S)
