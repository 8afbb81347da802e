"""C21: universes are isolated and reproducible, and their output files hold exactly the trace up to the last export."""
import json
import math
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main, PY, num

S = Suite('C21', 'distinct = (contents of the universes, interleaving, export interval, interruption point); non-trivial = a universe whose whole trace was compared with its lone run, or an '
                 'output file compared row by row with the trace',
          assumptions=['the energy scale of the relativistic decoupling of heavy neutrinos is process-wide (known finding)'])


def contents(r):
    """ description of a universe (plain data) """
    T0 = 10 ** r.uniform(0, 1.5)
    sp = []
    for k in range(r.randint(1, 3)):
        m = r.choice([0., .5, 2.]) * T0
        sp.append((r.choice([2, 4]), m, r.choice([1, -1]) if m else 1, r.choice([0., T0 * .8, T0 * 1.4]), r.choice([0., 0., .3])))
    return dict(T0=T0, T1=T0 * r.uniform(.3, .6), dy=r.choice([.02, .03]), sp=sp, share=r.random() < .4, osc=r.random() < .3)


class Relax(object):
    """ an interaction that lets the decoupled species decay """
    integrals = ()

    def __init__(self, terms):
        self.terms = terms

    def initialize(self):
        from interactions.four_particle import CollisionIntegralKind as Kind
        for p, rate in self.terms:
            if not p.in_equilibrium and rate:
                p.collision_integrals.append(type('I', (), dict(kind=Kind.Full, __str__=lambda s: 'stub',
                    integrate=lambda self, ps, stepsize=None, bounds=None, p=p, rate=rate: (-rate * p._distribution, 0 * p._distribution - rate)))())

    def __str__(self):
        return 'decay'


def build(d, folder=None, shared_grid=None):
    from common import UNITS, LinearSpacedGrid, statistics as ST
    from evolution import Universe
    from particles import Particle
    from library import SM
    from lib import worlds
    u = Universe(folder=folder, params=worlds.make_params(d['T0'], d['dy']), max_log_rate=0)
    ps, terms = [Particle(**SM.particles.photon)], []
    for k, (g, m, e, dec, rate) in enumerate(d['sp']):
        grid = shared_grid if d['share'] and shared_grid is not None else LinearSpacedGrid(MOMENTUM_SAMPLES=31, MAX_MOMENTUM=20 * UNITS.MeV)
        p = worlds.spec_particle(k, g, m, e, decoupling_temperature=dec * UNITS.MeV, grid=grid)
        ps.append(p)
        terms.append((p, rate))
    if d['osc']:
        nus = [Particle(**dict(SM.particles.leptons.neutrino_e, decoupling_temperature=d['T0'] * .7 * UNITS.MeV, grid=LinearSpacedGrid(31, 20 * UNITS.MeV))),
               Particle(**dict(SM.particles.leptons.neutrino_mu, decoupling_temperature=d['T0'] * .8 * UNITS.MeV, grid=LinearSpacedGrid(31, 20 * UNITS.MeV))),
               Particle(**dict(SM.particles.leptons.neutrino_tau, decoupling_temperature=d['T0'] * .8 * UNITS.MeV, grid=LinearSpacedGrid(31, 20 * UNITS.MeV)))]
        ps += nus
        terms += [(n, .1 * (i + 1)) for i, n in enumerate(nus)]
    u.add_particles(ps)
    if d['osc']:
        u.init_oscillations(SM.particles.leptons.oscillations_map, nus)
    u.interactions = [Relax(terms)]
    return u


def snap(u):
    import numpy as np
    return ([np.array(u.data[c]).copy() for c in ('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S')],
            [np.array(p.data['distribution'].data).copy() for p in sorted(u.particles, key=lambda p: p.name)],
            [p.name for p in u.particles])


def same(a, b):
    import numpy as np
    return a[2] == b[2] and all(len(x) == len(y) and np.array_equal(x, y) for i in (0, 1) for x, y in zip(a[i], b[i])) and len(a[1]) == len(b[1])


@S.job()
def isolation(ctx):
    """ interleaved universes leave exactly the trace they leave alone """
    import copy
    import numpy as np
    from common import UNITS, LinearSpacedGrid, CONST
    import environment
    from library import SM
    from lib import worlds
    r = ctx.rng
    lib0 = repr(sorted((k, sorted(v.items(), key=str)) for c in (SM.particles, SM.particles.leptons, SM.particles.quarks, SM.particles.hadrons) for k, v in vars(c).items() if isinstance(v, dict) and 'name' in v))
    env0 = dict(os.environ)
    defaults0 = dict(environment.defaults)
    compared = 0
    for case in range(40 if ctx.thorough else 10):
        ds = [contents(r) for _ in range(r.choice([2, 2, 3]))]
        with worlds.quiet():
            lone = []
            for d in ds:
                u = build(d)
                ctx.code('evolve', u.evolve, d['T1'] * UNITS.MeV)
                lone.append(snap(u))
            grid = LinearSpacedGrid(MOMENTUM_SAMPLES=31, MAX_MOMENTUM=20 * UNITS.MeV)
            us = [ctx.code('build', build, d, None, grid) for d in ds]
            # steps driven in a random interleaving, each with its own evolve loop semantics
            for u in us:
                u.params.init_time(u.total_energy_density())
                u.params.update(u.total_energy_density(), u.total_entropy())
                u.save_params()
            live = list(range(len(us)))
            order = []
            while live:
                k = r.choice(live)
                for _ in range(r.choice([1, 1, 2, 5])):
                    u = us[k]
                    if not u.params.T > ds[k]['T1'] * UNITS.MeV:
                        live.remove(k)
                        break
                    order.append(k)
                    ctx.code('step', u.make_step)
                    u.save()
                    u.step += 1
            # a second, complete run of the first one, after all others
            again = build(ds[0])
            ctx.code('evolve', again.evolve, ds[0]['T1'] * UNITS.MeV)
        for k, u in enumerate(us):
            compared += 1
            ctx.check(same(snap(u), lone[k]), 'interleaved universes influence each other', universe=k, contents=ds[k], rows=len(u.data), want=len(lone[k][0][0]))
        ctx.check(same(snap(again), lone[0]), 'repeating a run gives another result', contents=ds[0])
        ctx.seen('isolation', len(ds), tuple(d['share'] for d in ds), tuple(d['osc'] for d in ds), tuple(len(d['sp']) for d in ds))
    lib1 = repr(sorted((k, sorted(v.items(), key=str)) for c in (SM.particles, SM.particles.leptons, SM.particles.quarks, SM.particles.hadrons) for k, v in vars(c).items() if isinstance(v, dict) and 'name' in v))
    ctx.check(lib0 == lib1, 'running a universe modifies the particle library')
    ctx.check(dict(os.environ) == env0 and environment.defaults == defaults0, 'running a universe modifies the settings')
    ctx.require('compared universes', compared, 15)


@S.job()
def rates(ctx):
    """ universes that record conversion rates of neutrons and estimate their abundance do not exchange the species they take them from """
    import numpy as np
    from common import UNITS, LinearSpacedGrid
    from evolution import Universe
    from particles import Particle
    from library import SM
    from lib import worlds
    import semianalytic
    r = ctx.rng
    compared = 0

    def make(d):
        u = Universe(params=worlds.make_params(d['T0'], d['dy']), max_log_rate=1e9)
        el, ph, ne = Particle(**SM.particles.leptons.electron), Particle(**SM.particles.photon), \
            Particle(**dict(SM.particles.leptons.neutrino_e, decoupling_temperature=d['T0'] * d['dec'] * UNITS.MeV, grid=LinearSpacedGrid(d['N'], 20 * UNITS.MeV)))
        u.add_particles([el, ph, ne])
        if d['rate']:
            u.interactions = [Relax([(ne, d['rate'])])]
        ctx.code('init', u.init_kawano, electron=el, neutrino=ne)
        if d['monitor']:
            u.step_monitor = semianalytic.step_monitor
        return u

    def table(u):
        return [np.array(u.kawano_data[c]).copy() for c in u.kawano_data.columns], np.array(getattr(u, 'BBN_estimates', ())), snap(u)
    for case in range(12 if ctx.thorough else 4):
        ds = [dict(T0=r.choice([.3, 1., 2.]), dy=r.choice([.02, .03]), dec=r.choice([0, .9, 2.]), N=r.choice([31, 41]), rate=r.choice([0, .3]), monitor=r.random() < .5, n=r.randint(3, 8)) for _ in range(2)]
        ds[1]['T0'] = ds[0]['T0'] * r.choice([.7, 1.2])
        with worlds.quiet():
            lone = []
            for d in ds:
                u = make(d)
                ctx.code('evolve', u.evolve, d['T0'] * UNITS.MeV * np.exp(-d['n'] * d['dy']), export=False)
                lone.append(table(u))
            us = [make(d) for d in ds]
            first = r.randint(0, 1)
            # one after the other, in stages of random length, the later one prepared first
            for k, part in ((first, .4), (1 - first, .5), (first, None), (1 - first, None)):
                u, d = us[k], ds[k]
                steps = d['n'] if part is None else int(d['n'] * part)
                if not len(u.data):
                    u.params.init_time(u.total_energy_density())
                    u.params.update(u.total_energy_density(), u.total_entropy())
                    u.save_params()
                while u.params.T > d['T0'] * UNITS.MeV * np.exp(-d['n'] * d['dy']) and (part is None or len(u.data) <= steps):
                    ctx.code('step', u.make_step)
                    u.save()
                    u.step += 1
        for k, u in enumerate(us):
            got = table(u)
            ctx.check(len(got[0][0]) == len(lone[k][0][0]) > 0 and all(np.array_equal(x, y) for x, y in zip(got[0], lone[k][0])), 'conversion rates taken from the species of another universe', case=ds, universe=k)
            ctx.check(np.array_equal(got[1], lone[k][1]) and same(got[2], lone[k][2]), 'interleaved universes with conversion rates influence each other', case=ds, universe=k)
            compared += len(got[0][0])
        ctx.seen('rates', ds[0]['dec'], ds[1]['dec'], bool(ds[0]['rate']), ds[0]['monitor'], first)
    ctx.require('rows of rates', compared, 20)


def read_table(path):
    import numpy as np
    with open(path) as f:
        head = f.readline()
        rows = [[num(v) for v in l.split('\t')] for l in f if l.strip()]
    return head, rows


def close(got, want):
    import numpy as np
    try:
        got = np.array(got, dtype=float)
    except ValueError:  # rows of different lengths
        return False
    return got.shape == np.shape(want) and bool(np.allclose(got, want, rtol=1e-9, atol=0))


HEAD = '# aT, MeV\tT, MeV\ta\tx, MeV\tt, s\trho, MeV^4\tN_eff\tfraction\tS, MeV^3\n'


def expected(u):
    import numpy as np
    from common import UNITS
    M, s = 1e-3, 1e22 / 6.582119 / 1e-3
    units = [M, M, 1, M, s, M ** 4, 1, 1, M ** 3]
    return np.array([np.array(u.data[c]) / un for c, un in zip(('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S'), units)]).T


@S.job()
def files(ctx):
    import numpy as np
    from common import UNITS
    from lib import worlds
    r = ctx.rng
    base = os.environ['VP_SCRATCH']
    compared = 0
    for case in range(24 if ctx.thorough else 6):
        d = contents(r)
        folder = os.path.join(base, 'runs', 'u{}'.format(r.randint(0, 2)))
        if r.random() < .5:
            os.makedirs(os.path.join(folder, 'sub'), exist_ok=True)
            for n in ('evolution.txt', 'stale.txt', 'sub/x'):
                with open(os.path.join(folder, n), 'w') as f:
                    f.write('stale')
        sibling = os.path.join(base, 'runs', 'sibling.txt')
        os.makedirs(os.path.dirname(sibling), exist_ok=True)
        with open(sibling, 'w') as f:
            f.write('keep')
        out = sys.stdout
        freq = r.choice([1, 4, 7, 100])
        prefix = []
        try:
            with worlds.quiet() as term:
                u = ctx.code('build', build, d, folder)
                ctx.check(not os.path.exists(os.path.join(folder, 'stale.txt')) and not os.path.exists(os.path.join(folder, 'sub')), 'results of an earlier run survive')
                u.export_freq = freq

                def mon(v):
                    p = os.path.join(folder, 'evolution.txt')
                    n = len(v.data)
                    rows = read_table(p)[1] if os.path.exists(p) else []
                    prefix.append((n, len(rows), rows[-1] if rows else None, expected(v)[:len(rows)][-1] if rows else None))
                u.step_monitor = mon
                ctx.code('evolve', u.evolve, d['T1'] * UNITS.MeV)
                sys.stdout.flush()
                shown = term.getvalue()
                try:
                    sys.stdout.log.flush()
                except AttributeError:
                    pass
        finally:
            sys.stdout = out
        for n, k, last, want in prefix:
            ctx.check(k == (n // freq * freq if n > 1 else 0), 'rows on disk in the middle of a run', rows=n, on_disk=k, freq=freq)
            if last is not None:
                ctx.check(close(last, want), 'content on disk in the middle of a run', row=k)
        head, rows = read_table(os.path.join(folder, 'evolution.txt'))
        want = expected(u)
        ctx.check(head == HEAD, 'header of the evolution file', got=head)
        ctx.check(close(rows, want), 'evolution file differs from the trace', got=len(rows), want=len(want))
        with open(os.path.join(folder, 'log.txt'), encoding='utf8') as f:
            text = f.read()
        for p in u.particles:
            ctx.check(text.count(p.name) >= 2 and shown.count(p.name) >= 2, 'species missing in the log', name=p.name)
        ctx.check('Initial states' in text and 'Final states' in text, 'sections missing in the log')
        ctx.check(shown == text or text in shown or shown.startswith(text), 'log differs from the terminal output', n=len(text), m=len(shown))
        with open(sibling) as f:
            ctx.check(f.read() == 'keep', 'files beside the output folder are touched')
        compared += len(rows)
        ctx.seen('files', freq, len(d['sp']), d['osc'])
    # without a folder nothing is written
    d = contents(r)
    cwd = os.getcwd()
    empty = os.path.join(base, 'empty')
    os.makedirs(empty)
    os.chdir(empty)
    with worlds.quiet():
        u = build(d)
        ctx.code('evolve', u.evolve, d['T1'] * UNITS.MeV)
    ctx.check(os.listdir(empty) == [], 'files written without an output folder', got=os.listdir(empty))
    os.chdir(cwd)
    ctx.require('rows', compared, 80)


CHILD = '''
import sys, os, json, io
sys.path.insert(0, {verif!r})
from lib.boot import boot
boot('release')
from checks import c21
from common import UNITS
d = json.loads({d!r})
d['sp'] = [tuple(s) for s in d['sp']]
u = c21.build(d, {folder!r})
u.export_freq = {freq}
def mon(v):
    if len(v.data) == {stop}:
        os.kill(os.getpid(), 9)
u.step_monitor = mon
u.evolve(d['T1'] * UNITS.MeV)
'''


@S.job()
def killed(ctx):
    """ the process dies at a random step: the file holds every row up to the last export """
    import numpy as np
    from common import UNITS
    from lib import worlds
    r = ctx.rng
    base = os.environ['VP_SCRATCH']
    n = 0
    for case in range(16 if ctx.thorough else 4):
        d = contents(r)
        freq = r.choice([1, 3, 5, 8])
        with worlds.quiet():
            u = build(d)
            ctx.code('evolve', u.evolve, d['T1'] * UNITS.MeV)
        want = expected(u)
        stop = r.randint(2, len(want) - 1)
        folder = os.path.join(base, 'killed{}'.format(case))
        code = CHILD.format(verif=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d=json.dumps(d), folder=folder, freq=freq, stop=stop)
        rc = subprocess.run([PY, '-W', 'ignore', '-c', code], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        ctx.check(rc == -9, 'interrupted run ended by itself', rc=rc)
        p = os.path.join(folder, 'evolution.txt')
        k = stop // freq * freq
        rows = read_table(p)[1] if os.path.exists(p) else []
        ctx.check(len(rows) == k and (k == 0 or np.allclose(rows, want[:k], rtol=1e-9, atol=0)), 'rows surviving an interruption', got=len(rows), want=k, stop=stop, freq=freq)
        n += k > 0
        ctx.seen('killed', freq, k > 0)
    ctx.require('interruptions after an export', n, 1)


@S.job(env=dict(MAX_MOMENTUM_MEV='5'))
def heavy(ctx):
    """ collision terms of a universe do not remember the heavy neutrinos of earlier ones """
    import random
    import numpy as np
    from common import UNITS, CONST, kinematics
    from checks import c15
    r = ctx.rng
    n = 0

    class Frozen(object):
        """ the same random choices each time """
        def __init__(self, seed):
            self.rng = random.Random(seed)
            self.code = ctx.code

    def terms(seed, masses, setup, sterile, a_ini):
        kinematics.decoupling_temperature(*setup)
        w = c15.World(Frozen(seed), masses, (1, 1, 1, 1), [(1., 0.), (.8, 0.), (1.1, 0.), (.9, 0.)], samples=(31,), T=T)
        w.par.a_ini = a_ini * w.par.a
        if sterile:
            w.sp[0].name = 'Sterile neutrino (Dirac)'
        out = []
        for i in (0, 1, 2):
            perm = [i] + [j for j in (1 - i, 2, 3)] if i < 2 else [2, 3, 0, 1]
            inter = c15.process(w, perm, [-1, -1, 1, 1], [(32 * CONST.G_F ** 2, 0., (0, 1, 2, 3))])
            out += [np.array(v) for v in ctx.code('integrate', inter.integrate, w.sp[i].grid.TEMPLATE.copy(), stepsize=1e-30)]
        return out
    for case in range(24 if ctx.thorough else 8):
        T = math.exp(r.uniform(math.log(1.5), math.log(20)))
        ths = r.choice([1e-2, 1e-3])
        heavy, light = (900 * UNITS.MeV, ths), (.5 * UNITS.MeV, 1e-4)
        mine, theirs = (heavy, light) if r.random() < .7 else (light, heavy)
        a = (r.randint(0, 10 ** 9), r.choice([(0, 0, 0, 0), (1., 0, 0, 1.)]), mine, r.random() < .5, 1 / r.choice([20., 30.]))
        b = (r.randint(0, 10 ** 9), (r.choice([2., 5.]), 0, 0, 0), theirs, True, 1.)
        one = terms(*a)
        terms(*b)
        two = terms(*a)
        ctx.check(all(np.array_equal(x, y) for x, y in zip(one, two)), 'collision terms remember the heavy neutrino of another universe', case=(a, b),
                  dif=[float(np.max(np.abs(x - y))) for x, y in zip(one, two)])
        n += any(np.any(x) for x in one)
        ctx.seen('heavy', a[3], mine is heavy, a[1])
    ctx.require('non-vanishing collision terms', n, 3)
    # a run in progress, when the decoupling of another heavy neutrino is worked out
    heavy, light = (900 * UNITS.MeV, 1e-2), (.5 * UNITS.MeV, 1e-4)
    for mine, theirs in ((heavy, light), (light, heavy)):
        T = 3.
        kinematics.decoupling_temperature(*mine)
        w = c15.World(Frozen(5), (2., 0, 0, 0), (1, 1, 1, 1), [(1., 0.), (.8, 0.), (1.1, 0.), (.9, 0.)], samples=(31,), T=T)
        w.par.a_ini = w.par.a / 30.
        w.sp[0].name = 'Sterile neutrino (Dirac)'
        both = []
        for k in range(2):
            inter = c15.process(w, [0, 1, 2, 3], [-1, -1, 1, 1], [(32 * CONST.G_F ** 2, 0., (0, 1, 2, 3))])
            both.append([np.array(v) for v in ctx.code('integrate', inter.integrate, w.sp[0].grid.TEMPLATE.copy(), stepsize=1e-30)])
            kinematics.decoupling_temperature(*theirs)
        ctx.check(all(np.array_equal(x, y) for x, y in zip(*both)), 'decoupling of another heavy neutrino changes a run in progress', mine=mine, theirs=theirs)


if __name__ == '__main__':
    main(S)
