"""C17: the native kernels are free of memory errors, undefined behaviour and races; results do not depend on threads."""
import math
import os, sys
import re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C17', 'distinct = (kernel, type of reaction, masses, statistics, number of momenta, team size); non-trivial = a kernel call in which several threads evaluated non-vanishing integrands',
          assumptions=['the sanitizer builds compile the unmodified sources of the tree against stand-in GSL and Python binding headers; ThreadSanitizer runs on an instrumented OpenMP runtime'])

ASAN = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:check_initialization_order=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=66', OMP_NUM_THREADS='4')
TSAN = dict(TSAN_OPTIONS='exitcode=66:halt_on_error=0:report_signal_unsafe=0:ignore_noninstrumented_modules=1', OMP_NUM_THREADS='4', VP_JITTER='1')

VALGRIND = ['valgrind', '-q', '--error-limit=no', '--num-callers=30', '--undef-value-errors=yes', '--fair-sched=yes']


def memcheck_report(err):
    """ the first report of valgrind that involves the native kernels (the interpreter has some of its own) """
    block = []
    for line in err.splitlines() + ['==0== ']:
        m = re.match(r'==\d+== ?(.*)', line)
        if m and m.group(1).strip():
            block.append(m.group(1))
            continue
        text = '\n'.join(block)
        block = []
        if re.search(r'uninitialised|Invalid (read|write|free)|Mismatched free|Source and destination overlap|points to un', text) and re.search(r'_cpp_integral|integral\.cpp|Ds\.cpp|integral\.h', text):
            return text
    return None


SCAT = [(0, 0, 0, 0), (0, 0, 1., 1.), (0, 1., 0, 1.), (1., 1., 2., 0.), (2.5, 0, 0, 1.), (1., .5, .7, 1.2), (2., 2., 0., 0.), (0, .5, 1.5, 0)]
DEC4 = [(4.5, 0, 0, 0), (5., 0, 1., 1.), (6., 1., .5, 1.5), (5., 1., 0, 0)]
DEC3 = [(4., 0, 0), (4., 1., 0), (5., 1.5, 2.), (3., 1., 1.2), (8., 0., 5.)]


def workload(ctx, cases, coarse=True):
    """ yields (kind, species index, masses, eta, integral, scale) for random processes built through the public interface """
    import numpy as np
    from checks import c15
    r = ctx.rng
    for case in range(cases):
        kind = ('scattering', 'decay', 'three')[case % 3]
        masses = [x * r.uniform(.9, 1.1) for x in r.choice(dict(scattering=SCAT, decay=DEC4, three=DEC3)[kind])]
        if kind == 'three':
            masses[0] *= 1.2
        eta = [r.choice([1, -1]) if x > .3 else 1 for x in masses]
        sides = dict(scattering=(-1, -1, 1, 1), decay=(-1, 1, 1, 1), three=(-1, 1, 1))[kind]
        shapes = [(r.uniform(.7, 1.3), r.uniform(-2, -.3)) for _ in masses]
        eq = [i for i in range(1, len(masses)) if r.random() < .25]
        w = c15.World(ctx, masses, eta, shapes, eq=eq, samples=(9, 13, 17, 24) if coarse else (41, 61), top=r.choice([12., 20.]))
        if r.random() < .4:            # empty stretches of the distribution
            i = r.randrange(len(masses))
            if i not in eq:
                k = r.randrange(1, len(w.sp[i]._distribution))
                w.sp[i]._distribution[k:] = 0.
        Ms = (w.T ** 2 * 1e-20) if kind == 'three' else c15.matrix_elements(r)
        for i, perm in c15.views(sides):
            if i in eq:
                continue
            inter = c15.process(w, perm, sides, Ms, three=kind == 'three')
            yield kind, i, masses, eta, inter, w


def evaluate(ctx, inter, stepsize):
    import numpy as np
    C, B = ctx.code('integrate', inter.integrate, inter.particle.grid.TEMPLATE.copy(), stepsize=stepsize)
    return np.array(C, dtype=float), np.array(B, dtype=float)


def drive(ctx, cases, key):
    import numpy as np
    n = 0
    for kind, i, masses, eta, inter, w in workload(ctx, cases):
        held = [p._distribution.copy() for p in w.sp]
        C, B = evaluate(ctx, inter, 1e-30)
        ctx.check(np.all(np.isfinite(C)) and np.all(np.isfinite(B)), 'undefined collision integral', kind=kind, masses=masses)
        ctx.check(all(np.array_equal(a, p._distribution) for a, p in zip(held, w.sp)), 'collision integral changed a distribution', kind=kind)
        live = int(np.sum(B != 0))
        n += live >= 4
        ctx.seen(key, kind, i, tuple(x > 0 for x in masses), tuple(eta), len(C))
        ctx.stat('non-vanishing momenta', live)
    ctx.require('multi-threaded evaluations', n, cases // 2)


def scalar_kernels(ctx, cases):
    """ hostile arguments of the interpolation and of the kernels """
    import numpy as np
    import interactions.four_particle.cpp.integral as K4
    r = ctx.rng
    for case in range(cases):
        n = r.choice([1, 2, 3, 5, 17, 64])
        g = sorted(r.uniform(0, 20) for _ in range(n))
        d = [r.choice([0., 1e-300, 1e-30, r.random(), .5, 1.]) for _ in range(n)]
        for p in [g[0], g[-1], g[-1] * 1.5 + 1, (g[0] + g[-1]) / 2, r.choice(g), 1e30 if r.random() < .1 else g[-1] + .1]:
            v = K4.distribution_interpolation(g, d, p, r.choice([0., 1., 100.]), r.choice([1, -1]), r.uniform(.1, 10), r.random() < .2)
            ctx.check(v >= 0 and math.isfinite(v), 'interpolation undefined', grid=g, d=d, p=p, got=v)
            lo, hi = K4.binary_find(g, p)
            ctx.check(-1 <= lo < n and -1 <= hi < n and (lo, hi) != (-1, -1), 'index outside of the grid', lo=lo, hi=hi, n=n)
        ctx.seen('interpolation', n)
        m = [r.choice([0., r.uniform(0, 5)]) for _ in range(4)]
        p = [r.choice([0., 1e-12, r.uniform(0, 9), 1e4]) for _ in range(4)]
        E = [math.hypot(a, b) for a, b in zip(p, m)]
        order = [0, 1, 2, 3]
        r.shuffle(order)
        sides = r.choice([[-1, -1, 1, 1], [-1, 1, 1, 1], [-1, -1, -1, 1]])
        v = K4.D(p, E, m, r.random(), r.random(), order, sides), K4.Db(p, E, m, r.random(), r.random(), order, sides)
        ctx.check(True, 'kernels')
        ctx.seen('kernels', tuple(x == 0 for x in p), tuple(sides))


@S.job(variant='asan', env=ASAN, preload=['libasan.so', 'libstdc++.so.6'], stderr_scan='runtime error', timeout=800)
def memory(ctx):
    scalar_kernels(ctx, 400 if ctx.thorough else 120)
    drive(ctx, 120 if ctx.thorough else 15, 'asan')


@S.job(variant='tsan', env=TSAN, preload=['libtsan.so'], stderr_scan='WARNING: ThreadSanitizer', timeout=800)
def races(ctx):
    drive(ctx, 60 if ctx.thorough else 9, 'tsan')


@S.job(variant='tsan', env=dict(TSAN, OMP_NUM_THREADS='7', VP_JITTER='5'), preload=['libtsan.so'], stderr_scan='WARNING: ThreadSanitizer', timeout=800, name='races_7')
def races_7(ctx):
    drive(ctx, 60 if ctx.thorough else 6, 'tsan7')


@S.job(variant='memcheck', wrap=VALGRIND, env=dict(PYTHONMALLOC='malloc', OMP_NUM_THREADS='2'), stderr_scan=memcheck_report, timeout=850)
def uninitialised(ctx):
    """ no result and no branch depends on memory that was never written """
    scalar_kernels(ctx, 60 if ctx.thorough else 10)
    drive(ctx, 12 if ctx.thorough else 3, 'memcheck')


@S.job(env=dict(OMP_NUM_THREADS='4', MALLOC_ARENA_MAX='1'))
def kept(ctx):
    """ a finished evaluation keeps no memory: the heap in use does not grow with the number of evaluations """
    import ctypes
    import gc
    libc = ctypes.CDLL('libc.so.6')

    class Info(ctypes.Structure):
        _fields_ = [(k, ctypes.c_size_t) for k in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]
    libc.mallinfo2.restype = Info

    def used():
        gc.collect()
        i = libc.mallinfo2()
        return i.uordblks + i.hblkhd
    n = 0
    rounds = 6
    for kind, i, masses, eta, inter, w in workload(ctx, 30 if ctx.thorough else 9):
        C, B = evaluate(ctx, inter, 1e-30)
        evaluate(ctx, inter, 1e-30)
        before = used()
        for _ in range(rounds):
            evaluate(ctx, inter, 1e-30)
        growth = (used() - before) / rounds / len(C)
        ctx.check(growth < 2000, 'memory kept after the evaluation:' + kind, bytes_per_momentum=growth, masses=masses)
        ctx.stat('bytes kept per momentum', growth)
        ctx.seen('kept', kind, i, tuple(x > 0 for x in masses), len(C))
        n += C.any() or B.any()
    ctx.require('processes', n, 8)


@S.job(env=dict(OMP_NUM_THREADS='8'))
def threads(ctx):
    """ every team size, twice, gives the same bits as a single thread """
    import ctypes
    import numpy as np
    omp = ctypes.CDLL('libgomp.so.1')
    n = 0
    for kind, i, masses, eta, inter, w in workload(ctx, 60 if ctx.thorough else 12, coarse=not ctx.thorough):
        omp.omp_set_num_threads(1)
        C, B = evaluate(ctx, inter, 1e-30)
        for team in (2, 3, 5, 8, 13, 8, 1):
            omp.omp_set_num_threads(team)
            c, b = evaluate(ctx, inter, 1e-30)
            ctx.check(np.array_equal(c, C) and np.array_equal(b, B), 'result depends on the number of threads:' + kind, team=team, masses=masses,
                      worst=float(np.max(np.abs(c - C))), scale=float(np.max(np.abs(C))))
            ctx.seen('team', kind, team, len(C))
        n += bool(np.any(B != 0))
    ctx.require('processes', n, 10)


@S.job(env=dict(OMP_NUM_THREADS='3'))
def independence(ctx):
    """ the value at a momentum does not depend on which other momenta are evaluated with it, nor on their order """
    import numpy as np
    import interactions.four_particle as F4
    import interactions.three_particle as F3
    r = ctx.rng
    calls = []

    def tap(mod, name):
        real = getattr(mod, name, None)
        if real is None:
            return
        def f(*a):
            calls.append((real, a))
            return real(*a)
        setattr(mod, name, f)
    tap(F4, 'integration')
    tap(F3, 'integration_3')
    n = 0
    for kind, i, masses, eta, inter, w in workload(ctx, 90 if ctx.thorough else 24):
        del calls[:]
        evaluate(ctx, inter, 1e-30)
        for real, a in calls[:2]:
            ps = list(a[0])
            ref = list(real(*a))
            perm = list(range(len(ps)))
            r.shuffle(perm)
            got = list(real([ps[k] for k in perm], *a[1:]))
            bad = [k for j, k in enumerate(perm) if got[j] != ref[k]]
            ctx.check(len(got) == len(ps) and not bad, 'value depends on the other momenta:' + kind, masses=masses, bad=bad, n=len(ps))
            k = r.randrange(len(ps))
            one = list(real([ps[k]], *a[1:]))
            ctx.check(len(one) == 1 and one[0] == ref[k], 'value depends on the other momenta:' + kind, masses=masses, k=k, got=one, want=ref[k])
            sub = sorted(r.sample(range(len(ps)), max(1, len(ps) // 3)))
            got = list(real([ps[k] for k in sub], *a[1:]))
            ctx.check(got == [ref[k] for k in sub], 'value depends on the other momenta:' + kind, masses=masses, subset=sub)
            ctx.check(len(list(real([], *a[1:]))) == 0, 'no momenta')
            n += any(v != 0 for v in ref)
            ctx.seen('subset', kind, i, len(ps), tuple(x > 0 for x in masses))
    if calls:
        ctx.require('processes', n, 15)


if __name__ == '__main__':
    main(S)
