"""C09: time steppers have their nominal order, for any history, and solve the implicit equation they stand for."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C09', 'distinct = (scheme, order, history length, scalar or array, requested order explicit or not); '
                 'non-trivial = a step compared with an exact integral or with the residual of the implicit equation')


def poly(r, deg):
    from numpy.polynomial.polynomial import Polynomial
    return Polynomial([r.uniform(-1, 1) for _ in range(deg + 1)])


@S.job()
def adams_bashforth(ctx):
    """ order k is exact for derivatives that are polynomials of degree k - 1, whatever the length of the history """
    import numpy as np
    from common import integrators as I
    r = ctx.rng
    ctx.check(I.MAX_ADAMS_BASHFORTH_ORDER == max(I.ADAMS_BASHFORTH_COEFFICIENTS), 'AB:max order')
    for i in range(6000 if ctx.thorough else 1500):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 12])
        explicit = r.random() < .5
        k = r.randint(1, min(n, I.MAX_ADAMS_BASHFORTH_ORDER)) if explicit else min(n, I.MAX_ADAMS_BASHFORTH_ORDER)
        P = poly(r, k - 1)
        Q = P.integ()
        h = r.choice([1., .1, .03, 2.5])
        t = r.uniform(-1, 1)
        vec = r.random() < .4
        amp = np.array([1., -2., .5, 0.]) if vec else 1.
        fs = [P(t - (n - 1 - j) * h) * amp for j in range(n)]
        if explicit and r.random() < .5:      # anything older than the order must not matter
            fs[:n - k] = [np.nan * f for f in fs[:n - k]]
        keep = [np.copy(f) for f in fs]
        got = ctx.code('adams_bashforth', I.adams_bashforth_correction, fs=fs, h=h, **(dict(order=k) if explicit else {}))
        want = (Q(t + h) - Q(t)) * amp
        size = sum(abs(P.coef)) * (1 + (n * h) ** k) * h * 100
        ctx.check(np.all(np.abs(got - want) <= 1e-12 * size), 'AB:polynomial', order=k, n=n, h=h, got=repr(got), want=repr(want), explicit=explicit)
        ctx.check(len(fs) == n and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(fs, keep)), 'AB:history modified')
        ctx.seen('AB', k, n, vec, explicit)
    for n, k in ((1, 2), (3, 5), (4, 6), (2, 4)):
        try:
            I.adams_bashforth_correction(fs=[1.] * n, h=.1, order=k)
            ctx.check(False, 'AB:short history accepted', n=n, k=k)
        except Exception:
            ctx.check(True, 'AB:short history accepted')


@S.job()
def adams_moulton(ctx):
    """ y' = A + B y at the new point and a known history before it: the returned value satisfies the implicit formula """
    import numpy as np
    from common import integrators as I
    r = ctx.rng
    for i in range(6000 if ctx.thorough else 1500):
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 9])
        explicit = r.random() < .4
        top = min(n + 1, I.MAX_ADAMS_MOULTON_ORDER)
        k = r.randint(1, top) if explicit else top
        deg = k - 1
        Y = poly(r, deg + 1)           # exact solution; its derivative has degree k - 1
        D = Y.deriv()
        h = r.choice([.5, .1, .02])
        t = r.uniform(-1, 1)
        B = r.choice([0., 0., -1., -30., .3, -1e4])
        vec = r.random() < .4
        amp = np.array([1., -2., .5]) if vec else 1.
        fs = [D(t - (n - 1 - j) * h) * amp for j in range(n)]
        yn = Y(t + h) * amp
        A = D(t + h) * amp - B * yn
        Bv = np.full(3, B) if vec else B
        if explicit and n > k - 1 and r.random() < .5:
            fs[:n - (k - 1)] = [np.nan * f for f in fs[:n - (k - 1)]]
        keep = [np.copy(f) for f in fs]
        got = ctx.code('adams_moulton', I.adams_moulton_solver, y=Y(t) * amp, fs=fs, A=A, B=Bv, h=h, **(dict(order=k) if explicit else {}))
        size = (sum(abs(Y.coef)) + sum(abs(D.coef))) * 100 * (1 + (n * h) ** k)
        ctx.check(np.all(np.abs(got - yn) <= 1e-11 * size), 'AM:polynomial', order=k, n=n, h=h, B=B, got=repr(got), want=repr(yn), explicit=explicit)
        ctx.check(len(fs) == n and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(fs, keep)), 'AM:history modified')
        ctx.seen('AM', k, n, vec, explicit, B)
    # damping: a stiff decay is damped, never amplified, by the start-up orders
    for B in (-1e-3, -1., -50., -1e3, -1e8):
        for h in (.01, .1, 1.):
            y1 = I.adams_moulton_solver(y=1., fs=[], A=0., B=B, h=h)
            ctx.close(y1, 1 / (1 - h * B), 'AM:backward Euler start', rel=1e-12, B=B, h=h)
            for Bp in (.9, 1.5, 30.):      # growing solutions: the formula is what it is
                ctx.close(I.implicit_euler(y=1., t=0, A=.3, B=Bp / h, h=h), (1 + .3 * h) / (1 - Bp), 'implicit Euler of a growing solution', rel=1e-9, B=Bp, h=h)
            ctx.close(I.implicit_euler(y=1., t=0, A=0., B=B, h=h), 1 / (1 - h * B), 'implicit Euler', rel=1e-12, B=B, h=h)


@S.job()
def one_step(ctx):
    import numpy as np
    from common import integrators as I
    r = ctx.rng
    for i in range(2000 if ctx.thorough else 500):
        y, t, h = r.uniform(-2, 2), r.uniform(-2, 2), r.choice([.001, .1, 1., 3.])
        a, b, c = (r.uniform(-1, 1) for _ in range(3))
        calls = []

        def f(t_, y_):
            calls.append((t_, y_))
            return a + b * t_ + c * y_
        e = ctx.code('euler', I.euler_correction, y=y, t=t, f=f, h=h)
        ctx.close(e, h * (a + b * t + c * y), 'euler', rel=1e-12, abs_=1e-13)
        calls[:] = []
        g = ctx.code('heun', I.heun_correction, y=y, t=t, f=f, h=h)
        k1 = a + b * t + c * y
        k2 = a + b * (t + h) + c * (y + h * k1)
        ctx.close(g, h * (k1 + k2) / 2, 'heun', rel=1e-11, abs_=1e-12)
        # implicit Euler: residual of the implicit equation
        A, B = r.uniform(-5, 5), r.choice([0., -3., -1e5, .2])
        z = ctx.code('implicit_euler', I.implicit_euler, y=y, t=t, A=A, B=B, h=h)
        ctx.check(abs(z - y - h * (A + B * z)) <= 1e-10 * (abs(z) * (1 + h * abs(B)) + abs(y) + h * abs(A)), 'implicit Euler equation', y=y, A=A, B=B, h=h)
        v = I.implicit_euler(y=np.array([y, 0.]), t=t, A=np.array([A, 1.]), B=np.array([B, -1.]), h=h)
        ctx.check(abs(v[0] - z) <= 1e-12 * (1 + abs(z)) and abs(v[1] - h / (1 + h)) < 1e-12, 'implicit Euler array')
        ctx.seen('one step', h, B)


@S.job()
def convergence(ctx):
    """ integrate a non-linear problem with each scheme and observe its order """
    import numpy as np
    from common import integrators as I
    f = lambda t, y: -y ** 2 + np.cos(t)
    from scipy.integrate import solve_ivp
    sol = solve_ivp(f, (0, 2), [.4], rtol=1e-13, atol=1e-14, dense_output=True)
    exact = sol.y[0, -1]

    def run(step, N, k):
        h = 2. / N
        ys = [float(sol.sol(j * h)[0]) for j in range(k)]
        fs = [f(j * h, ys[j]) for j in range(k)]
        y = ys[-1]
        for j in range(k - 1, N):
            y = y + step(y, j * h, fs, h)
            fs.append(f((j + 1) * h, y))
        return y
    schemes = [('euler', 1, lambda y, t, fs, h: I.euler_correction(y, t, f, h)), ('heun', 2, lambda y, t, fs, h: I.heun_correction(y, t, f, h))]
    for k in range(1, I.MAX_ADAMS_BASHFORTH_ORDER + 1):
        schemes.append(('AB%d' % k, k, lambda y, t, fs, h, k=k: I.adams_bashforth_correction(fs=fs, h=h, order=k)))
    schemes.append(('AB', 5, lambda y, t, fs, h: I.adams_bashforth_correction(fs=fs, h=h)))
    for name, order, step in schemes:
        start = 5 if name == 'AB' else order if name.startswith('AB') else 1
        e = [abs(run(step, N, start) - exact) for N in (40, 80)]
        rate = np.log2(e[0] / e[1])
        ctx.check(rate > order - .45, 'convergence order', scheme=name, rate=float(rate), errors=repr(e))
        ctx.stat('order ' + name, rate)
        ctx.seen('convergence', name)


if __name__ == '__main__':
    main(S)
