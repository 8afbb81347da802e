"""C08: quadratures are exact where they claim to be and respect the algebra of integrals."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main

S = Suite('C08', 'distinct = (rule, order, integrand family, kind of bounds); non-trivial = a non-constant integrand with a closed-form integral',
          assumptions=['settings of the quadrature order are fixed before the modules are imported'])


def polys(r, deg):
    """ Legendre-like polynomial in u = (x - c) / s with coefficients of order one, and its antiderivative """
    import numpy as np
    c, s = r.uniform(-2, 2), r.uniform(.5, 3)
    co = np.array([r.uniform(-1, 1) for _ in range(deg + 1)])
    P = np.polynomial.chebyshev.Chebyshev(co)
    Q = P.integ()
    return (lambda x: P((x - c) / s)), (lambda x: s * Q((x - c) / s)), c, s, np.sum(np.abs(co))


def body(ctx, order, lag):
    import numpy as np
    from common import integrators as I
    from common.integrators import gauss_laguerre, gauss_legendre, paired
    r = ctx.rng
    n = 2500 if ctx.thorough else 400
    ctx.check(len(gauss_legendre.points) == order, 'legendre order', got=len(gauss_legendre.points), want=order)
    ctx.check(len(gauss_laguerre.points) == lag, 'laguerre order', got=len(gauss_laguerre.points), want=lag)
    for i in range(n):
        deg = r.choice([0, 1, 2, 3, 7, min(2 * order - 1, 30), min(2 * order - 1, r.randint(0, 40))])
        f, F, c, s, size = polys(r, deg)
        a, b = c + s * r.uniform(-1, 1), c + s * r.uniform(-1, 1)
        det = dict(deg=deg, a=a, b=b, order=order)
        g = ctx.code('gaussian', I.gaussian, f, a, b)
        ctx.check(abs(g - (F(b) - F(a))) <= 1e-11 * size * (s + abs(b - a)), 'polynomial', got=float(g), want=float(F(b) - F(a)), **det)
        ctx.check(abs(g + I.gaussian(f, b, a)) <= 1e-12 * size * s, 'reversal', **det)
        m = c + s * r.uniform(-1, 1)
        ctx.check(abs(I.gaussian(f, a, m) + I.gaussian(f, m, b) - g) <= 1e-11 * size * s, 'additivity', **det)
        ctx.check(I.gaussian(f, a, a) == 0, 'empty interval', **det)
        h, H, _, _, size2 = polys(r, 3)
        al, be = r.uniform(-3, 3), r.uniform(-3, 3)
        big = size + size2 * 200
        ctx.check(abs(I.gaussian(lambda x: al * f(x) + be * h(x), a, b) - al * g - be * I.gaussian(h, a, b)) <= 1e-10 * big * s, 'linearity', **det)
        v, e = ctx.code('integrate_1D', I.integrate_1D, f, (a, b))
        ctx.check(abs(v - (F(b) - F(a))) <= 1e-9 * size * s, 'integrate_1D', got=float(v), want=float(F(b) - F(a)), **det)
        # decorator: integrates the returned function of momentum over the given bounds
        dec = I.lambda_integrate((a, b))(lambda k: (lambda x: k * f(x)))
        ctx.check(abs(ctx.code('lambda_integrate', dec, 2.5) - 2.5 * (F(b) - F(a))) <= 1e-9 * size * s, 'lambda_integrate', **det)
        # two integrands at once
        v1, v2 = ctx.code('paired', paired.integrate_1D, lambda x: np.array([f(x), al * f(x)]), (a, b))
        ctx.check(abs(v1 - g) <= 1e-11 * size * s and abs(v2 - al * g) <= 1e-10 * size * s, 'paired 1D', **det)
        ctx.seen('1D', order, deg, 'reversed' if b < a else 'ordered')
        # --- two dimensions, inner bounds depending on the outer variable
        p1, p2 = r.randint(0, 4), r.randint(0, 4)
        A, B = r.uniform(-1, 1), r.uniform(1, 2)
        u0, u1, w0, w1 = (r.uniform(-1, 1) for _ in range(4))
        lo, hi = (lambda x: u0 + u1 * x), (lambda x: w0 + w1 * x ** 2)
        if order > 8:
            X = np.polynomial.polynomial.Polynomial([0, 1])
            inner = (Poly(w0, 0, w1) ** (p2 + 1) - Poly(u0, u1) ** (p2 + 1)) / (p2 + 1) * X ** p1
            Q = inner.integ()
            want = Q(B) - Q(A)
            got, _ = ctx.code('integrate_2D', I.integrate_2D, lambda x, y: x ** p1 * y ** p2, ((A, B), (lo, hi)))
            size3 = 1 + np.sum(np.abs(inner.coef)) * 2. ** len(inner.coef)
            ctx.check(abs(got - want) <= 1e-11 * size3, 'integrate_2D', got=float(got), want=float(want), p=(p1, p2), order=order)
            q1, q2 = ctx.code('paired2D', paired.integrate_2D, lambda x, y: (x ** p1 * y ** p2, 3 * x ** p1 * y ** p2), ((A, B), (lo, hi)))
            ctx.check(abs(q1 - want) <= 1e-11 * size3 and abs(q2 - 3 * want) <= 3e-11 * size3, 'paired 2D', p=(p1, p2), order=order)
            ctx.seen('2D', order, p1, p2)
        # --- semi-infinite: exact for exp(-x) x^k
        k = r.randint(0, min(2 * lag - 1, 25))
        got, _ = ctx.code('laguerre', gauss_laguerre.integrate_1D, lambda x: x ** k)
        from math import factorial
        ctx.close(got, factorial(k), 'laguerre moment', rel=1e-9, k=k, lag=lag)
        w = r.uniform(.2, 2)
        got = ctx.code('laguerre', gauss_laguerre.gaussian, lambda x: np.exp(-w * x))
        if lag >= 60:
            ctx.close(got, 1 / (1 + w), 'laguerre exponential', rel=1e-8, w=w, lag=lag)
        ctx.seen('laguerre', lag, k)
        # --- Simpson on sampled data
        N = 2 * r.randint(3, 60) + 1
        gx = np.sort(np.array([r.uniform(a, b) for _ in range(N)])) if False else np.linspace(min(a, b), max(a, b) + .1, N)
        q = np.array([1., 2., -.5, .3])
        P3 = np.polynomial.polynomial.Polynomial(q)
        v1, v2 = ctx.code('simpson', paired.integrate_1D_simpsons, (P3(gx), gx), gx)
        ctx.close(v1, P3.integ()(gx[-1]) - P3.integ()(gx[0]), 'simpson', rel=1e-9, abs_=1e-9, N=N)
        ctx.close(v2, (gx[-1] ** 2 - gx[0] ** 2) / 2, 'simpson', rel=1e-9, abs_=1e-9, N=N)
        gy = np.linspace(0, 1.5, 2 * r.randint(2, 20) + 1)
        Z = np.outer(gy ** 2, P3(gx))
        v1, v2 = ctx.code('simpson2D', paired.integrate_2D_simpsons, (Z, 2 * Z), (gx, gy))
        want = 1.5 ** 3 / 3 * (P3.integ()(gx[-1]) - P3.integ()(gx[0]))
        ctx.close(v1, want, 'simpson 2D', rel=1e-9, abs_=1e-9, N=N)
        ctx.close(v2, 2 * want, 'simpson 2D', rel=1e-9, abs_=1e-9, N=N)
    # --- the absolute scale of an integrand (a choice of units) changes nothing
    for i in range(20):
        T, sc, un = r.uniform(.8, 5.), 10 ** r.uniform(-30, 20), 10 ** r.uniform(-6, 3)
        v0, _ = I.integrate_1D(lambda p: p ** 2 * np.sqrt(p ** 2 + 1) / (np.exp(p / T) + 1), (0, 60 * T))
        v1, _ = ctx.code('integrate_1D', I.integrate_1D, lambda p: sc * (p / un) ** 2 * np.sqrt((p / un) ** 2 + 1) / (np.exp(p / T / un) + 1), (0, 60 * T * un))
        ctx.close(v1 / sc / un, v0, 'absolute scale of the integrand', rel=1e-7, T=T, scale=sc, unit=un)
        ctx.seen('scale', order, int(np.log10(sc)) // 10)
    # --- thermal integrands over the momentum range
    for i in range(20):
        T = r.uniform(.8, 5.)
        v, _ = I.integrate_1D(lambda p: p ** 3 / (np.exp(p / T) + 1), (0, 60 * T))
        if order >= 40:
            ctx.close(v, 7 / 120. * np.pi ** 4 * T ** 4, 'thermal', rel=1e-9 if order >= 100 else 1e-3, T=T, order=order)


def Poly(*c):
    from numpy.polynomial.polynomial import Polynomial
    return Polynomial(c)


@S.job()
def default_orders(ctx):
    body(ctx, 100, 100)


@S.job(env=dict(GAUSS_LEGENDRE_ORDER=30, GAUSS_LAGUERRE_ORDER=20))
def low_orders(ctx):
    body(ctx, 30, 20)


@S.job(env=dict(GAUSS_LEGENDRE_ORDER=4, GAUSS_LAGUERRE_ORDER=3))
def tiny_orders(ctx):
    body(ctx, 4, 3)


@S.job(env=dict(GAUSS_LEGENDRE_ORDER=200, GAUSS_LAGUERRE_ORDER=150))
def high_orders(ctx):
    body(ctx, 200, 150)


@S.job(env=dict(FIXED_ORDER_1D_QUADRATURE='False'))
def adaptive(ctx):
    body(ctx, 100, 100)


if __name__ == '__main__':
    main(S)
