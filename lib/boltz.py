"""Reference collision integrals from covariant phase space (quasi Monte Carlo over vectors; nothing in common with the reduced kernels).

All in physical units.  A reaction is 0 + [others on the left] <-> [others on the right]; `M2` is a function of the four-momenta,
`f` a list of occupation functions of |p|, `eta` +1 for fermions and -1 for bosons.  Results are pairs
(gain A, loss coefficient B) of df0/dt = A + B f0 for one degree of freedom of particle 0 and unit dof factor.
"""
import numpy as np
from scipy.stats import qmc


def sobol(n, d, seed):
    return qmc.Sobol(d, scramble=True, seed=seed).random(n)


def mdot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]


def mom(v):
    return np.sqrt(v[1] ** 2 + v[2] ** 2 + v[3] ** 2)


def direction(c, phi):
    s = np.sqrt(np.maximum(1 - c * c, 0))
    return s * np.cos(phi), s * np.sin(phi), c


def boost(P, v):
    """ take v from the rest frame of P (time-like) to the frame where P is given """
    M = np.sqrt(np.maximum(mdot(P, P), 1e-300))
    pv = P[1] * v[1] + P[2] * v[2] + P[3] * v[3]
    E = (P[0] * v[0] + pv) / M
    k = (pv / (P[0] + M) + v[0]) / M
    return [E, v[1] + k * P[1], v[2] + k * P[2], v[3] + k * P[3]]


def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * a * b - 2 * a * c - 2 * b * c


def two_body(P, m1, m2, c, phi):
    """ two-body phase space of P: momenta of the products for given angles in the rest frame, and the weight (integrates to Phi_2) """
    s = np.maximum(mdot(P, P), 1e-300)
    M = np.sqrt(s)
    ok = M > m1 + m2
    q = np.sqrt(np.where(ok, np.maximum(kallen(s, m1 ** 2, m2 ** 2), 0), 0)) / (2 * M)
    x, y, z = direction(c, phi)
    a = [np.sqrt(q * q + m1 * m1), q * x, q * y, q * z]
    b = [np.sqrt(q * q + m2 * m2), -q * x, -q * y, -q * z]
    return boost(P, a), boost(P, b), np.where(ok, q / (4 * np.pi * M), 0.)


def statistical(sides, eta, fs, vectors):
    """ (F_1, F_f): the parts of the statistical factor without and with f0 """
    out, back = 1., 1.
    for s, e, f, v in zip(sides[1:], eta[1:], fs[1:], vectors[1:]):
        val = f(mom(v))
        out = out * (val if s < 0 else 1 - e * val)
        back = back * (val if s > 0 else 1 - e * val)
    return back, -out - eta[0] * back


def first(p0, m0, n):
    one = np.ones(n)
    return [np.sqrt(p0 ** 2 + m0 ** 2) * one, 0 * one, 0 * one, p0 * one]


def scattering(p0, m, eta, fs, M2, p1max, n=1 << 14, seed=1, parts=None):
    """ 0 + 1 <-> 2 + 3 """
    parts = parts or statistical
    u = sobol(n, 4, seed)
    P0 = first(p0, m[0], n)
    p1 = p1max * u[:, 0] ** 2
    jac = 2 * p1max * u[:, 0]
    x, y, z = direction(2 * u[:, 1] - 1, 0.)
    E1 = np.sqrt(p1 ** 2 + m[1] ** 2)
    P1 = [E1, p1 * x, p1 * y, p1 * z]
    P = [a + b for a, b in zip(P0, P1)]
    P2, P3, w = two_body(P, m[2], m[3], 2 * u[:, 2] - 1, 2 * np.pi * u[:, 3])
    with np.errstate(divide='ignore', invalid='ignore'):
        w = w * jac * 4 * np.pi * p1 ** 2 / ((2 * np.pi) ** 3 * 2 * E1)
    w = np.where(np.isfinite(w) & (w > 0), w, 0.) / (2 * P0[0])
    V = [P0, P1, P2, P3]
    A, B = parts((-1, -1, 1, 1), eta, fs, V)
    w = w * M2(V)
    return np.mean(np.where(w > 0, w * A, 0)), np.mean(np.where(w > 0, w * B, 0))


def decay(p0, m, eta, fs, M2, n=1 << 14, seed=1, parts=None):
    """ 0 <-> 1 + 2 + 3 """
    parts = parts or statistical
    u = sobol(n, 5, seed)
    P0 = first(p0, m[0], n)
    lo, hi = m[2] + m[3], m[0] - m[1]
    if hi <= lo:
        return 0., 0.
    mu = lo + (hi - lo) * u[:, 0]
    x, y, z = direction(2 * u[:, 1] - 1, 2 * np.pi * u[:, 2])
    s = m[0] ** 2
    q = np.sqrt(np.maximum(kallen(s, m[1] ** 2, mu ** 2), 0)) / (2 * m[0])
    a = [np.sqrt(q * q + m[1] ** 2), q * x, q * y, q * z]
    b = [np.sqrt(q * q + mu ** 2), -q * x, -q * y, -q * z]
    w1 = q / (4 * np.pi * m[0])
    P1, R = boost(P0, a), boost(P0, b)
    P2, P3, w2 = two_body(R, m[2], m[3], 2 * u[:, 3] - 1, 2 * np.pi * u[:, 4])
    w = w1 * w2 * (hi - lo) * 2 * mu / (2 * np.pi) / (2 * P0[0])
    V = [P0, P1, P2, P3]
    A, B = parts((-1, 1, 1, 1), eta, fs, V)
    w = w * M2(V)
    return np.mean(w * A), np.mean(w * B)


def creation(p0, m, eta, fs, M2, p3max, n=1 << 14, seed=1, parts=None):
    """ 0 + 1 + 2 <-> 3, with the momentum of 3 restricted to p3max """
    parts = parts or statistical
    u = sobol(n, 4, seed)
    P0 = first(p0, m[0], n)
    E3max = np.sqrt(p3max ** 2 + m[3] ** 2)
    e1max = E3max - P0[0][0] - m[2]
    if e1max <= m[1]:
        return 0., 0.
    E1 = m[1] + (e1max - m[1]) * u[:, 0] ** 2
    j1 = 2 * (e1max - m[1]) * u[:, 0]
    p1 = np.sqrt(np.maximum(E1 ** 2 - m[1] ** 2, 0))
    x, y, z = direction(2 * u[:, 1] - 1, 0.)
    P1 = [E1, p1 * x, p1 * y, p1 * z]
    P = [a + b for a, b in zip(P0, P1)]
    Pm = mom(P)
    s = np.maximum(mdot(P, P), 0)
    e2max = E3max - P[0]
    kappa = (m[3] ** 2 - s - m[2] ** 2) / 2
    # the energy of 2 lies between lo and hi (massless limit without cancellation), and below what p3max allows
    disc = kappa ** 2 - m[2] ** 2 * s
    ok = (disc > 0) & (kappa > 0) & (p1 > 0)
    big = P[0] * kappa + Pm * np.sqrt(np.where(ok, disc, 0))
    with np.errstate(divide='ignore', invalid='ignore'):
        lo = np.where(ok, (kappa ** 2 + m[2] ** 2 * Pm ** 2) / big, m[2])
        hi = np.where(ok, np.where(s > 1e-12 * P[0] ** 2, big / s, np.inf), m[2])
    hi = np.minimum(hi, e2max)
    ok = ok & (hi > lo)
    E2 = np.where(ok, lo + (hi - lo) * u[:, 2] ** 2, m[2])
    j2 = np.where(ok, 2 * (hi - lo) * u[:, 2], 0.)
    p2 = np.sqrt(np.maximum(E2 ** 2 - m[2] ** 2, 0))
    with np.errstate(divide='ignore', invalid='ignore'):
        c = (P[0] * E2 - kappa) / (Pm * p2)
    ok = ok & np.isfinite(c)
    c = np.clip(c, -1, 1)
    c = np.where(ok, c, 0.)
    phi = 2 * np.pi * u[:, 3]
    # direction relative to P: P lies in the x-z plane
    n3 = [np.where(Pm > 0, P[i] / np.where(Pm > 0, Pm, 1), float(i == 3)) for i in (1, 2, 3)]
    e1 = [n3[2], 0 * Pm, -n3[0]]
    e2 = [0 * Pm, 1 + 0 * Pm, 0 * Pm]
    sn = np.sqrt(np.maximum(1 - c * c, 0))
    P2 = [E2] + [p2 * (sn * np.cos(phi) * a + sn * np.sin(phi) * b + c * d) for a, b, d in zip(e1, e2, n3)]
    P3 = [a + b for a, b in zip(P, P2)]
    # d^3p1 / ((2 pi)^3 2 E1) -> 4 pi p1 dE1 <.> / (2 (2 pi)^3);  d^3p2 / ((2 pi)^3 2 E2) 2 pi delta(...) -> dE2 dphi / ((2 pi)^2 4 |P|)
    with np.errstate(divide='ignore', invalid='ignore'):
        w = j1 * 4 * np.pi * p1 / (2 * (2 * np.pi) ** 3) * j2 * 2 * np.pi / ((2 * np.pi) ** 2 * 4 * Pm) / (2 * P0[0])
    V = [P0, P1, P2, P3]
    w = np.where(ok, w, 0.)
    A, B = parts((-1, -1, -1, 1), eta, fs, V)
    w = w * M2(V)
    return np.mean(np.where(ok, w * A, 0)), np.mean(np.where(ok, w * B, 0))


def matrix(Ms, m):
    """ sum of K1 (pi.pj)(pk.pl) + K2 mi mj (pk.pl) """
    def M2(V):
        t = 0.
        for K1, K2, (i, j, k, l) in Ms:
            kl = mdot(V[k], V[l])
            t = t + K1 * mdot(V[i], V[j]) * kl + K2 * m[i] * m[j] * kl
        return t
    return M2


_gx, _gw = np.polynomial.legendre.leggauss(64)


def three_decay(p0, m, eta, fs, K, parts=None):
    """ 0 <-> 1 + 2, constant matrix element """
    parts = parts or statistical
    lam = kallen(m[0] ** 2, m[1] ** 2, m[2] ** 2)
    if m[0] <= m[1] + m[2]:
        return 0., 0.
    P0 = first(p0, m[0], len(_gx))
    P1, P2, w = two_body(P0, m[1], m[2], _gx, 0 * _gx)
    A, B = parts((-1, 1, 1), eta, fs, [P0, P1, P2])
    w = K * w / (2 * P0[0]) * _gw / 2
    return np.sum(w * A), np.sum(w * B)


def three_creation(p0, m, eta, fs, K, p2max, parts=None):
    """ 0 + 1 <-> 2, constant matrix element, with the momentum of 2 restricted to p2max """
    parts = parts or statistical
    E0 = np.sqrt(p0 ** 2 + m[0] ** 2)
    if m[2] <= m[0] + m[1]:
        return 0., 0.
    if m[0] > 0:
        q = np.sqrt(kallen(m[2] ** 2, m[0] ** 2, m[1] ** 2)) / (2 * m[0])
        e = np.sqrt(q * q + m[1] ** 2)
        lo, hi = (E0 * e - p0 * q) / m[0], (E0 * e + p0 * q) / m[0]
        if p0 == 0:
            P0, one = first(0., m[0], 1), np.ones(1)
            P1 = [e * one, 0 * one, 0 * one, q * one]
            P2 = [(E0 + e) * one, 0 * one, 0 * one, q * one]
            A, B = parts((-1, -1, 1), eta, fs, [P0, P1, P2])
            w = K * q / (8 * np.pi * m[0] ** 2)
            return float(np.sum(w * A)), float(np.sum(w * B))
    else:
        if p0 == 0:
            return 0., 0.
        kap = (m[2] ** 2 - m[1] ** 2) / (2 * p0)
        lo, hi = (kap ** 2 + m[1] ** 2) / (2 * kap), np.inf
    hi = min(hi, np.sqrt(p2max ** 2 + m[2] ** 2) - E0)
    if hi <= lo:
        return 0., 0.
    tot = [0., 0.]
    edges = np.linspace(lo, hi, 33)
    for a, b in zip(edges[:-1], edges[1:]):
        E1 = .5 * (b - a) * _gx + .5 * (a + b)
        p1 = np.sqrt(np.maximum(E1 ** 2 - m[1] ** 2, 0))
        p2 = np.sqrt(np.maximum((E0 + E1) ** 2 - m[2] ** 2, 0))
        z = 0 * E1
        V = [first(p0, m[0], len(E1)), [E1, z, z, p1], [E0 + E1, z, z, p2]]
        A, B = parts((-1, -1, 1), eta, fs, V)
        w = K / (16 * np.pi * E0 * p0) * .5 * (b - a) * _gw
        tot[0] += np.sum(w * A)
        tot[1] += np.sum(w * B)
    return tot[0], tot[1]
