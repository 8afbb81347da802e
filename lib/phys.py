"""Independent reference formulae (no import of the code under test)."""
import numpy as np

_x, _w = np.polynomial.legendre.leggauss(48)


def panels(f, edges):
    """ Composite Gauss-Legendre quadrature of a vectorised function """
    edges = np.asarray(edges, dtype=float)
    total = 0.
    for a, b in zip(edges[:-1], edges[1:]):
        if b > a:
            xs = 0.5 * (b - a) * _x + 0.5 * (a + b)
            total += 0.5 * (b - a) * np.dot(_w, f(xs))
    return total


def edges_thermal(mT):
    """ Panels covering u = p/T for a thermal distribution with mass m = mT * T """
    top = np.sqrt((mT + 60.) ** 2 - mT ** 2)
    scale = max(1., np.sqrt(mT))
    e = np.concatenate([np.linspace(0, 8 * scale, 17), np.linspace(8 * scale, top, 17)[1:]]) if top > 8 * scale \
        else np.linspace(0, top, 25)
    return e


def occupation(u, mT, eta):
    """ f(E/T) with E/T = sqrt(u^2 + mT^2); eta = +1 fermion, -1 boson; no overflow, exact small-argument boson """
    e = np.sqrt(u * u + mT * mT)
    if eta > 0:
        return np.exp(-e) / (1. + np.exp(-e))
    return np.exp(-e) / -np.expm1(-e)


def thermo(g, m, T, eta):
    """ number density, energy density, pressure, entropy density of an ideal quantum gas (mu = 0) """
    mT = m / T
    ed = edges_thermal(mT)
    E = lambda u: np.sqrt(u * u + mT * mT)
    c = g / (2 * np.pi ** 2)
    n = c * T ** 3 * panels(lambda u: u ** 2 * occupation(u, mT, eta), ed)
    rho = c * T ** 4 * panels(lambda u: u ** 2 * E(u) * occupation(u, mT, eta), ed)
    P = c * T ** 4 / 3 * panels(lambda u: u ** 4 / np.where(u + mT > 0, E(u), 1) * occupation(u, mT, eta), ed)
    return n, rho, P, (rho + P) / T


def dthermo(g, m, T, eta):
    """ d rho / dT of an ideal quantum gas """
    mT = m / T
    ed = edges_thermal(mT)
    E = lambda u: np.sqrt(u * u + mT * mT)
    f = lambda u: occupation(u, mT, eta)
    # df/dT at fixed p = f (1 - eta f) E / T^2 ; in units of T
    return g / (2 * np.pi ** 2) * T ** 3 * panels(lambda u: u ** 2 * E(u) ** 2 * f(u) * (1 - eta * f(u)), ed)
