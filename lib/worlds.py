"""Workload generators: universes of the code under test, run quietly and observed at every step."""
import contextlib
import io
import os
import sys

import numpy as np


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


@contextlib.contextmanager
def settings(**kw):
    """ Temporarily override settings of the code under test through the environment """
    old = {k: os.environ.get(k) for k in kw}
    for k, v in kw.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = str(v)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def spec_particle(i, g, m, eta, **kw):
    """ Equilibrium species with mass m [MeV] """
    from common import UNITS, statistics as ST
    from particles import Particle
    d = dict(name='species {}'.format(i), symbol='s{}'.format(i), mass=m * UNITS.MeV, dof=g,
             statistics=ST.FERMION if eta > 0 else ST.BOSON, Q=0, majorana=False, flavour=None)
    d.update(kw)
    return Particle(**d)


def make_params(T, step, log=True):
    """ T [MeV]; step is dy in the logarithmic mode and dx [MeV] in the linear one """
    from common import UNITS, Params
    if log:
        return Params(T=T * UNITS.MeV, dy=step)
    return Params(T=T * UNITS.MeV, dx=step * UNITS.MeV)


def random_species(rng, T_hi, T_lo, n=None):
    """ [(g, m/MeV, eta)]: a radiation bath and a few massive species around the temperature range """
    out = [(rng.choice([1, 2, 2, 2, 3]), 0., -1)]
    if rng.random() < .4:
        out.append((rng.choice([2, 2, 4, 6]), 0., 1))
    for _ in range(n if n is not None else rng.randint(1, 3)):
        m = np.exp(rng.uniform(np.log(T_lo * .3), np.log(T_hi * 5)))
        out.append((rng.choice([1, 2, 3, 4, 6]), float(m), rng.choice([1, -1])))
    if rng.random() < .25:      # frozen out: dust regime
        out.append((rng.choice([1, 2, 4]), T_hi * rng.uniform(1100, 5000), rng.choice([1, -1])))
    if rng.random() < .25:      # effectively massless: radiation regime despite the mass
        out.append((rng.choice([1, 2, 4]), T_lo / rng.uniform(1100, 5000), rng.choice([1, -1])))
    if rng.random() < .25:      # becomes dust on the way
        out.append((rng.choice([1, 2, 4]), (T_hi * T_lo) ** .5 * 1e3, rng.choice([1, -1])))
    if rng.random() < .25:      # leaves the radiation regime on the way
        out.append((rng.choice([1, 2, 4]), (T_hi * T_lo) ** .5 / 1e3, rng.choice([1, -1])))
    return out


def free_params(T, a=None, dy=.05, t=0.):
    """ A real parameter object placed at an arbitrary plasma temperature T and scale factor a (code units) """
    from common import UNITS, Params
    with settings(LOGARITHMIC_TIMESTEP='True'):
        p = Params(T=T, dy=dy)
    if a is not None:
        move(p, T, a)
        p.a_ini = a
    p.t = t
    return p


def move(p, T, a, dt=0.):
    p.T, p.a = T, a
    p.aT, p.x = a * T, a * p.m
    p.y = np.log(a)
    p.dx = p.x * p.dy
    p.t += dt
    return p
