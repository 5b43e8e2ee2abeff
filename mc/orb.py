"""Shared lattices and builders for Keplerian orbits."""
import numpy as np

from mc.env import ev, xo
from mc.ref import G, GCC, RefOrbit, t_peri_from_t0

KeplerianOrbit = xo.orbits.KeplerianOrbit
TTVOrbit = xo.orbits.TTVOrbit
SimpleTransitOrbit = xo.orbits.SimpleTransitOrbit


def semi_major(P, mtot):
    return (G * mtot * P**2 / (4 * np.pi**2)) ** (1 / 3)


class Spec:
    """A lattice of orbits (flattened along the planet axis) and its reference model."""

    def __init__(self, P, e=0.0, w=0.0, inc=np.pi / 2, W=0.0, t0=0.0, ms=1.0, mp=0.0, rs=1.0):
        arrs = np.broadcast_arrays(*[np.asarray(x, float) for x in (P, e, w, inc, W, t0, ms, mp, rs)])
        (self.P, self.e, self.w, self.inc, self.W, self.t0, self.ms, self.mp, self.rs) = [
            np.array(np.atleast_1d(x)) for x in arrs]
        self.mt = self.ms + self.mp
        self.a = semi_major(self.P, self.mt)
        self.tp = t_peri_from_t0(self.t0, self.P, self.e, self.w)
        self.cosi, self.sini = np.cos(self.inc), np.sin(self.inc)
        self.ref = RefOrbit(self.P, self.a, self.e, self.w, self.tp, self.cosi, self.sini, self.W, self.ms, self.mp)
        # impact parameter at transit: distance at conjunction, projected
        self.rc = self.a * (1 - self.e**2) / (1 + self.e * np.sin(self.w))
        self.b = self.rc * self.cosi / self.rs
        self.rho = 3 * self.ms / (4 * np.pi * self.rs**3) * GCC

    def kwargs(self, ecc=True, omega="omega", Omega=True, incl="incl", epoch="t0", par="period"):
        kw = {}
        if ecc:
            kw["ecc"] = self.e
            if omega == "omega":
                kw["omega"] = self.w
            else:
                kw["sin_omega"], kw["cos_omega"] = np.sin(self.w), np.cos(self.w)
        if Omega:
            kw["Omega"] = self.W
        if incl == "incl":
            kw["incl"] = self.inc
        elif incl == "b":
            kw["b"] = self.b
        if epoch == "t0":
            kw["t0"] = self.t0
        elif epoch == "t_periastron":
            kw["t_periastron"] = self.tp
        kw["m_planet"] = self.mp
        if "p" in par:
            kw["period"] = self.P
        if "a" in par.split("+"):
            kw["a"] = self.a
        return kw

    def build(self, par=("period", "m_star", "r_star"), cls=None, extra=None, **form):
        kw = self.kwargs(**form)
        kw.pop("period", None)
        val = dict(period=self.P, a=self.a, m_star=self.ms, r_star=self.rs, rho_star=self.rho)
        for k in par:
            kw[k] = val[k]
        kw.update(extra or {})
        return (cls or KeplerianOrbit)(**kw)


def stack3(xyz, shape):
    return np.stack([np.reshape(v, shape) for v in xyz])


def evn(outs):
    return ev(outs)


def orbit_lattice(deep, circ=False, Omega=True, n=None):
    """Flattened lattice of (e, omega, inclination, node)."""
    from mc.core import grid
    es = [0.0] if circ else [0.0, 1e-4, 0.05, 0.3, 0.6, 0.9, 0.98, 0.993] + ([0.01, 0.45, 0.75, 0.995, 0.999] if deep else [])
    ws = [0.0] if circ else [-2.5, -np.pi / 2, 0.0, 0.8, np.pi / 2, np.pi, 4.4, 7.3, -4.0] + ([-0.3, 1.2, 2.2, 5.9, -np.pi] if deep else [])
    incs = [np.pi / 2, 1.3, 0.4, 2.2] + ([0.0, 2.9] if deep else [])
    if circ:
        incs = list(np.linspace(0.05, 3.1, 40 if deep else 17))
    Ws = [0.0] if not Omega else [0.0, 0.9, -2.5, 4.1, -3.7] + ([np.pi] if deep else [])
    return grid(es, ws, incs, Ws)


def phases(deep, extra=(-1000.25, -3.4, -1.0, -0.5, 1.0, 7.77, 500.5, 2.5, 40000.3, -70000.6, 400000.3)):
    return np.concatenate([np.linspace(0, 1, 61 if deep else 25)[:-1], list(extra)])


# (period, epoch, stellar mass, planet mass, stellar radius)
SYSTEMS = [(3.7, 0.4, 1.0, 0.0, 1.0), (120.0, -31.0, 0.4, 0.3, 0.7), (0.5, 2454115.5, 1.7, 1e-3, 2.1),
           (11.0, 100.0, 0.5, 0.8, 0.6), (0.03, 5.0, 0.6, 0.01, 0.02)]
