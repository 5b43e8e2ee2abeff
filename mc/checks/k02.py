import numpy as np

from mc.core import product
from mc.env import ev
from mc.orb import SYSTEMS, Spec, orbit_lattice, phases
from mc.ref import G

RULE = ("cell = (eccentricity form, node given or not, system); model state = (orbital elements, phase), transition = advancing "
        "the phase, trace = one orbit replayed on all velocity and acceleration methods, compared with the closed-form time "
        "derivatives of the reference solution, and with the conserved energy and angular momentum of the returned motion")
BOUNDS = ("e in {0..0.999}, 9-14 omegas, 4-40 inclinations, 1-6 nodes, 5 systems with planet/star mass ratios 0..1.6, 32-69 phases "
          "from -70000 to 400000 periods")
ASSUMPTIONS = ["tolerance 1e-8 of the largest speed/acceleration on the orbit plus the rounding of t*n"]


def cells(tier):
    return product(ecc=["none", "omega", "sincos"], Omega=[True, False], sys=[0, 1, 2, 3, 4], deep=[tier == "thorough"])


def run(c, cell):
    deep, circ = cell["deep"], cell["ecc"] == "none"
    P, t0, ms, mp, rs = SYSTEMS[cell["sys"]]
    e, w, inc, W = orbit_lattice(deep, circ, cell["Omega"])
    s = Spec(P, e, w, inc, W, t0, ms, mp, rs)
    ph = phases(deep)
    t = t0 + P * ph
    T = t[:, None]
    o = s.build(ecc=not circ, omega=cell["ecc"], Omega=cell["Omega"])
    out = ev([list(o.get_planet_velocity(t)), list(o.get_star_velocity(t)), list(o.get_relative_velocity(t)),
              list(o.get_planet_acceleration(t)), list(o.get_star_acceleration(t)), list(o.get_relative_acceleration(t)),
              list(o.get_relative_position(t))])
    pv, sv, rv, pa, sa, ra, rx = [np.stack(x) for x in out]
    c.lattice(e[:, None], w[:, None], inc[:, None], W[:, None], ph[None, :])
    _, v, a = s.ref.rel(T)
    at = dict(e=e, w=w, inc=inc, W=W, t=T)
    fp, fs = s.ms / s.mt, -s.mp / s.mt
    tv, ta = s.ref.tol(T, order=1), s.ref.tol(T, order=2)
    for name, got, want, tol in (
            ("relative velocity", rv, v, tv), ("planet velocity", pv, v * fp, tv * fp),
            ("star velocity", sv, v * fs, tv * -fs), ("relative acceleration", ra, a, ta),
            ("planet acceleration", pa, a * fp, ta * fp), ("star acceleration", sa, a * fs, ta * -fs)):
        c.close(name, got, want, tol + 1e-300, at)
    # invariants of the motion, from the returned values alone
    GM = G * s.mt
    r = np.sqrt(np.sum(rx**2, 0))
    v2 = np.sum(rv**2, 0)
    rel = s.ref.tol(T) / s.a
    E = 0.5 * v2 - GM / r
    c.close("orbital energy", E, np.broadcast_to(-0.5 * GM / s.a, E.shape), 30 * rel * (GM / r) / (1 - e) ** 1.5 + 1e-9 * GM / r, at)
    L = np.cross(rx, rv, axis=0)
    h = np.sqrt(GM * s.a * (1 - e**2))
    c.close("angular momentum", np.sqrt(np.sum(L**2, 0)), np.broadcast_to(h, r.shape), 100 * rel * h / (1 - e) ** 2, at)
    c.close("inverse-square law", ra, -GM * rx / r**3, 100 * rel * (GM / r**2) / (1 - e), at)
    c.outcome("approaching", np.sum(rv[2] > 0))
    c.outcome("receding", np.sum(rv[2] < 0))
    c.sample(e=e[-1], w=w[-1], inc=inc[-1], t=t[3], v=rv[:, 3, -1], want=v[:, 3, -1])
