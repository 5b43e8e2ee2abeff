import numpy as np
from astropy import units as u

from mc.core import product
from mc.env import ev, pt
from mc.orb import SYSTEMS, Spec, TTVOrbit, orbit_lattice, phases
from mc.ref import DAY, R_SUN, RefOrbit

RULE = ("cell = (eccentricity form, node, system, unit, K form); model state = (elements, phase); transition = advancing the phase; "
        "trace = one radial velocity curve replayed on get_radial_velocity and compared with the reference star velocity")
BOUNDS = "e in {0..0.999} x omega x inclination x node, 5 systems, 5 output units, K absent/scalar/vector/symbolic/zero/negative/own, 32-69 phases up to 400000 periods away, plain and TTV orbits"
UNITS = {"default": None, "m/s": u.m / u.s, "km/s": u.km / u.s, "Rsun/day": u.R_sun / u.day, "AU/yr": u.AU / u.yr, "cm/s": u.cm / u.s}
SI = {"default": 1.0, "m/s": 1.0, "km/s": 1e3, "Rsun/day": R_SUN / DAY, "AU/yr": 149597870700.0 / (365.25 * DAY), "cm/s": 1e-2}


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["phys"], ecc=["none", "omega", "sincos"], Omega=[True, False], sys=[0, 1, 2, 3, 4], unit=list(UNITS), deep=[d])
    out += product(kind=["K"], ecc=["none", "omega", "sincos"], K=["scalar", "vector", "symbolic", "zero", "negative", "own"],
                   sys=[0, 1, 2, 3, 4], unit=["default", "km/s"], deep=[d])
    out += product(kind=["ttv"], ecc=["none", "omega"], K=["none", "scalar", "vector"])
    return out


def amplitude(s):
    """Semi-amplitude in m/s."""
    n = 2 * np.pi / s.P
    return n * s.a * s.mp / s.mt * s.sini / np.sqrt(1 - s.e**2) * R_SUN / DAY


def run(c, cell):
    circ = cell["ecc"] == "none"
    if cell["kind"] == "ttv":
        P = np.array([3.0, 7.0, 11.0])
        t0 = np.array([0.1, 2.0, -1.0])
        s = Spec(P, 0.0 if circ else [0.0, 0.3, 0.7], 0.0 if circ else [0.4, -2.0, 3.0], [1.5, 1.2, 0.7], 0.0, t0, 1.1, [0.0, 0.02, 0.4])
        ttvs = [np.array([0.0, 0.1, -0.05]), np.array([0.2, -0.1]), np.array([-0.3, 0.0, 0.4, 0.1])]
        o = s.build(cls=TTVOrbit, ecc=not circ, Omega=False, extra=dict(ttvs=ttvs))
        t = np.linspace(-12, 40, 83)
        amp = amplitude(s)
        if cell["K"] == "scalar":
            K, amp = 3.5, np.full(3, 3.5)
        elif cell["K"] == "vector":
            K = amp = np.array([1.0, -4.0, 20.0])
        else:
            K = None
        got = ev(o.get_radial_velocity(t, K=K))
        tt = np.empty((len(t), 3))
        for j in range(3):
            lab = t0[j] + P[j] * np.arange(len(ttvs[j])) + ttvs[j]
            edges = np.concatenate([[lab[0] - P[j] / 2], (lab[1:] + lab[:-1]) / 2, [lab[-1] + P[j] / 2]])
            val = np.concatenate([[lab[0]], lab, [lab[-1]]])
            tt[:, j] = t - val[np.searchsorted(edges, t)] + t0[j]
        want = shape(s, tt) * amp
        c.lattice(P[:, None], amp[:, None], t[None, :])
        c.close("radial velocity with TTVs", got, want, 1e-8 * (np.abs(amp) + 1e-3) * 100, dict(t=t[:, None], P=P))
        c.outcome("ttv", t.size)
        return
    P, t0, ms, mp, rs = SYSTEMS[cell["sys"]]
    deep = cell["deep"]
    e, w, inc, W = orbit_lattice(deep, circ, cell.get("Omega", True))
    if cell["kind"] == "K" and cell["K"] == "own":
        inc = np.where(inc == 0, 0.02, inc)
    s = Spec(P, e, w, inc, W, t0, ms, mp, rs)
    o = s.build(ecc=not circ, omega=cell["ecc"], Omega=cell.get("Omega", True))
    ph = phases(deep)
    t = t0 + P * ph
    T = t[:, None]
    sh = shape(s, T)
    un = UNITS[cell["unit"]]
    kw = {} if un is None else dict(output_units=un)
    at = dict(e=e, w=w, inc=inc, W=W, t=T)
    rt = s.ref.tol(T, order=1) / (s.a * 2 * np.pi / s.P)  # rounding of the phase, relative to the mean speed
    amp = amplitude(s)
    if cell["kind"] == "phys":
        got = ev(o.get_radial_velocity(t, **kw))
        want = sh * amp / SI[cell["unit"]]
        c.close("radial velocity", got, want, (rt + 1e-8) * np.maximum(np.abs(amp), 1e-12) * 3 / SI[cell["unit"]] + 1e-300, at)
        # against the star's velocity as returned
        vz = ev(o.get_star_velocity(t)[2]) * R_SUN / DAY / SI[cell["unit"]]
        c.close("minus the star's line-of-sight velocity", got, -vz, 1e-9 * np.abs(vz) + 1e-300, at)
    else:
        inp, val = [], []
        k = dict(scalar=12.5, zero=0.0, negative=-3.0).get(cell["K"])
        if cell["K"] == "vector":
            k = 1.0 + np.arange(len(e)) % 17
        elif cell["K"] == "own":
            k = amp
        arg = k
        if cell["K"] == "symbolic":
            k = 7.25
            arg = pt.dscalar()
            inp, val = [arg], [k]
        got = ev(o.get_radial_velocity(t, K=arg, **kw), inp, val)
        c.close("radial velocity from K", got, sh * k, (rt * 3 + 1e-8) * np.maximum(np.abs(k), 1e-9) + 1e-300, at)
        if cell["K"] == "own":
            phys = ev(o.get_radial_velocity(t))
            c.close("own K reproduces the physical curve", got, phys, 1e-8 * np.abs(amp) * 3 / np.sqrt(1 - e) + 1e-300, at)
    c.lattice(e[:, None], w[:, None], inc[:, None], W[:, None], ph[None, :])
    c.outcome("redshift", np.sum(got > 0))
    c.outcome("blueshift", np.sum(got < 0))
    c.sample(e=e[-1], w=w[-1], t=t[5], rv=got[5, -1])


def shape(s, T):
    """RV per unit semi-amplitude: cos(omega + f) + e cos(omega), from the edge-on reference orbit."""
    v = RefOrbit(s.P, s.a, s.e, s.w, s.tp, 0.0, 1.0, 0.0).rel(T)[1][2]
    return v / (2 * np.pi / s.P * s.a / np.sqrt(1 - s.e**2))
