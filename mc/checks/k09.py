import numpy as np

from mc.core import product
from mc.env import ev, pt
from mc.orb import SYSTEMS, Spec, TTVOrbit, orbit_lattice, phases
from mc.ref import AU, R_SUN

RULE = ("cell = (body or angles, eccentricity form, node, system, light delay, parallax form); model state = (elements, phase, parallax); "
        "transition = advancing the phase; trace = one sky trajectory replayed with and without the parallax")
BOUNDS = "parallaxes {1e-4, 0.0243, 0.9} arcsec as number/vector/symbolic, e in {0..0.98} x omega x inclination x node, 24-60 phases up to 30000 periods away, delay on/off, TTVs"
PLX = [1e-4, 0.0243, 0.9]


def cells(tier):
    d = tier == "thorough"
    return product(ecc=["none", "omega", "sincos"], Omega=[True, False], delay=[False, True], form=["number", "symbolic", "vector", "array0"],
                   cls=["kep", "ttv"], deep=[d])


def run(c, cell):
    deep, circ = cell["deep"], cell["ecc"] == "none"
    P, t0, ms, mp, rs = SYSTEMS[1]
    e, w, inc, W = orbit_lattice(deep, circ, cell["Omega"])
    if cell["cls"] == "ttv":
        k = slice(None, None, max(1, len(e) // 4))
        e, w, inc, W = e[k], w[k], inc[k], W[k]
    s = Spec(P, e, w, inc, W, t0, ms, mp, rs)
    extra, cls = {}, None
    if cell["cls"] == "ttv":
        cls, extra = TTVOrbit, dict(ttvs=[np.array([0.0, 0.3, -0.2])] * len(e))
    o = s.build(cls=cls, ecc=not circ, omega=cell["ecc"], Omega=cell["Omega"], extra=extra)
    ph = phases(deep, extra=(-7.3, 1.0, 2.55, 0.25, 20000.3, -30000.6))
    t = t0 + P * ph
    p = pt.dscalar()
    for plx in PLX:
        arg, inp, val, pv = plx, [], [], plx
        if cell["form"] == "symbolic":
            arg, inp, val = p, [p], [plx]
        elif cell["form"] == "vector":
            arg = pv = plx * (1 + 0.1 * np.arange(len(e)))
        elif cell["form"] == "array0":
            arg = np.array(plx)
        ld = dict(light_delay=cell["delay"])
        res = ev([[list(getattr(o, f"get_{b}_position")(t, **ld)) for b in ("star", "planet", "relative")],
                  [list(getattr(o, f"get_{b}_position")(t, parallax=arg, **ld)) for b in ("star", "planet", "relative")],
                  list(o.get_relative_angles(t, **ld)), list(o.get_relative_angles(t, parallax=arg, **ld))], inp, val)
        scale = pv * R_SUN / AU  # 1 au at 1 pc subtends one arcsecond
        at = dict(e=e, w=w, inc=inc, W=W, t=t[:, None])
        for b, x, y in zip(("star", "planet", "relative"), res[0], res[1]):
            x, y = np.stack(x), np.stack(y)
            c.close(f"{b} position in arcseconds", y, x * scale, 1e-9 * np.abs(x).max() * scale * np.ones_like(x), at)
        X, Y, _ = res[0][2]
        for name, (rho, th), sc in (("R_sun", res[2], 1.0), ("arcsec", res[3], scale)):
            R = np.hypot(X, Y)
            c.close("separation in " + name, rho, R * sc, 1e-9 * R.max() * sc * np.ones_like(R), at)
            c.close("polar form x, " + name, rho * np.cos(th), X * sc, 1e-9 * R.max() * sc * np.ones_like(R), at)
            c.close("polar form y, " + name, rho * np.sin(th), Y * sc, 1e-9 * R.max() * sc * np.ones_like(R), at)
            c.expect(bool(np.all(np.abs(th) <= np.pi)), "position angle outside [-pi, pi]")
            c.expect(bool(np.all(rho >= 0)), "negative separation")
        c.lattice(e[:, None], w[:, None], inc[:, None], W[:, None], np.full_like(e, plx)[:, None], ph[None, :])
        if not cell["delay"] and cell["cls"] == "kep":
            ref = s.ref.rel(t[:, None])[0] * scale
            c.close("relative position in arcseconds, reference", np.stack(res[1][2]), ref, s.ref.tol(t[:, None]) * scale * np.ones_like(ref), at)
        for q in range(4):
            c.outcome(f"quadrant {q}", np.sum(np.floor(np.mod(res[3][1], 2 * np.pi) / (np.pi / 2)) == q))
    c.sample(parallax=plx, e=e[-1], rho=res[3][0][2, -1], theta=res[3][1][2, -1])
