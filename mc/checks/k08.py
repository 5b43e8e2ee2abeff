import numpy as np

from mc.core import product
from mc.env import ev
from mc.orb import KeplerianOrbit, Spec, TTVOrbit, orbit_lattice
from mc.ref import AU_PER_RSUN, C_LIGHT

RULE = ("cell = (body, eccentricity form, node, system, orbit class, parallax); model state = (elements, observation time); transition = "
        "advancing the time; trace = one delayed trajectory replayed on the implementation and compared with the reference position at "
        "the exact emission time, solved by fixed point")
BOUNDS = ("e in {0..0.9} x omega x inclination x node x 24-60 times, 5 systems with v/c from 1e-4 to 0.04 (so that first and second order "
          "terms are separately visible), star/planet/relative, plain and TTV orbits, parallax on/off, scalar/vector times, 1..4 planets")
ASSUMPTIONS = ["the documented expansion is to second order in the delay: tolerance is the third-order remainder, 8 |jerk| delay^3 / c, plus 1e-9"]
# period, epoch, stellar mass, planet mass
SYS = [(365.25, 3.0, 1.0, 0.0), (0.5, -0.1, 1.7, 0.6), (3.0, 100.2, 3000.0, 900.0), (1.0, 0.0, 8000.0, 0.0), (50.0, 2458000.3, 1.0, 0.8)]


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["main"], body=["star", "planet", "relative"], ecc=["none", "omega", "sincos"], Omega=[True, False],
                  sys=range(len(SYS)), parallax=[None, 0.031], deep=[d])
    out += product(kind=["ttv"], body=["star", "planet", "relative"], ecc=["none", "omega"], parallax=[None, 0.031], sys=[1, 2])
    out += product(kind=["shape"], cls=["kep", "ttv"], ecc=["none", "omega"], npl=[0, 1, 3], times=["scalar", "one", "vector", "matrix"])
    return out


def method(o, body):
    return getattr(o, f"get_{body}_position")


def factor(s, body):
    return dict(star=-s.mp / s.mt, planet=s.ms / s.mt, relative=np.ones_like(s.mt))[body]


def remainder(s, f, z):
    """Bound on the error of the returned position from the third-order remainder of the delay."""
    n = 2 * np.pi / s.P
    q = 1 - s.e
    a = np.abs(f) * s.a
    d = np.abs(z) / C_LIGHT
    vmax = a * n * np.sqrt((1 + s.e) / q)
    jmax = 2 * a * n**3 / q**5.5
    beta = vmax / C_LIGHT
    amax = a * n**2 / q**2
    # third order: jerk d^3/6c and the products of lower orders
    dt = (jmax * d**3 / 6 + amax * d**2 * (amax * d / C_LIGHT + beta**2)) / C_LIGHT
    return vmax * dt * 3


def run(c, cell):
    if cell["kind"] == "shape":
        return shapes(c, cell)
    circ = cell["ecc"] == "none"
    P, t0, ms, mp = SYS[cell["sys"]]
    pl = cell["parallax"]
    if cell["kind"] == "ttv":
        P = np.array([P, 2.3 * P, 0.7 * P])
        s = Spec(P, 0.0 if circ else [0.0, 0.3, 0.6], 0.0 if circ else [0.4, -2.0, 3.0], [1.5, 1.2, 0.7], [0.2, 1.0, 2.0],
                 np.array([0.1, 0.2, -0.4]) * P, ms, [mp, 0.0, 0.4 * ms])
        ttvs = [np.array([0.0, 0.02, -0.05]) * P[0], np.array([0.03, -0.01]) * P[1], np.array([-0.03, 0.0, 0.05, 0.01]) * P[2]]
        o = s.build(cls=TTVOrbit, ecc=not circ, extra=dict(ttvs=ttvs))
        t = np.linspace(-3.13, 6.7, 61) * P[0]
        tt, lag = np.empty((len(t), 3)), np.empty((len(t), 3))
        f = factor(s, cell["body"])
        keep = np.ones((len(t), 3), bool)

        def warp(x):
            out, near = np.empty_like(x), np.zeros(x.shape, bool)
            for j in range(3):
                lab = s.t0[j] + P[j] * np.arange(len(ttvs[j])) + ttvs[j]
                edges = np.concatenate([[lab[0] - P[j] / 2], (lab[1:] + lab[:-1]) / 2, [lab[-1] + P[j] / 2]])
                val = np.concatenate([[lab[0]], lab, [lab[-1]]])
                out[:, j] = x[:, j] - val[np.searchsorted(edges, x[:, j])] + s.t0[j]
                near[:, j] = np.min(np.abs(x[:, j][:, None] - edges), axis=1) < 0.06 * P[j]
            return out, near
        T = np.repeat(t[:, None], 3, 1)
        te = T.copy()
        for _ in range(25):
            tw, near = warp(te)
            te = T + f * s.ref.rel(tw)[0][2] / C_LIGHT
        tw, near = warp(te)
        keep = ~near & ~warp(T)[1]  # away from the joints between two transits, where the motion jumps
        want = s.ref.rel(tw)[0] * f
        z = want[2]
        tol = (remainder(s, f, z) + np.abs(f) * s.ref.tol(tw, base=1e-9) + 1e-300) * np.ones_like(T)
        got = np.stack(ev(list(method(o, cell["body"])(t, parallax=pl, light_delay=True))))
        if pl is not None:
            want, tol = want * pl * AU_PER_RSUN, tol * pl * AU_PER_RSUN
        c.lattice(P[:, None], t[None, :])
        c.close("delayed position with TTVs", np.where(keep, got, 0), np.where(keep, want, 0), np.broadcast_to(tol, want.shape), dict(t=T, P=P))
        c.outcome("ttv", keep.sum())
        return
    deep = cell["deep"]
    e, w, inc, W = orbit_lattice(deep, circ, cell["Omega"])
    ok = e < 0.95
    if not deep:
        ok &= (np.arange(len(e)) % 2 == 0) | circ
    e, w, inc, W = e[ok], w[ok], inc[ok], W[ok]
    s = Spec(P, e, w, inc, W, t0, ms, mp)
    o = s.build(ecc=not circ, omega=cell["ecc"], Omega=cell["Omega"])
    ph = np.concatenate([np.linspace(0, 1, 41 if deep else 19)[:-1], [-30.3, -1.0, 0.25, 5.5, 12.77, 100.1]])
    t = t0 + P * ph
    T = t[:, None]
    f = factor(s, cell["body"])
    te = T + 0 * e
    for _ in range(60):
        new = T + f * s.ref.rel(te)[0][2] / C_LIGHT
        moved = np.max(np.abs(new - te))
        te = new
        if moved < 1e-13 * P:
            break
    want = s.ref.rel(te)[0] * f
    tol = remainder(s, f, want[2]) + np.abs(f) * s.ref.tol(te, base=2e-9) + 1e-300
    got = np.stack(ev(list(method(o, cell["body"])(t, parallax=pl, light_delay=True))))
    plain = s.ref.rel(T)[0] * f
    if pl is not None:
        want, tol, plain = want * pl * AU_PER_RSUN, tol * pl * AU_PER_RSUN, plain * pl * AU_PER_RSUN
    c.lattice(e[:, None], w[:, None], inc[:, None], W[:, None], ph[None, :])
    c.close("delayed position", got, want, np.broadcast_to(tol, want.shape), dict(e=e, w=w, inc=inc, W=W, t=T))
    if np.any(f != 0):
        vis = np.abs(plain - want).max(0) > 3 * tol
        c.outcome("delay visible above the tolerance", vis.sum())
        c.outcome("earlier emission", np.sum(want[2] < 0))
        c.outcome("later emission", np.sum(want[2] > 0))
    else:
        c.outcome("body at rest", got.size)
    c.sample(e=e[-1], t=t[3], got=got[:, 3, -1], want=want[:, 3, -1])


def shapes(c, cell):
    n = cell["npl"]
    vec = (lambda x: np.array([x * (1 + 0.1 * i) for i in range(n)])) if n else (lambda x: x)
    kw = dict(period=vec(3.0), t0=vec(0.1), incl=vec(1.4), m_planet=vec(0.01))
    if cell["ecc"] != "none":
        kw.update(ecc=vec(0.2), omega=vec(1.0))
    if cell["cls"] == "ttv":
        if not n:
            kw = {k: np.array([v]) for k, v in kw.items()}
        o = TTVOrbit(ttvs=[np.array([0.0, 0.01])] * max(n, 1), **kw)
    else:
        o = KeplerianOrbit(**kw)
    t = dict(scalar=np.array(0.4), one=np.array([0.4]), vector=np.array([0.1, 0.4, 2.0, 9.9]), matrix=np.array([[0.1, 0.4, 2.0], [1.0, 5.0, 6.0]]))[cell["times"]]
    for body in ("star", "planet", "relative"):
        for pl in (None, 0.03):
            a = np.stack(ev(list(method(o, body)(t, parallax=pl))))
            b = np.stack(ev(list(method(o, body)(t, parallax=pl, light_delay=True))))
            c.state((body, pl))
            c.step()
            c.trace()
            c.expect(a.shape == b.shape, "shape with the delay", got=b.shape, want=a.shape)
            if a.shape == b.shape:
                c.close("delay is a small shift", b, a, 0.01 * np.max(np.abs(a)))
                c.expect(bool(np.any(a != b)), "delay has no effect")
    c.outcome("shape", 6)
