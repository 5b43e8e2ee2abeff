import numpy as np

from mc.core import grid, product
from mc.env import ev, fn, pt
from mc.orb import KeplerianOrbit, Spec
from mc.ref import kepler_E

RULE = ("cell = constructor form (ecc absent/omega/sin-cos, Omega given or not, epoch form, inclination form) x "
        "(period, epoch, masses); model state = (orbital elements, orbital phase); transition = advancing the phase, "
        "trace = one orbit's trajectory replayed on get_relative_position and compared with the reference solution")
BOUNDS = ("e in {0..0.999}, 9-14 omegas (also beyond +-pi and 2 pi), 4-6 inclinations, 5-6 nodes, 4 (period, epoch, mass) sets incl. a 43-minute orbit and a Julian-date "
          "epoch, 36-74 phases from -5e9 to 3e6 periods")
ASSUMPTIONS = ["tolerance 1e-8 of the orbit size plus the rounding of t*n", "pytensor evaluates graphs correctly (unoptimized)"]
SYS = [(3.7, 0.4, 1.0, 0.0), (120.0, -31.0, 0.4, 0.3), (0.5, 2454115.5, 1.7, 1e-3), (0.03, 5.0, 0.6, 0.01)]


def cells(tier):
    out = product(kind=["orbit"], ecc=["none", "omega", "sincos"], Omega=[True, False], epoch=["t0", "t_periastron", "none"],
                  incl=["incl", "b"], sys=[0, 1, 2, 3], deep=[tier == "thorough"])
    out += product(kind=["anomaly"], e=[0.0, 0.2, 0.7, 0.95, 0.999], deep=[tier == "thorough"])
    return out


def run(c, cell):
    deep = cell["deep"]
    if cell["kind"] == "anomaly":
        from mc.env import xo
        M = np.concatenate([np.linspace(-4 * np.pi, 4 * np.pi, 4001 if deep else 401), [1e-9, -1e-9, 1e-4, 700.3, -12345.6, 3.0e5, -2.0e7 + 0.3, 1.4e10],
                            np.array([-2, -1, 0, 1, 2]) * np.pi])
        e = np.full_like(M, cell["e"])
        c.lattice(cell["e"], M)
        from exoplanet.orbits.keplerian import get_true_anomaly
        f = ev(get_true_anomaly(pt.as_tensor_variable(M), pt.as_tensor_variable(e)))
        E = kepler_E(M, e).astype(float)
        d = 1 - e * np.cos(E)
        sens = np.sqrt(1 - e**2) / d**2
        tol = sens * (1e-9 + 30 * 2.2e-16 * (np.abs(M) + 10))
        c.close("sin(true anomaly)", np.sin(f), np.sqrt(1 - e**2) * np.sin(E) / d, tol, dict(M=M))
        c.close("cos(true anomaly)", np.cos(f), (np.cos(E) - e) / d, tol, dict(M=M))
        c.expect(bool(np.all(np.abs(f) <= np.pi + 1e-12)), "true anomaly outside [-pi, pi]")
        f2 = ev(get_true_anomaly(pt.as_tensor_variable(M.reshape(2, -1)[:, :7] if M.size % 2 == 0 else M[:14].reshape(2, 7)),
                                 pt.as_tensor_variable(np.full((2, 7), cell["e"]))))
        c.expect(f2.shape == (2, 7), "shape of the true anomaly", got=f2.shape)
        c.outcome("before periastron", np.sum(np.sin(f) < 0))
        c.outcome("after periastron", np.sum(np.sin(f) > 0))
        c.sample(e=cell["e"], M=M[3], f=f[3])
        return
    P, t0, ms, mp = SYS[cell["sys"]]
    circ = cell["ecc"] == "none"
    es = [0.0] if circ else [0.0, 1e-4, 0.05, 0.3, 0.6, 0.9, 0.98, 0.993] + ([0.01, 0.45, 0.75, 0.995, 0.999] if deep else [])
    ws = [0.0] if circ else [-2.5, -np.pi / 2, 0.0, 0.8, np.pi / 2, np.pi, 4.4, 7.3, -4.0] + ([-0.3, 1.2, 2.2, 5.9, -np.pi] if deep else [])
    incs = [np.pi / 2, 1.3, 0.4, 2.2] + ([0.0, 2.9] if deep else [])
    Ws = [0.0] if not cell["Omega"] else [0.0, 0.9, -2.5, 4.1, -3.7] + ([np.pi] if deep else [])
    if circ:
        incs = np.linspace(0.05, 3.1, 40)
    e, w, inc, W = grid(es, ws, incs, Ws)
    if cell["incl"] == "b":
        inc = np.where(inc == 0, 0.02, inc)
    if cell["epoch"] == "none":
        t0 = 0.0
    s = Spec(P, e, w, inc, W, t0, ms, mp)
    phase = np.concatenate([np.linspace(0, 1, 61 if deep else 25)[:-1], [-1000.25, -3.4, -1.0, -0.5, 1.0, 7.77, 500.5, 2.5,
                            39999.3, -70000.6, 3.0e6 + 0.2, -5.0e9 + 0.4]])
    t = t0 + P * phase
    orbit = s.build(ecc=not circ, omega=cell["ecc"], Omega=cell["Omega"], incl=cell["incl"],
                    epoch=None if cell["epoch"] == "none" else cell["epoch"])
    got = np.stack(ev(list(orbit.get_relative_position(t))))
    c.lattice(np.stack([e, w, inc, W])[:, :, None][0], w[:, None], inc[:, None], W[:, None], phase[None, :])
    want = s.ref.rel(t[:, None])[0]
    tol = s.ref.tol(t[:, None])
    # an inclination given through b is recovered through arccos, which is ill-conditioned edge-on/face-on
    tol = np.broadcast_to(tol, want.shape) + (1e-7 * np.abs(want).max() if cell["incl"] == "b" else 0.0)
    c.close("relative position", got, want, tol,
            dict(e=e, w=w, inc=inc, W=W, t=t[:, None], phase=phase[:, None]))
    c.outcome("in front", np.sum(got[2] > 0))
    c.outcome("behind", np.sum(got[2] < 0))
    c.sample(e=e[-1], w=w[-1], inc=inc[-1], W=W[-1], t=t[3], got=got[:, 3, -1], want=want[:, 3, -1])
