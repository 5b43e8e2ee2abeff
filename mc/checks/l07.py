import numpy as np

from mc.core import product
from mc.env import ev, fn, pt, xo
from mc.lc import System, light_curve

RULE = ("cell = (orbit kind, planets, options forwarded to the base model); model state = (number of phases, planet, phase, period number); transition = "
        "moving to the next phase or the next period; trace = one set of times replayed on the interpolated light curve and compared with the base model")
BOUNDS = ("circular, eccentric, simple and secondary-eclipse base models x 1-3 planets x phases 20..1600 x exposures none/scalar x selection on/off x light delay; every grid node and "
          "quarter point, at period numbers -1000..1000")
LD = (0.3, 0.2)


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["nodes"], orbit=["circ", "ecc", "node", "simple"], npl=[1, 2, 3], opt=["plain", "texp", "full", "order", "delay"], n=[20, 99] + [400] * d)
    out += product(kind=["limit"], orbit=["circ", "ecc", "node", "duration"], npl=[1, 2, 3], opt=["plain", "texp"])
    out += product(kind=["secondary"], orbit=["circ", "ecc"], n=[20, 99])
    return [x for x in out if not (x["orbit"] == "simple" and x.get("opt") == "delay")]


def options(opt):
    return dict(plain={}, texp=dict(texp=0.1), full=dict(use_in_transit=False), order=dict(texp=0.2, order=2, oversample=5),
                delay=dict(light_delay=True))[opt]


def run(c, cell):
    npl = cell.get("npl", 1)
    s = System(cell["orbit"], npl, scalar=True)
    kw = options(cell.get("opt", "plain"))
    r = s.r if npl > 1 else float(s.r[0])
    base = light_curve(LD, "values")
    if cell["kind"] == "secondary":
        base = xo.SecondaryEclipseLightCurve(LD, (0.1, 0.3), 0.8)
        s = System(cell["orbit"], 1, scalar=True, mp=0.1)
    t = pt.dvector()
    B = fn([t], [base.get_light_curve(orbit=s.orbit, r=r, t=t, **kw)])
    if cell["kind"] == "limit":
        return limit(c, cell, s, base, r, kw, t, B)
    n = cell["n"]
    I = fn([t], [xo.light_curves.InterpolatedLightCurve(base, n, num_planets=npl).get_light_curve(orbit=s.orbit, r=r, t=t, **kw)])
    i = np.arange(n + 2)
    for j in range(npl):
        dx = s.P[j] / (n + 1)
        node = s.t0[j] + dx * i
        want = B(node)[0][:, j]
        mx = np.abs(want).max()
        for m in (0, 1, -1, 17, -1000, 1000):
            tt = node + m * s.P[j]
            got = I(tt)[0]
            c.expect(got.shape == (len(tt), npl), "one column per planet", got=got.shape)
            # a node is hit up to the rounding of the time
            slope = np.abs(np.diff(want)).max() / dx + 1e-9
            tol = 1e-9 + slope * 20 * np.spacing(np.abs(tt) + 1000 * s.P[j])
            c.close("value at the grid nodes", got[:, j], want, tol, dict(t=tt))
        q = s.t0[j] + s.P[j] * (np.arange(4 * n) + 0.37) / (4 * n)
        one = I(q)[0][:, j]
        for m in (1, -3, 250, -1000):
            c.close("periodic", I(q + m * s.P[j])[0][:, j], one, 1e-8 + slope * 40 * np.spacing(1000 * s.P[j] + abs(s.t0[j])), dict(t=q))
        perm = np.argsort((np.arange(len(q)) * 0.6180339887) % 1)
        c.close("shuffled times", I(q[perm])[0][:, j], one[perm], 1e-12)
        c.lattice(np.concatenate([node, q]), np.array([[j + 10.0 * m] for m in (0, 1, -1, 17, -1000, 1000)]))
        c.outcome("nodes in transit", int(np.sum(want < 0)))
        c.outcome("nodes", len(node))
    c.sample(n=n, depth=float(mx))


def limit(c, cell, s, base, r, kw, t, B):
    npl = cell["npl"]
    for j in range(npl):
        q = s.t0[j] + np.concatenate([np.linspace(-0.1, 0.1, 173), np.linspace(0.1, 0.9, 29)]) * s.P[j]
        want = B(q)[0][:, j]
        err = []
        for n in (25, 100, 400, 1600):
            I = fn([t], [xo.light_curves.InterpolatedLightCurve(base, n, num_planets=npl).get_light_curve(orbit=s.orbit, r=r, t=t, **kw)])
            for m in (0, 5, -20):
                got = I(q + m * s.P[j])[0][:, j]
                c.state((j, n, m))
                c.step(len(q))
            err.append(float(np.max(np.abs(got - want))))
            c.trace()
        depth = np.abs(want).max()
        c.expect(err[-1] < 0.05 * depth, "close to the model with 1600 phases", err=err, depth=depth)
        c.expect(err[-1] < 0.3 * err[0] and err[-1] <= err[1] and err[-1] <= err[2] * 1.01, "approaches the model as the phases grow", err=err)
        c.outcome("converged")
    c.sample(err=err, depth=depth)
