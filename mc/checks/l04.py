import numpy as np

from mc.core import product
from mc.env import ev, fn, pt
from mc.lc import KINDS, System, light_curve

RULE = ("cell = (orbit kind, planets, order, oversampling, exposure form, selection); model state = (observation, exposure time, node of the "
        "stencil); transition = moving to the next node; trace = one light curve of exposures replayed and compared with the weighted sum of "
        "the reference flux at the rule's nodes, or with its limit")
BOUNDS = ("orders 0, 1, 2 x oversampling 1-10, 21 x exposure times none/0/1e-4..1 day, scalar, 0-d, integer, symbolic, constant and mixed vectors, x 9 orbit kinds, "
          "1-3 planets, with and without selection of in-transit times, light delay; rejected orders -1, 3, 1.5, None; oversampling 401 against a "
          "fine average")
ASSUMPTIONS = ["orders 1 and 2 with a single point (a degenerate rule) are not judged"]
LD = (0.3, 0.2)


def nodes(order, n):
    """Nodes in units of the exposure time, and weights, of the composite rule on n (odd) points."""
    if order == 0:
        return (np.arange(n) + 0.5) / n - 0.5, np.full(n, 1.0 / n)
    x = np.arange(n) / (n - 1) - 0.5
    if order == 1:
        w = np.full(n, 1.0 / (n - 1))
        w[[0, -1]] /= 2
        return x, w
    w = np.empty(n)
    for k in range(n):
        w[k] = 1 if k in (0, n - 1) else (4 if k % 2 else 2)
    return x, w / (3 * (n - 1))


def cells(tier):
    d = tier == "thorough"
    overs = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 21]
    out = product(kind=["rule"], orbit=["circ"], npl=[1], order=[0, 1, 2], over=overs, texp=["scalar", "vector"], uit=[None, False])
    out += product(kind=["rule"], orbit=KINDS, npl=[1, 2, 3], order=[0, 1, 2], over=[3, 7] + [4, 12] * d, texp=["scalar", "vector"], uit=[None, False])
    out += product(kind=["rule"], orbit=["circ", "ecc"], npl=[1, 2], order=[0, 2], over=[5], texp=["zero", "zero-d", "int", "symbolic", "symvector", "constant", "long", "list"],
                   uit=[None, False])
    out += product(kind=["default"], orbit=["circ", "ecc", "simple"], npl=[1, 2])
    out += product(kind=["delay"], orbit=["circ", "ecc", "ttv"], npl=[1, 2], order=[0, 1, 2], over=[3], texp=["scalar", "vector"])
    out += product(kind=["limit"], orbit=["circ", "ecc", "simple"], order=[0, 1, 2], texp=[0.05, 0.4])
    out += product(kind=["errors"], orbit=["circ"], order=[-1, 3, 4, 1.5, 10])
    out = [x for x in out if not (x["kind"] == "rule" and x["order"] and x["over"] == 1)]
    seen, res = set(), []
    for x in out:
        k = repr(sorted(x.items()))
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


def run(c, cell):
    globals()["run_" + cell["kind"]](c, cell)


def exposures(form, n):
    """(argument, per-observation values)"""
    vec = np.array([0.02, 0.5, 1e-4, 0.11, 0.0, 1.0])[np.arange(n) % 6]
    one = {"scalar": 0.07, "zero": 0.0, "zero-d": 0.07, "int": 1, "symbolic": 0.07, "constant": 0.07, "long": 2.5}.get(form)
    return one, vec if one is None else np.full(n, float(one))


def reference(s, t, w, order, n, light_delay=False):
    x, wt = nodes(order, n)
    tt = t[:, None] + w[:, None] * x
    pos = s.pos(tt, light_delay)
    f = s.flux(LD, tt, pos=pos)
    # a node on a discontinuity (a boundary between transits, or the end of a simple transit) can fall on either side
    bad = np.zeros(f.shape, bool)
    for j, e in enumerate(s.boundaries()):
        bad[..., j] |= np.any(np.abs(tt[..., None] - e) < 1e-8, axis=-1)
    if s.kind == "simple":
        dt = (tt[..., None] - s.t0) / s.P
        dt = np.abs(dt - np.round(dt)) * s.P
        bad |= np.abs(dt - s.dur / 2) < 1e-9
    return np.einsum("tnp,n->tp", f, wt), bad.any(axis=1)


def run_rule(c, cell):
    s = System(cell["orbit"], cell["npl"])
    lc = light_curve(LD, "values")
    t = s.times(20)
    # unsorted
    t = t[np.argsort((np.arange(len(t)) * 0.6180339887) % 1)]
    one, w = exposures(cell["texp"], len(t))
    inp, val = (), ()
    arg = w if one is None else one
    f = cell["texp"]
    if f == "zero-d":
        arg = np.array(one)
    elif f == "constant":
        arg = pt.as_tensor_variable(one)
    elif f == "list":
        arg = w.tolist()
    elif f in ("symbolic", "symvector"):
        arg = pt.dscalar() if f == "symbolic" else pt.dvector()
        inp, val = (arg,), (one if f == "symbolic" else w,)
    n = cell["over"] + 1 - cell["over"] % 2
    got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, texp=arg, order=cell["order"], oversample=cell["over"], use_in_transit=cell["uit"]), inp, val)
    want, bad = reference(s, t, w, cell["order"], n)
    tol = 2e-6 + 1e-9 * np.abs((t[:, None] - s.t0) / s.P)
    c.close("exposure-integrated flux", got, want, np.where(bad, np.inf, tol), dict(t=t[:, None], texp=w[:, None]))
    c.lattice(t[:, None], w[:, None], nodes(cell["order"], n)[0][None, :], traces=1)
    c.outcome("in transit", int(np.sum(want < 0)))
    c.outcome("out of transit", int(np.sum(want == 0)))
    c.outcome("differs from the instantaneous flux", int(np.sum(np.abs(want - s.flux(LD, t)) > 1e-6)))
    c.sample(t=t[0], texp=w[0], got=got[0], want=want[0])
    if one is not None and cell["uit"] is None:
        # a scalar and a constant vector agree
        vec = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, texp=w, order=cell["order"], oversample=cell["over"]))
        c.close("scalar and per-observation exposures agree", vec, got, 1e-10)


def run_default(c, cell):
    s = System(cell["orbit"], cell["npl"])
    lc = light_curve(LD, "values")
    t = s.times(30)
    for w in (0.01, 0.2):
        want, bad = reference(s, t, np.full(len(t), w), 0, 7)
        got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, texp=w))
        c.close("default integration", got, want, np.where(bad, np.inf, 2e-6), dict(t=t[:, None]))
        for over in (7.0, 6, 6.5):
            got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, texp=w, oversample=over))
            c.close(f"oversample={over}", got, want, np.where(bad, np.inf, 2e-6), dict(t=t[:, None]))
        c.lattice(t, w + 0 * t)
    inst = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, texp=None))
    c.close("no exposure time", inst, s.flux(LD, t), 1e-6)
    c.outcome("default", len(t))
    c.sample(t=t[0], got=got[0])


def run_delay(c, cell):
    s = System(cell["orbit"], cell["npl"])
    lc = light_curve(LD, "values")
    t = s.times(15)
    one, w = exposures(cell["texp"], len(t))
    got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, texp=w if one is None else one, order=cell["order"], oversample=cell["over"], light_delay=True))
    want, bad = reference(s, t, w, cell["order"], 3, True)
    c.close("exposure-integrated flux with light delay", got, want, np.where(bad, np.inf, 3e-5), dict(t=t[:, None], texp=w[:, None]))
    c.lattice(t, w)
    c.outcome("in transit", int(np.sum(want < 0)))
    c.sample(t=t[0], got=got[0], want=want[0])


def run_limit(c, cell):
    s = System(cell["orbit"], 1)
    lc = light_curve(LD, "values")
    t = s.t0[0] + np.linspace(-0.3, 0.3, 41)
    w = cell["texp"]
    x = (np.arange(3000) + 0.5) / 3000 - 0.5
    true = s.flux(LD, t[:, None] + w * x).mean(axis=1)
    err = []
    for n in (5, 25, 125, 501):
        got = ev(lc.get_light_curve(orbit=s.orbit, r=s.r, t=t, texp=w, order=cell["order"], oversample=n))
        err.append(float(np.max(np.abs(got - true))))
        # one cell of the rule at a discontinuous slope or (simple orbits) a step
        c.expect(err[-1] <= 3.0 * 0.02 / n * (1 if w > 0.1 else 0.5) + 2e-6, "convergence to the average over the exposure", n=n, err=err[-1])
        c.state(n)
        c.step()
    c.expect(err[-1] < err[0] or err[0] < 1e-6, "the error shrinks", err=err)
    c.trace()
    c.outcome("converged")
    c.sample(err=err)


def run_errors(c, cell):
    s = System("circ", 1)
    lc = light_curve(LD, "values")
    for texp in (0.1, np.array([0.1, 0.2])):
        for uit in (None, False):
            c.raises(ValueError, f"order {cell['order']}", lc.get_light_curve, orbit=s.orbit, r=s.r, t=np.array([0.0, 1.0]), texp=texp, order=cell["order"], use_in_transit=uit)
            c.state((np.ndim(texp), uit))
            c.step()
    c.trace()
    c.outcome("rejected", 4)
