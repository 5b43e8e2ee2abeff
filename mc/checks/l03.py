import itertools

import numpy as np

from mc.core import product
from mc.env import fn, pt
from mc.lc import KINDS, System, light_curve

RULE = ("cell = (orbit kind, planets, exposure form, integration order, oversampling, delay); model state = the sequence of time slots in the data "
        "set; transition = appending one observation; trace = one data set evaluated with and without the selection of in-transit times")
BOUNDS = ("all sequences of length 0-2 in every cell, 0-3 for one planet without exposures (thorough: 0-3 and 0-4), over 8 time slots (mid transit, both limbs, just outside, wing, eclipse, another planet's transit, many periods "
          "later), plus 900-point scans across every contact; 9 orbit kinds, 1-3 planets; radii times 0, 0.01, 1, 4; texp none/scalar/short/long/vector/integer; orders 0-2, oversampling 1-7")
LD = (0.3, 0.2)


def cells(tier):
    d = tier == "thorough"
    out = product(orbit=KINDS, npl=[1, 2, 3], texp=["none"], order=[0], over=[7], delay=[False], deep=[d])
    out += product(orbit=KINDS, npl=[1, 2], texp=["scalar", "vector"], order=[0, 1, 2], over=[3], delay=[False], deep=[d])
    out += product(orbit=["circ", "ecc", "simple"], npl=[1, 2], texp=["long", "short", "int", "vector"], order=[0, 1, 2], over=[1, 4, 7], delay=[False], deep=[d])
    out += product(orbit=["circ", "ecc", "node", "ttv"], npl=[1, 2], texp=["none", "scalar", "vector"], order=[0], over=[3], delay=[True], deep=[d])
    out = [dict(x, rmul=1.0) for x in out]
    out += product(orbit=["circ", "ecc", "simple", "ttv"], npl=[1, 2], texp=["none", "scalar"], order=[0], over=[3], delay=[False], deep=[d], rmul=[0.0, 0.01, 4.0])
    return [x for x in out if not (x["order"] and x["over"] == 1)]


def slots(s):
    """Named observation times: relative to the transits of the first and last planets."""
    out = []
    t = np.linspace(-0.2, 0.2, 4001) * s.P[0] + (s.t0[0] if s.ttv is None else s.t0[0] + s.ttv[0][0])
    x, y, z = [v[:, 0] for v in s.pos(t)]
    inside = np.flatnonzero((np.hypot(x, y) < s.rs + s.r[0]) & (z > 0))
    lo, hi = t[inside[0]], t[inside[-1]]
    mid, step = 0.5 * (lo + hi), t[1] - t[0]
    out = [mid, lo + step, hi - step, lo - 2 * step, mid + 0.2 * s.P[0], mid + 0.47 * s.P[0]]
    j = s.npl - 1
    out.append(s.t0[j] + (s.P[j] if s.ttv is None else s.P[j] + s.ttv[j][1]))
    out.append(mid + 40 * s.P[0] if s.ttv is None else s.t0[0] + s.P[0] * (len(s.ttv[0]) - 1) + s.ttv[0][-1] + 40 * s.P[0])
    return out, (lo, hi)


def run(c, cell):
    s = System(cell["orbit"], cell["npl"])
    s.r = s.r * cell["rmul"]
    lc = light_curve(LD, "values")
    t, w = pt.dvector(), pt.dvector()
    texp = {"none": None, "scalar": 0.08, "long": 0.9, "short": 1e-3, "int": 1, "vector": w}[cell["texp"]]
    kw = dict(orbit=s.orbit, r=s.r, t=t, texp=texp, order=cell["order"], oversample=cell["over"])
    if cell["delay"]:
        kw["light_delay"] = True
    default = lc.get_light_curve(**kw)
    if cell["delay"]:
        # selecting times is refused with a delay, and is off by default
        c.raises(NotImplementedError, "selecting in-transit times with a light delay", lc.get_light_curve, use_in_transit=True, **kw)
        F0 = fn([t, w], [lc.get_light_curve(use_in_transit=False, **kw), default])
        F = lambda *a: [F0(*a)[k] for k in (0, 0, 1)]
    else:
        F = fn([t, w], [lc.get_light_curve(use_in_transit=True, **kw), lc.get_light_curve(use_in_transit=False, **kw), default])
    sl, (lo, hi) = slots(s)
    pre = "light delay: " if cell["delay"] else ""

    def check(v, lab):
        v = np.asarray(v, float)
        wv = 0.02 + 0.3 * (np.arange(len(v)) % 3)
        a, b, d = F(v, wv)
        ok = c.close(f"{pre}{lab}: selected times against all times", a, b, 1e-10, dict(t=v[:, None]))
        c.close(f"{pre}{lab}: default against all times", d, b, 1e-10)
        c.expect(b.shape == (len(v), s.npl), "shape", got=b.shape)
        c.trace()
        return ok, b

    depth = 3 if cell["deep"] or (cell["npl"] == 1 and cell["texp"] == "none") else 2
    depth += cell["deep"] and cell["texp"] == "none" and cell["orbit"] in ("circ", "simple", "ttv")
    for n in range(0, depth + 1):
        for seq in itertools.product(range(len(sl)), repeat=n):
            ok, b = check([sl[k] for k in seq], "sequence")
            if not ok:
                return
            c.state(seq)
            c.step()
            hit = np.any(b < 0, axis=1) if n else np.zeros(0, bool)
            c.outcome("no in-transit point" if not hit.any() else "only in-transit points" if hit.all() else "some in-transit points")
    # a dense scan across the contacts, of every planet
    v = np.concatenate([np.linspace(lo - 0.7, hi + 0.7, 500)] + [np.linspace(-0.12, 0.12, 200) * s.P[j] + s.t0[j] for j in range(s.npl)]
                       + [np.linspace(lo - 1e-3, lo + 1e-3, 100), np.linspace(hi - 1e-3, hi + 1e-3, 100)])
    for lab, x in (("scan", v), ("shuffled scan", v[np.argsort((np.arange(len(v)) * 0.6180339887) % 1)])):
        ok, b = check(x, lab)
    for k in range(len(v)):
        c.state(("scan", k))
    c.step(len(v))
    c.outcome("scan points in transit", int(np.sum(b < 0)))
    c.sample(slots=sl, depth=float(-b.min()))
