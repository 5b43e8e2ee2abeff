import numpy as np

from mc.core import grid, product
from mc.env import ev, fn, pt
from mc.orb import SimpleTransitOrbit

RULE = ("cell = (period, epoch, which parameters are vectors, exposure form); model state = (duration, impact parameter, radius ratio, stellar "
        "radius, time slot relative to the contacts); transition = stepping the time across ingress, mid transit, egress and the wrap of the "
        "period; trace = the whole sequence of time slots replayed on the orbit's positions and on in_transit")
BOUNDS = ("periods 0.7-400, epochs negative to BJD, durations 0.01-0.45 periods, b 0 to 0.999(1+ror) both signs, ror 0-1.2, r_star 0.3-4, 26 time slots "
          "around each of 7 transits (numbers -1000..1000); r none/0/0.05/1.5 stellar radii/vector; texp none/scalar/vector/zero; 1-3 planets")
ASSUMPTIONS = ["times closer than 1e-9 of the period (plus rounding) to a contact are not judged"]


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["position"], P=[0.7, 3.0, 11.5, 400.0] + [1e4] * d, t0=[0.0, 1.3, -250.75, 2457000.5], light=[False], deep=[d])
    out += product(kind=["in_transit"], P=[0.7, 3.0, 400.0], t0=[0.0, 1.3, -250.75, 2457000.5], texp=["none", "scalar", "zero", "vector"],
                   npl=[1, 2, 3], deep=[d])
    out += product(kind=["defaults"], t=[0, 1, 2])
    return out


NS = [0, 1, -1, 7, -40, 1000, -1000]


def slots(dur, P):
    """Offsets from mid transit, in time."""
    eps = 1e-7
    f = np.array([0.0, 0.2, -0.2, 0.49, -0.49, 0.5 - eps, -0.5 + eps, 0.5 + eps, -0.5 - eps, 0.51, -0.51, 0.7, -0.7])
    g = np.array([0.3, -0.3, 0.4999, -0.4999, 0.5 - 1e-7, -0.5 + 1e-7, 0.1, -0.1, 0.45, -0.45, 0.25, -0.25, 0.4])
    return np.concatenate([np.broadcast_to(dur, (1,)) * f, P * g])


def lattice(deep):
    return grid([0.01, 0.05, 0.2, 0.45] + [0.001] * deep, [0.0, 0.3, -0.6, 0.9, 0.999], [0.0, 0.05, 0.3, 1.2], [1.0, 0.3, 4.0])


def run(c, cell):
    globals()["run_" + cell["kind"]](c, cell)


def run_position(c, cell):
    P, t0 = cell["P"], cell["t0"]
    du, bf, ror, rs = lattice(cell["deep"])
    dur = du * P
    b = bf * (1 + ror)
    n = len(b)
    t = np.concatenate([t0 + k * P + slots(d * P, P) for k in NS for d in np.unique(du)])
    one = np.ones(n)
    o = SimpleTransitOrbit(period=P * one, t0=t0 * one, b=b, duration=dur, r_star=rs, ror=ror)
    x, y, z = [np.asarray(v) for v in ev(list(o.get_relative_position(t)))]
    x2, y2, z2 = ev(list(o.get_planet_position(t)))
    star = ev(list(o.get_star_position(t)))
    ph = (t - t0) / P
    dt = (ph - np.round(ph)) * P
    dT = np.broadcast_to(dt[:, None], (len(t), n))
    eps = 40 * np.spacing(np.abs(t) + abs(t0) + 1e3 * P)[:, None] + 1e-12 * P
    wrap = np.abs(np.abs(ph - np.round(ph)) - 0.5)[:, None] * P < eps
    half = np.sqrt(((1 + ror) ** 2 - b**2)) * rs
    v = 2 * half / dur
    at = dict(t=t[:, None], dur=dur, b=b, ror=ror, rs=rs)
    c.close("distance along the chord", x, v * dT, np.where(wrap, np.inf, v * eps + 1e-9 * half), at)
    c.close("impact parameter", y, np.broadcast_to(b * rs, y.shape), 1e-13 * rs, at)
    clear = np.abs(np.abs(dT) - dur / 2) > eps
    want = np.where(np.abs(dT) < dur / 2, 1.0, -1.0)
    c.close("in front of the star", np.where(clear, np.sign(z), 0), np.where(clear, want, 0), 0, at)
    # touching the limb at both ends
    te = np.array([-0.5, 0.5])[:, None] * dur + t0
    ends = []
    for i in range(2):
        xe, ye, _ = ev(list(o.get_relative_position(te[i])))
        ends.append(np.hypot(np.diagonal(xe), np.diagonal(ye)))
    tole = 1e-9 + v * (1e-11 * P + 40 * np.spacing(abs(t0) + P))
    c.close("distance at the contacts", np.stack(ends), np.broadcast_to((1 + ror) * rs, (2, n)), np.broadcast_to(tole, (2, n)))
    for g, w in zip((x2, y2, z2), (x, y, z)):
        c.close("planet position is the relative position", g, w, 0)
    for g in star:
        c.expect(np.all(g == 0), "the star stays at the origin")
    c.lattice(dur[:, None], b[:, None], ror[:, None], rs[:, None], t[None, :])
    c.outcome("in front", int(np.sum(want > 0)))
    c.outcome("behind", int(np.sum(want < 0)))
    for name, f in [(k, (lambda g: (lambda **kw: g(t, **kw)))(getattr(o, k))) for k in
                    ("get_planet_velocity", "get_star_velocity", "get_radial_velocity")]:
        c.raises(NotImplementedError, name, f)
    for k in ("get_relative_position", "get_planet_position", "in_transit"):
        f = getattr(o, k)
        arg = pt.as_tensor_variable(t) if k == "in_transit" else t
        c.raises(NotImplementedError, f"light delay in {k}", lambda f=f, arg=arg: f(arg, light_delay=True))
    c.sample(t=t[3], x=x[3, 5], z=z[3, 5])


def run_in_transit(c, cell):
    P, t0, npl = cell["P"], cell["t0"], cell["npl"]
    du, bf, ror, rs = lattice(False)
    per = P * np.array([1.0, 1.7, 0.6])[:npl]
    ep = t0 + P * np.array([0.0, 0.21, -0.4])[:npl]
    sc = pt.dvector
    vp, vt, vb, vd, vr, tt, rr, te = sc(), sc(), sc(), sc(), sc(), sc(), sc(), (pt.dvector() if cell["texp"] == "vector" else pt.dscalar())
    vs = pt.dscalar()
    o = SimpleTransitOrbit(period=vp, t0=vt, b=vb, duration=vd, r_star=vs, ror=vr)
    kw = {} if cell["texp"] == "none" else dict(texp=te)
    F = {r: fn([vp, vt, vb, vd, vr, vs, tt, rr, te], [o.in_transit(tt, **(dict(r=rr) if r else {}), **kw)]) for r in (False, True)}
    for i in range(0, len(du), 1 if npl == 1 else 3):
        j = [(i + 17 * k) % len(du) for k in range(npl)]
        d = du[j] * per
        b = bf[j] * (1 + ror[j])
        t = np.concatenate([ep[k] + q * per[k] + slots(d[k], per[k]) for k in range(npl) for q in NS[:5]])
        if i % 2:
            t = t[::-1]
        for ri, rv in enumerate((None, 0.0, 0.05, 1.5, "own", "vector")):
            if rv == "own":
                r = ror[j] * rs[i]
            elif rv == "vector":
                r = np.array([0.3, 0.0, 0.1])[:npl] * rs[i]
            else:
                r = np.full(npl, 0.0 if rv is None else rv * rs[i])
            w = dict(none=0.0, zero=0.0, scalar=0.13 * P, vector=P * (0.02 + 0.2 * (np.arange(len(t)) % 5 == 0)))[cell["texp"]]
            got = F[rv is not None](per, ep, b, d, ror[j], rs[i], t, r, np.asarray(w if np.ndim(w) else float(w)))[0]
            ph = (t[:, None] - ep) / per
            dt = np.abs(ph - np.round(ph)) * per
            v = 2 * np.sqrt((1 + ror[j]) ** 2 - b**2) * rs[i] / d
            with np.errstate(all="ignore"):
                tol = d / 2 if rv is None else np.sqrt((r + rs[i]) ** 2 - (b * rs[i]) ** 2) / v
            lim = tol + np.reshape(w, (-1, 1)) / 2
            eps = 40 * np.spacing(np.abs(t) + abs(t0) + 1e3 * P)[:, None] + 1e-9 * P
            sure_in = np.any(dt < lim - eps, axis=1)
            maybe = np.any(np.abs(dt - lim) <= eps, axis=1)
            mask = np.zeros(len(t), bool)
            c.expect(got.ndim == 1 and len(set(got.tolist())) == len(got) and (len(got) == 0 or (got.min() >= 0 and got.max() < len(t))), "in_transit returns distinct indices")
            c.expect(np.all(np.diff(got) > 0), "in_transit indices are sorted")
            mask[got] = True
            bad = (mask != sure_in) & ~maybe
            c.expect(not np.any(bad), "in_transit", t=t[bad][:3], dt=dt[bad][:3], lim=np.broadcast_to(lim, dt.shape)[bad][:3], got=mask[bad][:3], r=rv)
            c.trace()
            c.step(len(t))
            for k in range(len(t)):
                c.state((i, ri, k))
            c.outcome("none in transit" if not mask.any() else "all in transit" if mask.all() else "some in transit")
    c.sample(per=per, in_transit=int(mask.sum()), of=len(t))


def run_defaults(c, cell):
    t = np.array([-1.0, 0.0, 0.01, 0.06, 3.01, 1.5, -2.99])
    o = SimpleTransitOrbit(period=3.0, duration=0.1)
    x, y, z = ev(list(o.get_relative_position(t)))
    dt = np.mod(t + 1.5, 3.0) - 1.5
    c.close("default x", x, dt * 2 / 0.1, 1e-9)
    c.close("default y", y, 0 * t, 0)
    c.close("default z", z, np.where(np.abs(dt) < 0.05, 1.0, -1.0), 0)
    sx = ev(list(o.get_star_position(t)))
    for g in sx:
        c.close("star at the origin", g, 0 * t, 0)
    sel = ev(o.in_transit(pt.as_tensor_variable(t)))
    c.close("default in_transit", sel, np.flatnonzero(np.abs(dt) < 0.05), 0)
    sel = ev(o.in_transit(pt.as_tensor_variable(t), texp=0.1))
    c.close("default in_transit with exposures", sel, np.flatnonzero(np.abs(dt) < 0.1), 0)
    c.lattice(t)
    c.outcome("defaults")
    c.sample(x=x)
