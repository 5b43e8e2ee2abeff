import itertools

import numpy as np

from mc.core import grid, product
from mc.env import ev, fn, pt
from mc.orb import KeplerianOrbit, TTVOrbit
from mc.ref import G, RefOrbit, t_peri_from_t0

RULE = ("cell = (eccentricity form, exposure form, a/R, orbit class); model state = (orbit, radius ratio, time relative to the contacts); "
        "transition = stepping a time across first contact, mid transit, last contact, superior conjunction and whole periods; trace = "
        "one orbit's set of times replayed on in_transit and compared with the contacts found by bisection on the reference orbit")
BOUNDS = ("a/R in {2.2, 5, 20, 90} x e in {0..0.8} x 9 omegas x 8 impact parameters (0 to beyond 1+r, both signs) x 3-4 radius ratios (0..1.3); "
          "texp none/scalar/long/vector; 1-3 planets, every subset of which may never transit; times up to 1000 periods away, unsorted, repeated; TTVs")
ASSUMPTIONS = ["times closer to a contact than 1e-4 of the duration (plus rounding) are not judged, nor are disks that are in contact at exactly the reference time (a double root of the solver in exoplanet_core)",
               "an eccentric system within 5% of grazing may report every time (its contacts may not be solvable)"]
AOR = [2.2, 5.0, 20.0, 90.0]


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["one"], ecc=["none", "omega", "sincos"], texp=["none", "scalar", "long", "vector"], aor=AOR, r=[0.0, 0.1, 1.3], deep=[d])
    out = [x for x in out if d or x["ecc"] != "sincos" or (x["r"] == 0.1 and x["texp"] in ("none", "scalar"))]
    out += product(kind=["multi"], ecc=["none", "omega"], texp=["none", "scalar", "vector"], npl=[2, 3], rform=["scalar", "vector"])
    out += product(kind=["ttv"], ecc=["none", "omega"], texp=["none", "scalar", "vector"])
    out += product(kind=["mixed"], ecc=["none", "omega"], texp=["none", "scalar", "vector"])
    out += product(kind=["order"], ecc=["none", "omega"])
    return out


def contacts(ref, R, r, t0, P):
    """For every orbit: (minimum of distance/(R+r) while in front near t0, first contact, last contact, number of intervals)."""
    u = np.linspace(-1, 1, 481)
    ph = 0.5 * u**3 * 0.999999
    def gap(dt):
        x, y, z = ref.rel(t0 + dt)[0]
        return np.where(z > 0, np.hypot(x, y), 1e9) / (R + r) - 1
    n = len(P)
    g = gap(ph[:, None] * P)
    inside = g < 0
    starts = np.sum(inside[1:] & ~inside[:-1], axis=0) + inside[0]
    i = np.argmin(g, axis=0)
    # refine the minimum by golden section
    lo, hi = ph[np.maximum(i - 1, 0)] * P, ph[np.minimum(i + 1, 480)] * P
    for _ in range(50):
        a, b = lo + 0.381966 * (hi - lo), lo + 0.618034 * (hi - lo)
        ga, gb = gap(a), gap(b)
        left = ga < gb
        hi, lo = np.where(left, b, hi), np.where(left, lo, a)
    tm = 0.5 * (lo + hi)
    gm = gap(tm)
    out = []
    for side in (-1, 1):
        inn = tm.copy()
        far = np.full(n, side * 0.4999) * P
        # nearest sample outside on that side
        for j in range(n):
            idx = np.where((ph * P[j] > tm[j]) & ~inside[:, j])[0] if side > 0 else np.where((ph * P[j] < tm[j]) & ~inside[:, j])[0]
            if len(idx):
                far[j] = ph[idx[0] if side > 0 else idx[-1]] * P[j]
        for _ in range(60):
            mid = 0.5 * (inn + far)
            ins = gap(mid) < 0
            inn, far = np.where(ins, mid, inn), np.where(ins, far, mid)
        out.append(0.5 * (inn + far))
    return gm, out[0], out[1], starts


def lattice(cell, deep=False):
    circ = cell["ecc"] == "none"
    es = [0.0] if circ else [0.0, 0.1, 0.3, 0.5, 0.8] + ([0.05, 0.2, 0.4, 0.6, 0.7] if deep else [])
    ws = [0.0] if circ else [-2.9, -np.pi / 2, -0.4, 0.0, 0.7, np.pi / 2, 2.1, np.pi, 4.0]
    bs = [0.0, 0.3, -0.6, 0.9, 1.05, 1.3, 2.0, 2.6] + ([0.01, 0.5, 0.99, -1.0, 1.09] if deep else [])
    return grid(es, ws, bs)


def run(c, cell):
    globals()["run_" + cell["kind"]](c, cell)


def run_one(c, cell):
    circ = cell["ecc"] == "none"
    e, w, b = lattice(cell, cell["deep"])
    if circ:
        b = np.concatenate([b, np.linspace(-1.2, 2.5, 60)])
        e = w = np.zeros_like(b)
    R, r, aor = 0.8, 0.8 * cell["r"], cell["aor"]
    f = (1 + e * np.sin(w)) / (1 - e**2)
    a = aor * R
    ok = (np.abs(b) * f / aor < 0.98) & (a * (1 - e) > 1.15 * (R + r))
    e, w, b, f = e[ok], w[ok], b[ok], f[ok]
    n = len(e)
    if not n:
        c.state(("empty", cell["aor"]))
        c.outcome("bodies would collide")
        return
    P = np.full(n, 4.2)
    t0 = 17.3
    ms = 4 * np.pi**2 * a**3 / (G * P[0] ** 2)
    ci = b * f / aor
    ref = RefOrbit(P, a, e, w, t_peri_from_t0(t0, P, e, w), ci, np.sqrt(1 - ci**2), 0.0)
    gm, ts, te, starts = contacts(ref, R, r, t0, P)
    tv, xv = pt.dvector(), {"none": None, "scalar": pt.dscalar(), "long": pt.dscalar(), "vector": pt.dvector()}[cell["texp"]]
    p = [pt.dscalar() for _ in range(3)]
    kw = dict(period=P[0], t0=t0, a=a, r_star=R, b=p[0])
    if not circ:
        kw.update(ecc=p[1], **(dict(omega=p[2]) if cell["ecc"] == "omega" else dict(sin_omega=pt.sin(p[2]), cos_omega=pt.cos(p[2]))))
    o = KeplerianOrbit(**kw)
    F = fn(p + [tv] + ([xv] if xv is not None else []), o.in_transit(tv, r=r, texp=xv))
    for j in range(n):
        dur = te[j] - ts[j]
        trans = gm[j] < 0
        d = dur if trans else 0.05
        scale = {"none": 0.0, "scalar": 0.3 * d, "long": 2.5 * d, "vector": 1.0}[cell["texp"]]
        k = np.array([0, 1, -1, 40, -1000])
        offs = np.array([ts[j] - 0.3 * d, ts[j] - 1e-3 * d, ts[j] + 1e-3 * d, 0.5 * (ts[j] + te[j]), te[j] - 1e-3 * d, te[j] + 1e-3 * d, te[j] + 0.3 * d,
                         0.5 * P[0], 0.31 * P[0], -0.2 * P[0], ts[j] - 0.5 * scale - 0.01 * d, ts[j] - 0.5 * scale + 0.01 * d,
                         te[j] + 0.5 * scale - 0.01 * d, te[j] + 0.5 * scale + 0.01 * d]) if trans else \
            np.array([-0.3, -0.01, 0.0, 0.01, 0.2, 0.5]) * P[0]
        t = (t0 + offs[None, :] + k[:, None] * P[0]).ravel()
        texp = {"none": 0.0, "scalar": scale, "long": scale, "vector": d * np.array([0.1, 1.7, 0.4, 0.0, 3.0])[np.arange(t.size) % 5]}[cell["texp"]]
        got = F(b[j], e[j], w[j], t, *([texp] if xv is not None else []))
        got = np.asarray(got[0] if isinstance(got, list) else got)
        c.transitions += t.size
        c.traces += 1
        c.state_count += t.size
        graz = abs(gm[j]) < (1e-4 if circ else 0.05)
        everything = np.array_equal(got, np.arange(t.size))
        if abs(gm[j]) < 1e-9 or min(abs(ts[j]), abs(te[j])) < 1e-9:
            c.outcome("contact at the reference time")
            continue
        if starts[j] > 1:
            c.outcome("two passes", 1)
            if not everything:
                c.expect(covers(got, t, t0, P[0], ts[j], te[j], texp), "an observation touched by the transit is missing", e=e[j], w=w[j], b=b[j])
            continue
        if graz and (everything or circ):
            c.outcome("grazing")
            continue
        if not trans:
            c.outcome("no transit")
            c.expect(got.size == 0 or (everything and not circ), "observations reported although the planet never transits",
                     e=e[j], w=w[j], b=b[j], got=got, gap=gm[j])
            continue
        x = np.mod(t - t0 + P[0] / 2, P[0]) - P[0] / 2
        half = 0.5 * np.asarray(texp) + 0 * t
        # distance inside the extended window, allowing for neighbouring transits
        ins = np.max([np.minimum(x + s - (ts[j] - half), (te[j] + half) - (x + s)) for s in (-P[0], 0, P[0])], axis=0)
        edge = 1e-4 * d + 1e-12 * np.abs(t) + (0.02 * d if graz else 0)
        sure = np.abs(ins) > edge
        # windows of neighbouring transits that overlap are merged by the implementation within half a period only
        if np.any(half + max(abs(ts[j]), abs(te[j])) > 0.45 * P[0]):
            sure &= half + max(abs(ts[j]), abs(te[j])) < 0.45 * P[0]
        want = ins > 0
        g = np.zeros(t.size, bool)
        g[got] = True
        bad = sure & (g != want)
        c.comparisons += int(sure.sum())
        c.outcome("in transit", np.sum(sure & want))
        c.outcome("out of transit", np.sum(sure & ~want))
        if bad.any():
            i = int(np.argmax(bad))
            c.fail("wrong observations selected", e=e[j], w=w[j], b=b[j], r=cell["r"], t=t[i], phase=x[i] / P[0], selected=bool(g[i]),
                   expected=bool(want[i]), contacts=(ts[j], te[j]), gap=gm[j], n=int(bad.sum()))
        c.expect(np.all(np.diff(got) > 0), "indices are not increasing")
    c.sample(e=e[0], w=w[0], b=b[0], contacts=(ts[0], te[0]))


def covers(got, t, t0, P, ts, te, texp):
    x = np.mod(t - t0 + P / 2, P) - P / 2
    half = 0.5 * np.asarray(texp) + 0 * t
    d = te - ts
    must = (x > ts - half + 1e-3 * d) & (x < te + half - 1e-3 * d)
    return set(np.where(must)[0]) <= set(np.asarray(got).tolist())


def system(npl, circ):
    P = np.array([3.1, 7.7, 12.9])[:npl]
    t0 = np.array([0.3, -2.0, 5.0])[:npl]
    e = np.array([0.0, 0.2, 0.4])[:npl] * (0 if circ else 1)
    w = np.array([0.3, -1.1, 2.5])[:npl] * (0 if circ else 1)
    b = np.array([0.1, -0.5, 0.7])[:npl]
    R, ms = 1.1, 0.9
    a = (G * ms * P**2 / (4 * np.pi**2)) ** (1 / 3)
    f = (1 + e * np.sin(w)) / (1 - e**2)
    ci = b * f * R / a
    ref = RefOrbit(P, a, e, w, t_peri_from_t0(t0, P, e, w), ci, np.sqrt(1 - ci**2), 0.0)
    kw = dict(period=P, t0=t0, b=b, m_star=ms, r_star=R)
    if not circ:
        kw.update(ecc=e, omega=w)
    return P, t0, R, ref, kw


def run_multi(c, cell):
    circ, npl = cell["ecc"] == "none", cell["npl"]
    P, t0, R, ref, kw = system(npl, circ)
    r = 0.07 if cell["rform"] == "scalar" else np.array([0.02, 0.3, 0.1])[:npl]
    gm, ts, te, _ = contacts(ref, R, r, t0, P)
    o = KeplerianOrbit(**kw)
    t = np.linspace(-30, 60, 1801)
    texp = dict(none=None, scalar=0.21, vector=np.array([0.01, 0.4, 0.15, 0.8])[np.arange(t.size) % 4])[cell["texp"]]
    got = ev(o.in_transit(t, r=r, texp=texp))
    half = 0.0 if texp is None else 0.5 * np.asarray(texp)
    judge(c, t, P, t0, ts, te, half, got)
    c.sample(contacts=list(zip(ts, te)), selected=len(got))


def judge(c, t, P, t0, ts, te, half, got, x=None):
    if x is None:
        x = np.mod(t[:, None] - t0 + P / 2, P) - P / 2
    half = np.broadcast_to(half, t.shape)[:, None]
    ins = np.max(np.minimum(x - (ts - half), te + half - x), axis=1)
    sure = np.min(np.minimum(np.abs(x - (ts - half)), np.abs(te + half - x)), axis=1) > 1e-5
    g = np.zeros(t.size, bool)
    g[got] = True
    c.lattice(t, np.sum(g))
    c.comparisons += int(sure.sum())
    bad = sure & (g != (ins > 0))
    c.outcome("in transit", np.sum(sure & (ins > 0)))
    c.outcome("out of transit", np.sum(sure & (ins <= 0)))
    if bad.any():
        i = int(np.argmax(bad))
        c.fail("wrong observations selected", t=t[i], selected=bool(g[i]), n=int(bad.sum()))
    c.expect(np.all(np.diff(got) > 0), "indices are not increasing")


def run_ttv(c, cell):
    circ = cell["ecc"] == "none"
    P, t0, R, ref, kw = system(3, circ)
    r = np.array([0.02, 0.3, 0.1])
    gm, ts, te, _ = contacts(ref, R, r, t0, P)
    ttvs = [np.array([0.0, 0.1, -0.2, 0.05]), np.array([0.3, -0.1]), np.array([0.5, -0.4, 0.0])]
    o = TTVOrbit(ttvs=ttvs, **kw)
    t = np.linspace(-20, 50, 1803)
    texp = dict(none=None, scalar=0.21, vector=np.array([0.01, 0.4, 0.15, 0.8])[np.arange(t.size) % 4])[cell["texp"]]
    got = ev(o.in_transit(t, r=r, texp=texp))
    x = np.empty((t.size, 3))
    keep = np.ones(t.size, bool)
    for j in range(3):
        lab = t0[j] + P[j] * np.arange(len(ttvs[j])) + ttvs[j]
        edges = np.concatenate([[lab[0] - P[j] / 2], (lab[1:] + lab[:-1]) / 2, [lab[-1] + P[j] / 2]])
        val = np.concatenate([[lab[0]], lab, [lab[-1]]])
        d = t - val[np.searchsorted(edges, t)]
        x[:, j] = np.mod(d + P[j] / 2, P[j]) - P[j] / 2
    judge(c, t, P, t0, ts, te, 0.0 if texp is None else 0.5 * np.asarray(texp), got, x)
    c.sample(selected=len(got))


def run_mixed(c, cell):
    """Some of the planets never transit."""
    circ = cell["ecc"] == "none"
    P, t0, R, ref, kw = system(3, circ)
    t = np.linspace(-30, 60, 1801)
    texp = dict(none=None, scalar=0.21, vector=np.array([0.01, 0.4, 0.15, 0.8])[np.arange(t.size) % 4])[cell["texp"]]
    half = 0.0 if texp is None else 0.5 * np.asarray(texp)
    r = np.array([0.02, 0.3, 0.1])
    gm, ts, te, _ = contacts(ref, R, r, t0, P)
    for away in itertools.product((False, True), repeat=3):
        away = np.array(away)
        for b in (1.6, -2.5, 4.0):
            o = KeplerianOrbit(**dict(kw, b=np.where(away, b, kw["b"])))
            got = np.asarray(ev(o.in_transit(t, r=r, texp=texp)))
            c.state((tuple(away), b))
            c.step()
            c.trace()
            if away.any() and not circ and np.array_equal(got, np.arange(t.size)):
                c.outcome("every time")
            elif away.all():
                c.expect(got.size == 0, "observations reported although no planet transits", n=got.size)
            else:
                judge(c, t, P[~away], t0[~away], ts[~away], te[~away], half, got)


def run_order(c, cell):
    """Unsorted, repeated, empty and single times."""
    circ = cell["ecc"] == "none"
    P, t0, R, ref, kw = system(2, circ)
    r = 0.05
    gm, ts, te, _ = contacts(ref, R, r, t0, P)
    o = KeplerianOrbit(**kw)
    base = np.array([0.3, -2.0, 0.3, 9.0, 0.31, 5.7, 100.0, 0.3 + 3.1])
    f = fn([tv := pt.dvector()], o.in_transit(tv, r=r))
    perms = [list(p) for p in itertools.permutations(range(5))] + [list(range(8)), [7, 6, 5, 4, 3, 2, 1, 0], [3], [0], [], [0, 0, 0], [3, 3]]
    for p in perms:
        t = base[p] if p else np.zeros(0)
        got = np.asarray(f(t))
        if p:
            judge(c, t, P, t0, ts, te, 0.0, got)
        else:
            c.expect(got.size == 0, "no times, no indices")
    c.outcome("orders", len(perms))
    g2 = ev(o.in_transit(base))
    c.expect(set(g2) <= set(ev(o.in_transit(base, r=r))), "the default radius is zero")
    c.raises(NotImplementedError, "light delay", o.in_transit, base, light_delay=True)
