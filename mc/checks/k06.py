import warnings

import numpy as np

from mc.core import grid, product
from mc.env import ev, fn, pt
from mc.orb import KeplerianOrbit, TTVOrbit, Spec
from mc.ref import G, GCC

RULE = ("cell = (circular/eccentric, radius ratio given as None/scalar/vector, which inputs); model state = (period, duration, impact "
        "parameter, radius ratio, stellar radius, elements, contact); transition = moving through the two contacts of transits "
        "0, 1, -3, 400; trace = one orbit's contacts replayed on the implementation. Jacobians are compared with the closed-form "
        "derivative of the implied system and with central differences of the attributes")
BOUNDS = "5 durations (0.1% to 20% of the period) x 6 impact parameters x 5 radius ratios x 3 stellar radii x 3 periods x 3 planet masses; e in {0..0.7} x 8 omegas x a/R in {12, 30, 100}"
ASSUMPTIONS = ["eccentric case: the standard approximation is Winn (2010) eqs. 14 and 16; the true contacts may differ by O((R/a)^2)"]


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["circ"], ror=["none", "scalar", "vector"], star=[0.6, 1.0, 3.0], P=[0.9, 7.7, 250.0], mp=[0.0, 1e-3, 0.4],
                  cls=["kep", "ttv"], deep=[d])
    out += product(kind=["ecc"], ror=["none", "scalar", "vector"], om=["omega", "sincos"], par=["period+m_star+r_star", "a", "period+a", "period+rho_star", "period"],
                   epoch=["t0", "t_periastron"], deep=[d])
    out += product(kind=["jac"], ror=[None, 0.0, 0.1, 1.2], mp=[0.0, 0.02, 0.5], P=[2.0, 33.0], rs=[None, 0.7], deep=[d])
    out += product(kind=["errors"], vec=[False, True])
    return out


def run(c, cell):
    globals()["run_" + cell["kind"]](c, cell)


def run_circ(c, cell):
    P, rs = cell["P"], cell["star"]
    rors = [0.0] if cell["ror"] == "none" else ([0.1] if cell["ror"] == "scalar" else [0.0, 0.01, 0.12, 0.9, 1.6])
    fr, b, k = grid([0.001, 0.02, 0.1, 0.2, 0.24], [0.0, 0.1, 0.5, 0.9, 0.99, 1.05], rors)
    ok = b < 1 + k - 0.005
    fr, b, k = fr[ok], b[ok], k[ok]
    dur = fr * P
    t0 = 3.2
    n = len(dur)
    kw = dict(period=np.full(n, P), duration=dur, b=b, r_star=rs, t0=t0, m_planet=cell["mp"])
    if cell["ror"] == "scalar":
        kw["ror"] = rors[0]
    elif cell["ror"] == "vector":
        kw["ror"] = k
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        if cell["cls"] == "ttv":
            sub = slice(None, None, 7)
            for x in ("period", "duration", "b", "ror"):
                if np.ndim(kw.get(x, 0)):
                    kw[x] = kw[x][sub]
            fr, b, k, dur = fr[sub], b[sub], k[sub], dur[sub]
            n = len(dur)
            kw["t0"] = np.full(n, t0)
            kw["ttvs"] = [np.zeros(3)] * n
            o = TTVOrbit(**kw)
        else:
            o = KeplerianOrbit(**kw)
    warned = any(issubclass(w.category, UserWarning) and "ror" in str(w.message) for w in rec)
    c.expect(warned == (cell["ror"] == "none"), "warning about a missing ror", warned=warned)
    N = np.array([0, 1, -3, 400])
    if cell["cls"] == "ttv":
        N = np.array([0, 1, 2, -1])
    # reference system
    phi = np.pi * fr
    a = rs * np.sqrt((1 + k) ** 2 - b**2 * np.cos(phi) ** 2) / np.sin(phi)
    mt = 4 * np.pi**2 * a**3 / (G * P**2)
    at = dict(dur=dur, b=b, k=k)
    g = ev([o.a, o.b, o.m_total, o.rho_star, o.r_star, o.period])
    c.close("a", np.broadcast_to(g[0], a.shape), a, 1e-10 * a, at)
    c.close("b unchanged", np.broadcast_to(g[1], b.shape), b, 1e-12, at)
    c.close("m_total", np.broadcast_to(g[2], a.shape), mt, 1e-9 * mt, at)
    c.close("rho_star", np.broadcast_to(g[3], a.shape), (mt - cell["mp"]) / (4 / 3 * np.pi * rs**3) * GCC, 1e-9 * (mt + cell["mp"]) / rs**3 * GCC, at)
    c.expect(np.allclose(g[4], rs, rtol=1e-14) and np.allclose(g[5], P, rtol=1e-14), "given values changed", rs=g[4])
    off = np.array([-0.5, 0.5, -0.49, 0.49, -0.51, 0.51, 0.0])
    for nn in N:
        t = t0 + nn * P + dur[:, None] * off  # (planet, event)
        x = ev(list(o.get_relative_position(t.ravel())))
        x = [v.reshape(n, len(off), n)[np.arange(n), :, np.arange(n)] for v in x]
        d = np.hypot(x[0], x[1])
        want = (1 + k) * rs
        tol = 1e-8 * rs * np.maximum(1, a * 2 * np.pi / rs) * (1 + abs(nn) * 1e-4)
        c.close("sky distance at first contact", d[:, 0], want, tol, at)
        c.close("sky distance at last contact", d[:, 1], want, tol, at)
        c.expect(bool(np.all(x[2] > 0)), "planet is not in front of the star during the transit")
        c.expect(bool(np.all(d[:, 2:4] < want[:, None])), "disks do not touch just inside the contacts")
        c.expect(bool(np.all(d[:, 4:6] > want[:, None])), "disks touch just outside the contacts")
        c.close("sky distance at mid transit", d[:, 6], b * rs, tol, at)
        c.outcome("first contact", n)
        c.outcome("last contact", n)
    c.lattice(fr[:, None], b[:, None], k[:, None], (N[:, None] + off[:2][None]).ravel()[None, :])
    c.sample(dur=dur[0], b=b[0], k=k[0], a=a[0])


def run_ecc(c, cell):
    deep = cell["deep"]
    rors = [0.0] if cell["ror"] == "none" else ([0.08] if cell["ror"] == "scalar" else [0.0, 0.03, 0.15, 0.6])
    aor, e, w, b, k = grid([12.0, 30.0, 100.0], [0.0, 0.1, 0.3, 0.5, 0.7] if not deep else [0.0, 0.02, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7],
                           [-2.8, -1.5707963267948966, -0.4, 0.0, 0.7, 1.5707963267948966, 2.1, 3.0], [0.05, 0.3, 0.6, 0.85], rors)
    rs, ms, mp = 0.8, 0.9, 0.05
    if cell["par"] in ("a", "period"):
        rs, ms = 1.0, 1.0
    if cell["par"] == "period+rho_star":
        rs = 1.0
    # period that gives the requested a/R
    a = aor * rs
    P = 2 * np.pi * np.sqrt(a**3 / (G * (ms + mp)))
    f = (1 + e * np.sin(w)) / (1 - e**2)
    ok = (b * f / aor < 0.9) & (a * (1 - e) > 3 * rs * (1 + k))
    aor, e, w, b, k, a, P, f = [v[ok] for v in (aor, e, w, b, k, a, P, f)]
    inc = np.arccos(b * f * rs / a)
    t0 = -1.5
    s = Spec(P, e, w, inc, 0.0, t0, ms, mp, rs)
    fe = np.sqrt(1 - e**2) / (1 + e * np.sin(w))
    arg = np.sqrt((1 + k) ** 2 - b**2) / (aor * np.sin(inc))
    dur = P / np.pi * fe * np.arcsin(arg)
    ok2 = dur * np.pi / (P * fe) < 1.5
    assert ok2.all()
    kw = dict(ecc=e, duration=dur, m_planet=mp)
    kw.update(dict(omega=w) if cell["om"] == "omega" else dict(sin_omega=np.sin(w), cos_omega=np.cos(w)))
    kw.update(dict(t0=t0) if cell["epoch"] == "t0" else dict(t_periastron=s.tp))
    for p in cell["par"].split("+"):
        kw[p] = dict(period=P, a=a, m_star=ms, r_star=rs, rho_star=s.rho)[p]
    if cell["par"] == "period+a":
        kw["r_star"] = rs
    if cell["ror"] == "scalar":
        kw["ror"] = rors[0]
    elif cell["ror"] == "vector":
        kw["ror"] = k
    o = KeplerianOrbit(**kw)
    at = dict(aor=aor, e=e, w=w, b=b, k=k)
    gb, gd, gi, gc = ev([o.b, o.duration, o.incl, o.cos_incl])
    c.close("impact parameter implied by the duration", np.broadcast_to(gb, b.shape), b, 1e-8 + 1e-9 / b, at)
    c.close("duration attribute", np.broadcast_to(gd, b.shape), dur, 1e-14 * dur, at)
    c.close("inclination implied by the duration", np.broadcast_to(gi, b.shape), inc, 1e-7, at)
    # physical contacts of the returned motion
    off = np.array([-0.5, 0.5, 0.0])
    idx = np.arange(0, len(b), max(1, len(b) // (300 if deep else 120)))
    t = t0 + dur[idx, None] * off
    x = ev(list(o.get_relative_position(t.ravel())))
    x = [v.reshape(len(idx), 3, len(b))[np.arange(len(idx)), :, idx] for v in x]
    d = np.hypot(x[0], x[1])
    want = ((1 + k) * rs)[idx]
    # the standard approximation treats the sky speed as constant: errors of order e (R/a) asymmetric, (R/a)^2 in the mean
    rel = (1 + k[idx]) / aor[idx] * (1 + e[idx]) / (1 - e[idx]) ** 2
    mean = 0.5 * (d[:, 0] + d[:, 1])
    c.close("mean sky distance at -+duration/2", mean, want, want * (0.002 + 4 * rel**2), {kk: v[idx] for kk, v in at.items()})
    c.close("sky distance at -duration/2", d[:, 0], want, want * (0.002 + 2 * rel), {kk: v[idx] for kk, v in at.items()})
    c.close("sky distance at +duration/2", d[:, 1], want, want * (0.002 + 2 * rel), {kk: v[idx] for kk, v in at.items()})
    c.expect(bool(np.all(x[2] > 0)), "planet is behind the star at the contacts")
    c.lattice(aor[:, None], e[:, None], w[:, None], b[:, None], k[:, None], off[None, :])
    c.outcome("eccentric", len(b))
    c.sample(e=e[-1], w=w[-1], b=b[-1], dur=dur[-1], got=gb[-1])


def run_jac(c, cell):
    P, mp, ror = cell["P"], cell["mp"], cell["ror"]
    rs = 1.0 if cell["rs"] is None else cell["rs"]
    k = 0.0 if ror is None else ror
    fr, b = grid([0.002, 0.02, 0.06, 0.15, 0.23], [0.0, 0.2, 0.6, 0.95])
    dur = fr * P
    dv = pt.dvector()
    kw = dict(period=np.full(len(b), P), duration=dv, b=b, m_planet=mp)
    if ror is not None:
        kw["ror"] = ror
    if cell["rs"] is not None:
        kw["r_star"] = cell["rs"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = KeplerianOrbit(**kw)
    names = ("a", "a_star", "a_planet", "rho_star")
    z = pt.zeros_like(dv)
    J = fn([dv], [o.jacobians["duration"][n] + z for n in names])
    F = fn([dv], [getattr(o, n) + z for n in names])
    got = dict(zip(names, J(dur)))
    # closed form: d ln a / d duration
    phi = np.pi * fr
    num2 = (1 + k) ** 2 - b**2 * np.cos(phi) ** 2
    a = rs * np.sqrt(num2) / np.sin(phi)
    dlna = (b**2 * np.cos(phi) * np.sin(phi) / num2 - np.cos(phi) / np.sin(phi)) * np.pi / P
    mt = 4 * np.pi**2 * a**3 / (G * P**2)
    want = dict(a=a * dlna, a_star=-2 * a * dlna * mp / mt, rho_star=3 * dlna * mt / (4 / 3 * np.pi * rs**3) * GCC)
    want["a_planet"] = want["a_star"] - want["a"]
    at = dict(fr=fr, b=b)
    h = 1e-5 * dur
    up, dn = F(dur + h), F(dur - h)
    for i, n in enumerate(names):
        sc = np.abs(want[n])
        c.close(f"d {n} / d duration", got[n], want[n], 1e-8 * sc, at)
        num = (up[i] - dn[i]) / (2 * h)
        c.close(f"numerical d {n} / d duration", got[n], num, 1e-5 * sc + 1e-9 * (np.abs(up[i]) + a * (n != "rho_star")) / dur, at)
    c.close("d cos(incl) / db", fn([dv], [o.jacobians["b"]["cos_incl"] + z])(dur)[0], rs / a, 1e-9 * rs / a, at)
    c.lattice(fr, b)
    c.outcome("jacobian", len(b))
    c.sample(fr=fr[3], b=b[3], got=got["a"][3])


def run_errors(c, cell):
    d = np.array([0.1, 0.2]) if cell["vec"] else 0.1
    z = np.zeros(2) if cell["vec"] else 0.0
    P = np.array([3.0, 5.0]) if cell["vec"] else 3.0
    n = 0
    for kw in (dict(), dict(ror=0.1), dict(r_star=0.9), dict(ror=0.1, r_star=1.2, t0=0.3), dict(m_planet=0.1), dict(incl=1.5, ror=0.1)):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.raises(ValueError, "duration without b", KeplerianOrbit, period=P, duration=d, **kw)
        n += 1
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            kw.pop("incl", None)
            KeplerianOrbit(period=P, duration=d, b=z, **kw)
        warned = any(issubclass(w.category, UserWarning) and not issubclass(w.category, DeprecationWarning) and "ror" in str(w.message) for w in rec)
        c.expect(warned == ("ror" not in kw), "warning about a missing ror", kw=sorted(kw), warned=warned)
        c.state((tuple(sorted(kw)), n))
        c.step()
    c.trace(n)
    c.outcome("ValueError", n)
