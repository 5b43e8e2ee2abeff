import itertools

import numpy as np

from mc.core import product
from mc.env import ev, fn, pt
from mc.orb import KeplerianOrbit, TTVOrbit
from mc.ttv import all_times, ephemeris, patterns, sample_times, shape_ref, subsets, warp

RULE = ("cell = (description given, subset or complete labels, pattern length, shape-period form); model state = (labels and timing pattern of "
        "each planet, description: transit times or TTVs); transition = converting one description into the other; trace = a round trip "
        "times -> TTVs -> times (or the other way) replayed through the orbit, with attributes and positions compared at every step")
BOUNDS = ("all patterns over 3-4 timing offsets of 2-4 (5) transits, all subsets of transits 0-4 (0-5) with at least two labels containing "
          "transit 0, 6 label sets reaching transit 5000 or starting after transit 0, permuted labels, 1-3 planets of different lengths, time offsets 0 and 2454833, period absent / separate / delta_log_period; "
          "zero TTVs for 1-7 transits against the Keplerian orbit at times up to 1000 periods away")
ALPHA = (-0.2, 0.0, 0.15)
PER = np.array([3.0, 7.3, 11.1])
MS, RS = 1.1, 0.9
MP = np.array([0.0, 0.02, 0.3])
INC = np.array([1.5, 1.4, 1.1])
E_, W_ = np.array([0.3, 0.0, 0.7]), np.array([0.7, 0.0, -2.5])


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["times"], offset=[0.0, 2454833.0], per=["none", "period", "delta"], n=[2, 3, 4] + [5] * d, ecc=[False, True])
    out += product(kind=["times-subset"], offset=[0.0, 2454833.0], per=["none", "period", "delta"], n=[4, 5] + [6] * d, ecc=[False, True])
    out += product(kind=["ttvs"], offset=[0.0, 2454833.0], n=[1, 2, 3, 4], ecc=[False, True])
    out += product(kind=["ttvs-subset"], offset=[0.0, 2454833.0], n=[4, 5], ecc=[False, True])
    out += product(kind=["times-large"], offset=[0.0, 2454833.0], per=["none", "period", "delta"], n=[len(LARGE)], ecc=[False, True])
    out += product(kind=["ttvs-large"], offset=[0.0, 2454833.0], n=[len(LARGE)], ecc=[False, True])
    out += product(kind=["zero"], npl=[1, 2, 3], ecc=["circ", "ecc", "sincos"], via=["ttvs", "times"])
    out += product(kind=["errors"])
    return out


LARGE = [(0, 1, 200, 401), (0, 190, 191, 192), (0, 1000, 3000, 5000), (150, 151, 152, 155), (7, 12, 40, 300), (0, 300, 2, 1)]


def runs_of(cell):
    n = cell["n"]
    if cell["kind"].endswith("large"):
        return [(np.array(list(p) + [0.1, -0.2]), np.array(s)) for s in LARGE for p in itertools.product(ALPHA, repeat=2)]
    if cell["kind"].endswith("subset"):
        out = []
        for s in subsets(n):
            for p in itertools.product(ALPHA, repeat=min(len(s), 2)):
                p = np.array(list(p) + [0.1, -0.2, 0.15, 0.05][: len(s) - len(p)])
                out.append((p, np.array(s)))
                if p[0] == 0:
                    out.append((p[::-1], np.array(s)[::-1]))
        return out
    return [(np.array(p), np.arange(n)) for p in patterns(ALPHA, [n])]


def common(ecc, npl=2):
    kw = dict(m_star=MS, r_star=RS, m_planet=MP[:npl], incl=INC[:npl])
    if ecc:
        kw.update(ecc=E_[:npl], omega=W_[:npl])
    return kw


def run(c, cell):
    if cell["kind"] == "errors":
        for kw in ({}, dict(period=[3.0]), dict(period=[3.0], t0=[0.0]), dict(transit_inds=[[0, 1]], period=[3.0]), dict(delta_log_period=0.1)):
            c.raises(ValueError, "neither TTVs nor transit times", TTVOrbit, **kw)
            c.state(tuple(kw))
            c.step()
        c.trace()
        c.outcome("rejected", 5)
        return
    if cell["kind"] == "zero":
        return zero(c, cell)
    npl, ecc = 2, cell["ecc"]
    subset = not cell["kind"].endswith(("times", "ttvs"))
    giving = cell["kind"].split("-")[0]
    t0v = np.array([0.4, -2.0]) + cell["offset"]
    ls = [pt.dvector() for _ in range(npl)]
    ns = [pt.lvector() for _ in range(npl)]
    t = pt.dvector()
    kw = common(ecc)
    pv, dv = pt.dvector(), pt.dvector()
    extra = []
    if giving == "times":
        kw["transit_times"] = ls
        if cell["per"] == "period":
            kw["period"] = pv
            extra = [pv]
        elif cell["per"] == "delta":
            kw["delta_log_period"] = dv
            extra = [dv]
    else:
        kw.update(ttvs=ls, t0=t0v, period=PER[:2])
    if subset:
        kw["transit_inds"] = ns
    o = TTVOrbit(**kw)
    # the other description, built from this orbit
    if giving == "times":
        back = TTVOrbit(ttvs=o.ttvs, t0=o.t0, period=o.ttv_period, **common(ecc), **(dict(transit_inds=o.transit_inds) if subset else {}))
    else:
        # a TTV orbit keeps its own ephemeris; the times alone imply the least squares one
        back = TTVOrbit(transit_times=o.transit_times, **common(ecc), **(dict(transit_inds=o.transit_inds) if subset else {})) if cell["n"] > 1 else o
    res = []
    for x in (o, back):
        res += [x.ttv_period, x.period, x.t0] + list(x.transit_times) + list(x.ttvs) + list(x.transit_inds) + list(x.get_relative_position(t))
    F = fn(ls + (ns if subset else []) + extra + [t], res)
    for i, (p, s) in enumerate(runs := runs_of(cell)):
        q, s2 = runs[(5 * i + 2) % len(runs)]
        if not subset:
            q = np.concatenate([q, [0.2, -0.1]])
            s2 = np.arange(len(q))
        inds = [s, s2]
        ttvs = [p * PER[0], q * PER[1]]
        times = [t0v[j] + PER[j] * inds[j] + ttvs[j] for j in range(npl)]
        eph = [ephemeris(times[j], inds[j]) if len(times[j]) > 1 else None for j in range(npl)]
        if giving == "times":
            P = np.array([eph[j][1] for j in range(npl)])
            t0 = np.array([eph[j][0] for j in range(npl)])
            want_ttv = [times[j] - t0[j] - P[j] * inds[j] for j in range(npl)]
        else:
            P, t0, want_ttv = PER[:2], t0v, ttvs
        shape = P.copy()
        ex = []
        if extra:
            if cell["per"] == "period":
                shape = P * np.array([1.01, 0.97])
                ex = [shape]
            else:
                d = np.array([0.02, -0.05])
                shape = P * np.exp(d)
                ex = [d]
        tt = np.concatenate([sample_times(np.sort(times[j]), PER[j]) for j in range(npl)])
        vals = times if giving == "times" else ttvs
        got = F(*vals, *([x.astype("int64") for x in inds] if subset else []), *ex, tt)
        half = len(got) // 2
        tol = 1e-9 + 2e-15 * cell["offset"] * 400
        if cell["kind"].endswith("large"):  # conditioning of the normal equations
            for x, y in zip(inds, times):
                x = x.astype(float)
                tol += 4e-15 * ((x @ x) * np.sum(np.abs(y)) + np.sum(x) * np.abs(x @ y)) / (len(x) * (x @ x) - np.sum(x) ** 2)
        at = dict(labels=str([x.tolist() for x in inds]), pattern=str(p.tolist()))

        def attrs(g, P, shape, t0, ttv, lab):
            c.close(f"{lab} ttv_period", g[0], P, tol, at)
            c.close(f"{lab} period", g[1], shape, tol, at)
            c.close(f"{lab} t0", g[2], t0, tol, at)
            for j in range(npl):
                c.close(f"{lab} transit times", g[3 + j], times[j], tol, at)
                c.close(f"{lab} TTVs", g[3 + npl + j], ttv[j], tol * 2, at)
                c.close(f"{lab} transit numbers", g[3 + 2 * npl + j], inds[j], 0, at)

        def positions(g, P, shape, t0, lab):
            want = np.empty((3, len(tt), npl))
            w = np.empty((len(tt), npl))
            for j in range(npl):
                e, om = (E_[j], W_[j]) if ecc else (0.0, 0.0)
                dt, ok = warp(tt, all_times(times[j], inds[j], t0[j], P[j]), P[j])
                r, a = shape_ref(shape[j], e, om, INC[j], 0.0, MS, MP[j])
                want[..., j] = r.rel(dt)[0]
                w[:, j] = np.where(ok, 3 * r.tol(dt, base=1e-7 + tol * 30), np.inf)
            c.close(f"{lab} positions", np.stack(g[-3:]), want, np.broadcast_to(w, want.shape), dict(t=tt[:, None], **at))

        attrs(got[:half], P, shape, t0, want_ttv, "given")
        positions(got[:half], P, shape, t0, "given")
        if giving == "times":
            attrs(got[half:], P, P, t0, want_ttv, "round trip")
            positions(got[half:], P, P, t0, "round trip")
        elif cell["n"] > 1:
            P2 = np.array([eph[j][1] for j in range(npl)])
            t2 = np.array([eph[j][0] for j in range(npl)])
            attrs(got[half:], P2, P2, t2, [times[j] - t2[j] - P2[j] * inds[j] for j in range(npl)], "from its times")
        for k in range(len(times)):
            c.state((k, tuple(inds[k]), tuple(np.round(ttvs[k], 6)), giving))
            c.state((k, tuple(inds[k]), tuple(np.round(ttvs[k], 6)), "back"))
        c.step(4)
        c.trace(2)
        c.outcome("converted", 2)
    c.sample(times=times[0], ttv_period=P, t0=t0)


def zero(c, cell):
    npl = cell["npl"]
    kw = dict(m_star=MS, r_star=RS, m_planet=MP[:npl], incl=INC[:npl])
    if cell["ecc"] == "ecc":
        kw.update(ecc=E_[:npl], omega=W_[:npl])
    elif cell["ecc"] == "sincos":
        kw.update(ecc=E_[:npl], sin_omega=np.sin(W_[:npl]), cos_omega=np.cos(W_[:npl]))
    P, t0 = PER[:npl], np.array([0.4, -2.0, 100.0])[:npl]
    kep = KeplerianOrbit(period=P, t0=t0, **kw)
    t = np.concatenate([np.linspace(-40, 90, 173), t0 + P * 1000.1, t0 - P * 1000.1, t0 + 20 * P, t0])
    obs = lambda o: list(o.get_relative_position(t)) + list(o.get_planet_position(t)) + list(o.get_star_position(t)) + [o.get_radial_velocity(t)]
    want = ev(obs(kep))
    for n in range(1 if cell["via"] == "ttvs" else 2, 8):
        lens = [n, max(1, n - 1) if cell["via"] == "ttvs" else max(2, n - 1), n + 2][:npl]
        if cell["via"] == "ttvs":
            o = TTVOrbit(period=P, t0=t0, ttvs=[np.zeros(k) for k in lens], **kw)
        else:
            o = TTVOrbit(transit_times=[t0[j] + P[j] * np.arange(k) for j, k in enumerate(lens)], **kw)
        got = ev(obs(o))
        # time slots that sit on a boundary between transits belong to either side: both are the same orbit
        for k, (g, w) in enumerate(zip(got, want)):
            c.close(f"zero TTVs reproduce the Keplerian orbit (output {k})", g, w, 1e-7 * (1 + np.max(np.abs(w))) + (1e-4 if cell["ecc"] != "circ" else 0) * np.max(np.abs(w)) * (k == 9))
        c.lattice(np.arange(npl)[:, None] + 10 * n, t[None, :])
        c.outcome(f"{n} zero TTVs")
    c.sample(n=n, x=got[0][3])
