import itertools

import numpy as np

from mc.core import product
from mc.env import ev, fn, pt
from mc.orb import TTVOrbit
from mc.ttv import all_times, ephemeris, patterns, sample_times, shape_ref, subsets, warp

RULE = ("cell = (description of the timing, eccentricity form, symbolic or constant input, pattern length); model state = (observed subset, "
        "timing pattern of each planet, time slot relative to the transits); transition = advancing the time past a transit, a boundary or "
        "an end; trace = one timing pattern replayed on the orbit at every slot: every body's position against the shifted reference orbit")
BOUNDS = ("all patterns over 3 timing offsets (-0.3, 0, 0.25 periods) of 2-4 (5) transits; all subsets of transits 0-4 (0-5) that contain "
          "transit 0, in order and permuted; 6 label sets reaching transit 5000 or starting after transit 0; 1-3 planets with independent patterns; eccentricity 0, 0.3, 0.7")
ALPHA = (-0.3, 0.0, 0.25)
PER = np.array([3.0, 7.3, 11.1])
T0 = np.array([0.4, -2.0, 100.0])
MS, MP, RS = 1.1, np.array([0.0, 0.02, 0.3]), 0.9
INC = np.array([1.5, 1.4, 1.1])


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["full"], give=["ttvs", "times"], form=["circ", "ecc"], const=[False], n=[2, 3, 4] + [5] * d, first=[0, 1, 2])
    out += product(kind=["subset"], give=["ttvs", "times"], form=["circ", "ecc"], const=[False], n=[4, 5] + [6] * d, first=[0, 1, 2])
    out += product(kind=["large"], give=["ttvs", "times"], form=["circ", "ecc"], const=[False], n=[4], first=[0])
    out += product(kind=["const"], give=["ttvs", "times"], form=["circ", "ecc", "sincos"], const=[True], n=[1, 2, 3])
    return [x for x in out if not (x["give"] == "times" and x["n"] == 1)]


LARGE = [(0, 1, 200, 401), (0, 190, 191, 192), (0, 1000, 3000, 5000), (7, 12, 40, 300), (150, 152, 153, 190), (0, 300, 2, 1)]


def elements(form):
    if form == "circ":
        return np.zeros(3), np.zeros(3)
    return np.array([0.3, 0.0, 0.7]), np.array([0.7, 0.0, -2.5])


def build(form, npl, give, labels, inds, t0, per):
    """labels/inds are lists with one entry per planet (arrays or symbolic vectors)."""
    e, w = elements(form)
    kw = dict(m_star=MS, m_planet=MP[:npl], r_star=RS, incl=INC[:npl])
    if form == "ecc":
        kw.update(ecc=e[:npl], omega=w[:npl])
    if form == "sincos":
        kw.update(ecc=e[:npl], sin_omega=np.sin(w[:npl]), cos_omega=np.cos(w[:npl]))
    if give == "ttvs":
        kw.update(period=per[:npl], t0=t0[:npl], ttvs=labels)
    else:
        kw.update(transit_times=labels)
    if inds is not None:
        kw["transit_inds"] = inds
    return TTVOrbit(**kw)


def expected(give, form, npl, ttvs, inds, t):
    """(times of label, positions, tolerance, mask) from the reference model. ttvs in days."""
    e, w = elements(form)
    pos = np.empty((3, 3, len(t), npl))
    tol = np.empty((len(t), npl))
    ok = np.empty((len(t), npl), bool)
    for j in range(npl):
        lab = T0[j] + PER[j] * np.asarray(inds[j]) + ttvs[j]
        t0, P = (T0[j], PER[j]) if give == "ttvs" else ephemeris(lab, inds[j])
        dt, ok[:, j] = warp(t, all_times(lab, inds[j], t0, P), P)
        r, a = shape_ref(P, e[j], w[j], INC[j], 0.0, MS, MP[j])
        x = r.rel(dt)[0]
        pos[0, ..., j], pos[1, ..., j], pos[2, ..., j] = x, x * MS / (MS + MP[j]), -x * MP[j] / (MS + MP[j])
        tol[:, j] = 3 * r.tol(dt, base=1e-7)
    return pos, tol, ok


def check(c, lab, got, want, t, at):
    pos, tol, ok = want
    for k, name in enumerate(("relative", "planet", "star")):
        g = np.reshape(np.stack(got[3 * k:3 * k + 3]), pos[k].shape)
        tl = np.where(ok, tol, np.inf)
        c.close(f"{name} position, {lab}", g, pos[k], np.broadcast_to(tl, pos[k].shape), dict(t=t[:, None], **at))
    c.step(pos.shape[2])
    c.trace()


def outs(o, t):
    return list(o.get_relative_position(t)) + list(o.get_planet_position(t)) + list(o.get_star_position(t))


def run(c, cell):
    give, form = cell["give"], cell["form"]
    if cell["kind"] == "const":
        return const(c, cell)
    npl = 2
    ls = [pt.dvector() for _ in range(npl)]
    ns = [pt.lvector() for _ in range(npl)]
    t = pt.dvector()
    subset = cell["kind"] != "full"
    o = build(form, npl, give, ls, ns if subset else None, T0, PER)
    F = fn(ls + (ns if subset else []) + [t], outs(o, t))
    full = [np.array(p) for p in patterns(ALPHA, [cell["n"]]) if p[0] == ALPHA[cell["first"]]]
    if cell["kind"] == "large":
        runs = [(np.array(list(p) + [0.1, -0.2]), np.array(s)) for s in LARGE for p in itertools.product(ALPHA, repeat=2)]
    elif subset:
        runs = []
        for i, s in enumerate(subsets(cell["n"])):
            for p in itertools.product(ALPHA, repeat=min(len(s), 3)):
                if p[0] == ALPHA[cell["first"]]:
                    p = np.array(list(p) + [0.1, -0.2, 0.15][: len(s) - len(p)])
                    runs.append((p, np.array(s)))
                    if sum(map(ord, repr(p))) % 3 == 0:  # the same labels listed in another order
                        runs.append((p[::-1], np.array(s)[::-1]))
    else:
        runs = [(p, np.arange(len(p))) for p in full]
    for i, (p, s) in enumerate(runs):
        # the second planet follows a different pattern, of another length
        q, s2 = runs[(7 * i + 3) % len(runs)]
        if not subset:
            q = np.concatenate([q, [0.2]])
            s2 = np.arange(len(q))
        ttvs = [p * PER[0], q * PER[1]]
        inds = [s, s2]
        times = [T0[j] + PER[j] * inds[j] + ttvs[j] for j in range(2)]
        seen = times
        if cell["kind"] == "subset":  # the transits without a label count as well
            seen = [all_times(times[j], inds[j], *((T0[j], PER[j]) if give == "ttvs" else ephemeris(times[j], inds[j]))) for j in range(2)]
        tt = np.concatenate([sample_times(np.sort(seen[j]), PER[j]) for j in range(2)])
        vals = ttvs if give == "ttvs" else times
        got = F(*vals, *([x.astype("int64") for x in inds] if subset else []), tt)
        check(c, "transits", got, expected(give, form, npl, ttvs, inds, tt), tt, dict(labels=str([x.tolist() for x in inds])))
        # every label is a mid-transit: at the label the planet is where the reference orbit is at its transit
        for j in range(npl):
            got = F(*vals, *([x.astype("int64") for x in inds] if subset else []), times[j])
            e, w = elements(form)
            P = PER[j] if give == "ttvs" else ephemeris(times[j], inds[j])[1]
            r, a = shape_ref(P, e[j], w[j], INC[j], 0.0, MS, MP[j])
            want = r.rel(np.zeros(1))[0]
            c.close("position at the labelled transits", np.stack(got[:3])[:, :, j], np.broadcast_to(want, (3, len(times[j]))), 1e-6 * a)
            c.expect(np.all(got[2][:, j] > 0), "in front of the star at every labelled transit", inds=inds[j], ttvs=ttvs[j])
            c.state(("labels", j, tuple(inds[j]), tuple(np.round(ttvs[j], 6))))
        for k in range(len(tt)):
            c.state((tuple(s), tuple(p), k))
        c.outcome("labels with gaps" if len(s) <= np.max(s) else "complete labels", len(tt))
    c.sample(pattern=p, inds=s, t=tt[3], x=got[0][0])


def const(c, cell):
    give, form, n = cell["give"], cell["form"], cell["n"]
    for npl in (1, 2, 3):
        for i, p in enumerate(patterns(ALPHA, [n])):
            if npl > 1 and i % 4:
                continue
            P = [np.array(p), np.array((p[::-1] + [0.1, -0.2])), np.array([0.1] + p)][:npl]
            ttvs = [x * PER[j] for j, x in enumerate(P)]
            inds = [np.arange(len(x)) for x in P]
            times = [T0[j] + PER[j] * inds[j] + ttvs[j] for j in range(npl)]
            vals = ttvs if give == "ttvs" else times
            if i % 2:
                vals = [x.tolist() for x in vals]
            o = build(form, npl, give, vals, None, T0, PER)
            tt = np.concatenate([sample_times(times[j], PER[j]) for j in range(npl)])
            check(c, f"{npl} planets", ev(outs(o, tt)), expected(give, form, npl, ttvs, inds, tt), tt, dict(pattern=str(p)))
            for k in range(len(tt)):
                c.state((npl, tuple(p), k))
            c.outcome(f"{npl} planets", len(tt))
    c.sample(pattern=p, npl=npl)
