from fractions import Fraction

import numpy as np

from mc.core import product
from mc.env import xo

RULE = ("cell = (period, reference time, window offset, input kind); model state = (window start, window end, transit number); transition = "
        "moving to the next transit number; trace = one window replayed on compute_expected_transit_times and compared with the exact "
        "rational enumeration of the transit numbers")
BOUNDS = ("all windows with ends on a quarter-period (eighth-period) grid over 4 periods, at offsets 0, +-1, +-37, +-100000 periods; 6 periods and 6 "
          "reference times exactly representable; decimal periods with ends off the transits and on the computed transits; 1-3 planets, scalar, "
          "list, integer and array inputs")
compute = xo.orbits.ttv.compute_expected_transit_times


def cells(tier):
    d = tier == "thorough"
    Ps = [1.0, 0.5, 3.0, 10.25, 0.375, 365.25]
    t0s = [0.0, 0.25, -7.5, 100.0, 2457000.0, -0.125]
    offs = [0, 1, -1, 37, -37, 1000, -100000]
    out = product(kind=["exact"], P=Ps, t0=t0s, off=offs, deep=[d])
    out += product(kind=["decimal"], P=[3.3, 0.7, 11.123, 87.97], t0=[0.1, -2.3, 2457000.123, 55.55], deep=[d])
    out += product(kind=["multi"], form=["list", "array", "int", "scalar", "npscalar", "scalar-t0"])
    return out


def exact(lo, hi, P, t0):
    lo, hi, P, t0 = map(Fraction, (lo, hi, P, t0))
    a = -((t0 - lo) // P)  # rounds up
    b = (hi - t0) // P
    return [float(t0 + P * n) for n in range(int(a), int(b) + 1)]


def check(c, got, want, lab, **at):
    c.expect(isinstance(got, np.ndarray), f"{lab}: an array", got=type(got).__name__)
    got = np.asarray(got)
    if not c.expect(got.shape == (len(want),), f"{lab}: number of transits", got=got.tolist()[:8], want=want[:8], n=[got.size, len(want)], **at):
        return
    c.expect(bool(np.all(np.abs(got - np.array(want)) <= 4 * np.spacing(np.abs(want)))) if len(want) else True, f"{lab}: times", got=got[:8], want=want[:8], **at)
    c.trace()


def run(c, cell):
    if cell["kind"] == "multi":
        return multi(c, cell)
    P, t0 = cell["P"], cell["t0"]
    if cell["kind"] == "exact":
        k = 8 if cell["deep"] else 4
        g = [t0 + P * (cell["off"] + i / k) for i in range(4 * k + 1)]
        for i, lo in enumerate(g):
            for j, hi in enumerate(g):
                if j < i - 1:
                    continue
                want = exact(lo, hi, P, t0)
                out = compute(lo, hi, P, t0)
                c.expect(isinstance(out, list) and len(out) == 1, "one entry per planet", got=len(out))
                check(c, out[0], want, "window", lo=lo, hi=hi, P=P, t0=t0)
                for n in range(len(want) + 1):
                    c.state((i, j, n))
                c.step(len(want) + 1)
                c.outcome("empty window" if not want else "ends on a transit" if want[0] == lo or want[-1] == hi else "inside")
    else:
        ns = [-100000, -40, -3, -1, 0, 1, 2, 55, 4096]
        for n in ns:
            for m in range(-1, 5):
                for di in (-0.6, -0.3, 0.3):
                    for dj in (-0.4, 0.3, 0.6):
                        lo, hi = t0 + P * (n + di), t0 + P * (n + m + dj)
                        a, b = int(np.ceil(n + di)), int(np.floor(n + m + dj))
                        want = [t0 + P * q for q in range(a, b + 1)]
                        check(c, compute(lo, hi, P, t0)[0], want, "decimal window", lo=lo, hi=hi, P=P, t0=t0)
                        c.state((n, m, di, dj))
                        c.step()
                        c.outcome("inside" if want else "empty window")
                # both ends on transits, exactly as they are computed
                lo, hi = t0 + P * n, t0 + P * (n + m)
                want = [t0 + P * q for q in range(n, n + m + 1)]
                check(c, compute(lo, hi, P, t0)[0], want, "window ending on transits", lo=lo, hi=hi, P=P, t0=t0)
                c.state((n, m))
                c.step()
                c.outcome("ends on a transit")
    c.sample(lo=lo, hi=hi, want=want)


def multi(c, cell):
    form = cell["form"]
    Ps, ts = [3.0, 0.5, 7.0], [1.0, -20.0, 400.0]
    if form == "int":
        Ps, ts = [3, 5, 7], [1, -20, 400]
    for npl in (1, 2, 3):
        for lo in np.arange(-10, 12, 1.5 if form != "int" else 2):
            for hi in np.arange(lo - 2, lo + 30, 4.0):
                p, t = Ps[:npl], ts[:npl]
                want = [exact(float(lo), float(hi), p[j], t[0] if form == "scalar-t0" else t[j]) for j in range(npl)]
                if form == "array":
                    p, t = np.array(p), np.array(t)
                if form in ("scalar", "npscalar"):
                    if npl > 1:
                        continue
                    p, t = (p[0], t[0]) if form == "scalar" else (np.float64(p[0]), np.float64(t[0]))
                if form == "scalar-t0":
                    if npl > 1:
                        continue
                    t = t[0]
                out = compute(float(lo), float(hi), p, t)
                c.expect(isinstance(out, list) and len(out) == npl, "one entry per planet", got=len(out), want=npl)
                for j in range(npl):
                    check(c, out[j], want[j], f"planet {j}", lo=lo, hi=hi)
                    c.state((npl, j, float(lo), float(hi)))
                    c.step()
                c.outcome(f"{npl} planets")
    c.sample(form=form, want=want[0])
