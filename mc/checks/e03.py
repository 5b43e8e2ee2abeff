import astropy.units as u
import numpy as np

from mc.core import product
from mc.env import xo

RULE = ("cell = (number of planets, periods, transit times known or not, how the weights are given); model state = (semi-amplitudes, phases, offset, sampling, units); "
        "transition = changing one of these; trace = one noiseless series given to the estimators")
BOUNDS = ("1-4 planets x 3 period sets x {known, unknown} transit times x 5 kinds of weights x {noiseless, noise, a signal in quadrature, outliers with or without enormous uncertainties} x 4 amplitude sets x 4 phase sets x 3 offsets x 3 samplings x "
          "7 unit systems; stellar masses 0.1..5 for the minimum mass")
ASSUMPTIONS = ["the minimum mass is compared at 5e-5: the code's constant has 6 digits and the planet's mass is neglected against the star's"]
PERIODS = {"a": [3.7, 11.3, 29.1, 61.7], "b": [0.55, 2.31, 5.9, 16.2], "c": [40.3, 7.1, 1.93, 19.7]}
AMP = [[10.0, 3.0, 1.5, 0.7], [0.5, 80.0, 4.0, 20.0], [1e-3, 2e-3, 5e-4, 3e-3], [500.0, 100.0, 50.0, 900.0]]
PH = [[0.0, 0.0, 0.0, 0.0], [0.1, 0.35, 0.6, 0.85], [0.5, 0.25, 0.75, 0.999], [-3.2, 12.4, 0.7, 5.5]]
OFFS = [0.0, -37.5, 3.2e4]
G, MSUN, MJUP, YEAR, DAY = 6.6743e-11, 1.98841e30, 1.898125e27, 365.25 * 86400.0, 86400.0


def times(k):
    n = 97
    i = np.arange(n)
    x = 61.7 * 1.7 * i / n + [0.0, 0.7, 0.3][k] * np.sin(12.9898 * i)
    return np.sort(x) if k < 2 else x[::-1] + 2000.0


def cells(tier):
    return product(npl=[1, 2, 3, 4], per=list(PERIODS), t0=[True, False], w=["none", "ones", "scalar", "varying", "huge"], tier=[tier])


def run(c, cell):
    n = cell["npl"]
    P = np.array(PERIODS[cell["per"]][:n])
    for ia, amp in enumerate(AMP):
        for ip, ph in enumerate(PH):
            for io, off in enumerate(OFFS):
                for k in range(3):
                    x = times(k)
                    K, phi = np.array(amp[:n]), np.array(ph[:n])
                    t0 = phi * P + (1990.0 if k == 2 else 0.0)
                    # the planet approaches the observer before its transit, so the star recedes (positive velocity)
                    y = off - np.sum(K * np.sin(2 * np.pi * (x[:, None] - t0) / P), axis=1)
                    i = np.arange(len(x))
                    s = max(K)
                    yerr = dict(none=None, ones=np.ones(len(x)), scalar=0.3 * s, varying=s * (0.1 + 0.09 * np.sin(0.7 * i)),
                                huge=1e6 * (1 + 0.5 * np.cos(i)))[cell["w"]]
                    combos = list(range(len(UNITS))) if cell["tier"] == "thorough" else [0, 1 + (ia + ip + io + k) % (len(UNITS) - 1)]
                    # data with something else in them: the weights and the known phases decide
                    if io == ip % len(OFFS):
                        for bad in range(3):
                            noisy(c, cell, P, x, y, yerr, t0, s, bad, (ia, ip, io, k))
                    for iu in combos:
                        one(c, cell, iu, P, x, y, yerr, t0 if cell["t0"] else None, K, off, (ia, ip, io, k))
    c.sample(K=K, periods=P, offset=off)


def noisy(c, cell, P, x, y, yerr, t0, s, bad, key):
    """Any data, not only sums of sinusoids: the estimate is the weighted least-squares one."""
    i = np.arange(len(x))
    if bad == 0:
        z = y + 0.3 * s * np.sin(5.1 * i**1.3)
    elif bad == 1:
        z = y + 0.6 * s * np.cos(2 * np.pi * (x - t0[0]) / P[0])  # a signal in quadrature with the first planet
    else:
        z = y + np.where(i % 13 == 4, 50.0 * s, 0.0)
    e = yerr
    if bad == 2 and cell["w"] in ("ones", "varying"):
        e = yerr * np.where(i % 13 == 4, 1e7, 1.0)  # outliers that say so: they must not count
    ph = 2 * np.pi * (x[:, None] - t0) / P
    cols = [-np.sin(ph)] if cell["t0"] else [np.sin(ph), np.cos(ph)]
    w = (1.0 if e is None else 1.0 / (e * np.ones(len(x)) / np.min(e))) * np.ones(len(x))
    sol = np.linalg.lstsq(np.concatenate(cols + [np.ones((len(x), 1))], axis=1) * w[:, None], z * w, rcond=None)[0]
    n = len(P)
    want = sol[:n] if cell["t0"] else np.hypot(sol[:n], sol[n:2 * n])
    kw = {}
    if e is not None:
        kw["yerr"] = e
    if cell["t0"]:
        kw["t0s"] = t0
    got = np.asarray(xo.estimate_semi_amplitude(P, x, z, **kw))
    tol = 1e-5 * (s + np.max(np.abs(want))) + 1e-9 * np.max(np.abs(z))
    c.state((key, "noisy", bad))
    c.step()
    c.trace()
    c.close("weighted least squares", got, want, tol, coords=dict(data=bad))
    mm = xo.estimate_minimum_mass(P, x, z, m_star=0.7, **kw)
    c.close("minimum mass of the weighted least squares", np.asarray(mm.value), want * (P * DAY / (2 * np.pi * G)) ** (1 / 3) * (0.7 * MSUN) ** (2 / 3) / MJUP,
            (5e-5 * np.abs(want) + tol) * (P * DAY / (2 * np.pi * G)) ** (1 / 3) * (0.7 * MSUN) ** (2 / 3) / MJUP, coords=dict(data=bad))
    if bad == 2 and e is not yerr:
        c.close("data with enormous uncertainties do not count", got, reference_amp(cell, P, x, y, t0, w), 1e-3 * s, coords=dict(data=bad))
    c.outcome("noisy")


def reference_amp(cell, P, x, y, t0, w):
    ph = 2 * np.pi * (x[:, None] - t0) / P
    cols = [-np.sin(ph)] if cell["t0"] else [np.sin(ph), np.cos(ph)]
    sol = np.linalg.lstsq(np.concatenate(cols + [np.ones((len(x), 1))], axis=1) * w[:, None], y * w, rcond=None)[0]
    return sol[:len(P)] if cell["t0"] else np.hypot(sol[:len(P)], sol[len(P):2 * len(P)])


UNITS = [(None, None, None, None, None), (u.day, u.day, u.m / u.s, u.m / u.s, u.day), (u.yr, u.s, u.km / u.s, u.km / u.s, u.hour), (None, u.hour, None, None, u.minute),
         (u.hour, None, None, None, None), (None, None, u.km / u.s, None, None), (u.week, u.yr, u.cm / u.s, u.km / u.s, None), (None, None, None, u.cm / u.s, u.s)]
BASE = (u.day, u.day, u.m / u.s, u.m / u.s, u.day)


def conv(v, unit, base):
    return v if unit is None or v is None else (v * base).to(unit)


def one(c, cell, iu, P, x, y, yerr, t0, K, off, key):
    args = [conv(v, un, b) for v, un, b in zip((P, x, y, yerr, t0), UNITS[iu], BASE)]
    if len(P) == 1 and key[1] % 2 and iu == 0:
        args[0] = float(P[0])
        args[4] = None if t0 is None else float(t0[0])
    keep = [None if a is None else np.array(a, copy=True) for a in args]
    c.state((key, iu))
    c.step()
    c.trace()
    kw = {}
    if yerr is not None:
        kw["yerr"] = args[3]
    if t0 is not None:
        kw["t0s"] = args[4]
    got = xo.estimate_semi_amplitude(args[0], args[1], args[2], **kw)
    got = np.asarray(got)
    tol = 1e-7 * K.max() + 1e-11 * abs(off) + 1e-10 * np.ptp(np.abs(y))
    c.close("semi-amplitudes", got, K, tol * 100, coords=dict(units=iu))
    for m in (None, 0.1, 1.0, 2.3, 5.0) if iu < 2 else (0.7,):
        mk = dict(kw)
        if m is not None:
            mk["m_star"] = m if iu % 2 == 0 else (m * u.M_sun).to(u.kg if iu == 1 else u.M_jup)
        got = xo.estimate_minimum_mass(args[0], args[1], args[2], **mk)
        mm = 1.0 if m is None else m
        # K = (2 pi G / P)^(1/3) m sin i / m_star^(2/3)
        want = K * (P * DAY / (2 * np.pi * G)) ** (1 / 3) * (mm * MSUN) ** (2 / 3) / MJUP
        c.expect(getattr(got, "unit", None) == u.M_jupiter, "unit of the minimum mass", got=str(getattr(got, "unit", None)))
        c.close("minimum mass", np.asarray(u.Quantity(got).value), want, 5e-5 * want + tol * 100 * want / K, coords=dict(m_star=mm, units=iu))
    c.expect(all((a is None and b is None) or np.array_equal(np.asarray(a), b) for a, b in zip(args, keep)), "inputs not modified")
    c.outcome("known transits" if t0 is not None else "unknown transits")
