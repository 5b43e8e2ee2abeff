import warnings

import numpy as np
from scipy.ndimage import gaussian_filter

from mc.core import product
from mc.env import xo

RULE = ("cell = (estimator, sampling, period, time offset); model state = (phase, amplitude, noise-free weights, limits or filter of the search); transition = changing "
        "one of these; trace = one synthetic series given to the estimator, its peaks, limits and periodogram being compared with the model")
BOUNDS = ("{lomb_scargle, autocorr, bls} x 3 samplings x 5 periods x 3 time offsets (0, -50.3, 2454833) x 5 phases x 4 amplitude/level pairs x {no, constant, varying} errors x "
          "search limits, filters, max_peaks")
ASSUMPTIONS = ["resolution = a tenth of the inverse baseline in frequency for the periodogram, the lag step, the smoothing scale and the taper of the "
               "autocorrelation, and the drift of one box duration over the baseline for BLS",
               "noiseless boxes whose best power is shared exactly by two neighbouring trial periods have no strict maximum and are left out",
               "the true period lies inside the searched interval, away from exact aliases of an even sampling"]
T = 40.0
OFF = [0.0, -50.3, 2454833.0]
AMPS = [(1.0, 0.0), (1e-3, 1.0), (250.0, -31.0), (0.2, 5.0)]


def sampling(kind, n):
    k = np.arange(n)
    if kind == "even":
        return T * k / n
    if kind == "uneven":
        return T * (k + 0.4 * np.sin(12.9898 * k)) / n
    x = T * k / n
    return x[(x % 7.0) < 5.5]


def cells(tier):
    pers = [1.7, 2.9, 3.7, 5.3, 8.1] if tier == "thorough" else [1.7, 3.7, 5.3]
    out = product(est=["ls"], samp=["even", "uneven", "gaps"], per=pers + [0.83], off=OFF)
    out += product(est=["acf"], samp=["even", "uneven"], per=[1.7, 2.3, 3.7], off=OFF)
    out += product(est=["bls"], samp=["even", "gaps", "uneven"], per=pers[1:], off=OFF)
    # half of an 8.1 day period can fall entirely in the gaps: a true ambiguity of the data
    return [dict(x, tier=tier) for x in out if not (x["est"] == "bls" and x["samp"] == "gaps" and x["per"] > 6)]


def err(kind, n, amp):
    if kind == "none":
        return None
    if kind == "const":
        return np.full(n, 0.1 * amp)
    return 0.1 * amp * (1 + 0.8 * np.sin(0.37 * np.arange(n)) ** 2)


def run(c, cell):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"ls": ls, "acf": acf, "bls": bls}[cell["est"]](c, cell)


def call(c, f, x, y, e, **kw):
    x0, y0, e0 = x.copy(), y.copy(), None if e is None else e.copy()
    r = f(x, y, e, **kw) if e is not None else f(x, y, **kw)
    c.expect(np.array_equal(x, x0) and np.array_equal(y, y0) and (e is None or np.array_equal(e, e0)), "inputs not modified", kw=kw)
    c.trace()
    c.step()
    c.state((cell_key(y), str(kw), e is None))
    return r


def cell_key(y):
    return hash(y.tobytes())


def chi2(x, y, e, f):
    """Half the improvement of chi^2 when a sinusoid of frequency f is added to a constant."""
    w = np.ones(len(x)) if e is None else 1 / e
    D = np.stack([np.ones(len(x)), np.cos(2 * np.pi * f * x), np.sin(2 * np.pi * f * x)], -1) * w[:, None]
    r0 = w * y - D[:, 0] * (np.dot(D[:, 0], w * y) / np.dot(D[:, 0], D[:, 0]))
    r1 = w * y - D @ np.linalg.lstsq(D, w * y, rcond=None)[0]
    return 0.5 * (np.dot(r0, r0) - np.dot(r1, r1)), 0.5 * np.dot(r0, r0)


def ls(c, cell):
    P, off = cell["per"], cell["off"]
    f = xo.estimators.lomb_scargle_estimator
    for ph in (0.0, 0.21, 0.4, 0.63, 0.86):
        for amp, lev in AMPS:
            for ek in ("none", "const", "vary"):
                x = sampling(cell["samp"], 331) + off
                y = lev + amp * np.sin(2 * np.pi * ((x - off) / P + ph))
                e = err(ek, len(x), amp)
                for lo, hi in ((None, None), (0.3, None), (0.3, 20.0), (0.5, 12.0), (0.26, 9.0)):
                    if lo is None and cell["samp"] != "uneven":
                        continue  # aliases
                    kw = {k: v for k, v in (("min_period", lo), ("max_period", hi)) if v is not None}
                    r = call(c, f, x, y, e, **kw)
                    fr, pw = r["periodogram"]
                    df = fr[1] - fr[0]
                    c.expect(set(r) >= {"periodogram", "peaks", "ls"} and 1 <= len(r["peaks"]) <= 2, "result", got=len(r["peaks"]))
                    best = r["peaks"][0]
                    c.close("injected frequency", 1 / best["period"], 1 / P, 0.1 / T, coords=dict(P=P, phase=ph, lo=lo, hi=hi))
                    if lo is not None:
                        c.expect(fr.max() <= 1 / lo + 0.51 * df, "minimum period", got=1 / fr.max(), want=lo)
                        c.expect(fr.max() >= 1 / lo - 1.01 * df, "the search extends to the minimum period", got=1 / fr.max(), want=lo)
                    if hi is not None:
                        c.close("the search starts at the maximum period", fr.min(), 1 / hi, 1e-9)
                    idx = np.unique(np.concatenate([[0, len(fr) // 3, len(fr) - 1, np.argmax(pw)], np.arange(5, len(fr), len(fr) // 7)]))
                    ref, scale = np.array([chi2(x - off, y, e, q) for q in fr[idx]]).T / len(x)
                    c.close("periodogram of the data", pw[idx], ref, 0.02 * scale[0], coords=dict(f=fr[idx]))
                    c.close("index of the peak", fr[best["index"]], 1 / P, df, coords=dict(P=P))
                for mp in (1, 3, 5):
                    r2 = call(c, f, x, y, e, max_peaks=mp, **kw)
                    c.expect(isinstance(r2["peaks"], list) and 1 <= len(r2["peaks"]) <= mp, "number of peaks", got=len(r2["peaks"]), want=mp)
                    pk = [q["log_power"] for q in r2["peaks"]]
                    c.expect(r2["peaks"][0]["period"] == r["peaks"][0]["period"], "best peak does not depend on max_peaks")
                    c.expect(len(pk) == min(mp, count(r2["periodogram"][1])), "all peaks up to max_peaks", got=len(pk))
                # a strong slow signal and a weak fast one: the filter moves the best peak, not the periodogram
                slow = 16.0
                y2 = y + 1.4 * amp * np.sin(2 * np.pi * (x - off) / slow + 1)
                ra = call(c, f, x, y2, e, min_period=0.3, max_period=30.0)
                rb = call(c, f, x, y2, e, min_period=0.3, max_period=30.0, filter_period=1.15 * P)
                c.close("unfiltered best peak is the slow signal", 1 / ra["peaks"][0]["period"], 1 / slow, 0.3 / T)
                c.close("filtered best peak is the fast signal", 1 / rb["peaks"][0]["period"], 1 / P, 0.3 / T, coords=dict(P=P, phase=ph))
                c.close("the filter does not change the periodogram", rb["periodogram"][1], ra["periodogram"][1], 1e-12 * np.max(np.abs(ra["periodogram"][1])))
                c.close("the filter does not change the frequencies", rb["periodogram"][0], ra["periodogram"][0], 1e-12 * np.max(ra["periodogram"][0]))
                # the filter down-weights long periods only, and the longer the more: compare the same peaks with and without it
                for fp in (1.15 * P, 6.0):
                    pa, pb = [{int(q["index"]): q["log_power"] for q in call(c, f, x, y2, e, min_period=0.3, max_period=30.0, max_peaks=400, **k)["peaks"]}
                              for k in ({}, dict(filter_period=fp))]
                    both = np.array(sorted(set(pa) & set(pb)))
                    gain = np.exp(np.array([pb[i] - pa[i] for i in both]))
                    rel = fp * rb["periodogram"][0][both]
                    c.expect(len(both) > 10 and rel.max() > 2 and bool(np.all(np.isfinite(gain))), "peaks with and without the filter", got=len(both))
                    c.expect(bool(np.all(gain <= 1.002)), "the filter never amplifies", got=gain.max())
                    c.expect(bool(np.all(gain[rel > 2.2] > 0.95)), "the filter keeps short periods", got=gain[rel > 2.2].min())
                    c.expect(bool(np.all(gain[rel < 0.5] < 0.3)), "the filter removes long periods", got=gain[rel < 0.5].max(initial=0))
                    c.expect(bool(np.all(np.diff(gain) > -0.02)), "the longer the period, the lower its weight", got=np.diff(gain).min())
                    c.outcome("filtered peaks", len(both))
                c.outcome("series")
    c.sample(P=P, phase=ph, best=best)


def count(p):
    return int(np.count_nonzero((p[1:-1] > p[:-2]) & (p[1:-1] > p[2:])))


def acf(c, cell):
    P, off = cell["per"], cell["off"]
    f = xo.estimators.autocorr_estimator
    n = 401
    for ph in (0.0, 0.21, 0.4, 0.63, 0.86):
        for amp, lev in AMPS:
            x = T * (np.arange(n) + (0.15 * np.sin(12.9898 * np.arange(n)) if cell["samp"] == "uneven" else 0)) / n + off
            y = lev + amp * np.sin(2 * np.pi * ((x - off) / P + ph))
            for lo, hi in ((None, None), (0.3, None), (0.5, 12.0), (None, 9.0), (0.3, 0.9 * P), (1.2 * P, None), (0.4 * P, 1.3 * P)):
                for os, sm in (((2.0, 2.0), (1.0, 1.0), (3.0, 0.5)) if hi is None else ((2.0, 2.0),)):
                    kw = {k: v for k, v in (("min_period", lo), ("max_period", hi)) if v is not None}
                    if (lo or 0.1) * sm > P / 4:
                        sm = P / 8 / lo
                        kw["smooth"] = sm
                    if (os, sm) != (2.0, 2.0):
                        kw.update(oversample=os, smooth=sm)
                    for e in (None, np.full(len(x), 0.1)):
                        r = call(c, f, x, y, e, **kw)
                        tau, ac = r["autocorr"]
                        dx = np.min(np.diff(x)) / os
                        mn, mx = (np.min(np.diff(x)) if lo is None else lo), (T if hi is None else hi)
                        # reference: direct autocorrelation of the interpolated series
                        xx = np.arange(x.min(), x.max(), dx)
                        z = np.interp(xx, x, y)
                        z = z - z.mean()
                        if e is None and hi is None and ph in (0.0, 0.63):
                            full = np.correlate(z, z, "full")[len(z) - 1:]
                            c.close("lags", tau, xx - x[0], 1e-9 + 1e-12 * abs(off))
                            if len(ac) == len(full):
                                c.close("autocorrelation of the data", ac, gaussian_filter(full / full[0], sm * mn / dx), 1e-8)
                        pk = r["peaks"]
                        c.expect(len(pk) <= 1, "at most one period", got=len(pk))
                        # the nearest lag that is a multiple of the period within the limits
                        inside = mn <= P * 0.97 and P * 1.03 <= mx
                        if inside:
                            tol = 2 * dx + P * P / (2 * np.pi**2 * (T - P)) + 0.02 * P
                            if c.expect(len(pk) == 1, "a period is found", lo=lo, hi=hi):
                                c.close("injected period", pk[0]["period"], P, tol, coords=dict(P=P, phase=ph, lo=mn, hi=mx))
                            c.outcome("found")
                        for q in pk:
                            c.expect(mn <= q["period"] <= mx, "within the limits", got=q["period"], want=[mn, mx])
                            i = int(np.argmin(np.abs(tau - q["period"])))
                            c.expect(tau[i] == q["period"] and ac[i - 1] < ac[i] > ac[i + 1], "a local maximum of the returned autocorrelation", got=q["period"])
                        if mx < 0.95 * P:
                            c.expect(not pk, "no period beyond the limits", got=pk)
                            c.outcome("none")
    c.sample(P=P, phase=ph, kw=kw)


def bls(c, cell):
    P, off = cell["per"], cell["off"]
    f = xo.estimators.bls_estimator
    n = 1500
    for ph in (0.05, 0.21, 0.4, 0.63, 0.86) if cell["tier"] == "thorough" else (0.05, 0.4, 0.63):
        for depth, lev in ((0.01, 1.0), (5.0, 0.0), (1e-4, -3.0)):
            for ek in ("none", "vary"):
                x = sampling(cell["samp"], n) + off
                t0 = off + ph * P
                dur = 0.2
                y = lev - depth * (np.abs((x - t0 + 0.5 * P) % P - 0.5 * P) < 0.5 * dur)
                e = err(ek, len(x), depth)
                for kw in (dict(), dict(min_period=1.1), dict(min_period=1.1, max_period=10.0), dict(max_period=11.0), dict(duration=np.array([0.1, 0.2])),
                           dict(objective="snr", min_period=1.4, max_period=9.0), dict(method="slow", min_period=P - 0.3, max_period=P + 0.3) if ph == 0.4 and cell["tier"] == "thorough" else dict(oversample=5),
                           dict(frequency_factor=2.0, min_period=0.9 * P, max_period=1.5 * P)):
                    r = call(c, f, x, y, e, **kw)
                    pg = r["bls"]
                    per = np.asarray(pg.period)
                    df = np.abs(np.diff(1 / per))[0]
                    lo, hi = kw.get("min_period"), kw.get("max_period")
                    if lo is not None:
                        c.expect(1 / per.min() <= 1 / lo + 1.01 * df, "minimum period", got=per.min(), want=lo)
                        c.expect(1 / per.min() >= 1 / lo - 1.01 * df, "the search extends to the minimum period", got=per.min(), want=lo)
                    if hi is not None:
                        c.expect(1 / per.max() >= 1 / hi - 1.01 * df, "maximum period", got=per.max(), want=hi)
                        c.expect(1 / per.max() <= 1 / hi + 1.01 * df, "the search extends to the maximum period", got=per.max(), want=hi)
                    top = int(np.argmax(pg.power))
                    if 0 < top < len(per) - 1 and pg.power[top + 1] == pg.power[top]:
                        c.outcome("tie")  # two neighbouring periods select exactly the same points: there is no strict maximum
                        continue
                    if not c.expect(len(r["peaks"]) == 1 and r["peak_info"] is not None, "one peak", got=len(r["peaks"])):
                        continue
                    pk, info = r["peaks"][0], r["peak_info"]
                    tol = max(0.2 * P / T, 1.5 * df * P) * P
                    c.close("injected period", pk["period"], P, tol, coords=dict(P=P, phase=ph))
                    i = int(pk["index"])
                    c.close("best power", pg.power[i], np.max(pg.power[1:-1]), 1e-12 * np.max(np.abs(pg.power)))
                    for k in ("period", "power", "depth", "duration", "transit_time", "depth_err", "depth_snr", "log_likelihood"):
                        c.close("peak_info is that of the peak", info[k], pg[k][i], 0, coords=dict(k=k))
                    tt = float(np.asarray(info["transit_time"]))
                    # the fitted phase may trade against the fitted period across the baseline
                    k = np.round((off + T / 2 - tt) / info["period"])
                    mid = tt + k * info["period"]
                    c.close("transit time on the data's clock", (mid - t0 + 0.5 * P) % P - 0.5 * P, 0.0, 0.2, coords=dict(P=P, phase=ph))
                    c.expect(0 < info["depth"] <= 1.1 * depth, "depth of the box", got=info["depth"], want=depth)
                    c.outcome("found")
                # searches that end just short of the injected period, where the power may be highest at the end
                for lo, hi in ((1.01 * P, 2.7 * P), (1.03 * P, 1.8 * P), (0.4 * P, 0.99 * P), (0.55 * P, 0.97 * P)):
                    r = call(c, f, x, y, e, min_period=max(lo, 0.5), max_period=hi)
                    pg = r["bls"]
                    if not len(r["peaks"]):
                        c.expect(r["peak_info"] is None, "information about a peak that was not found")
                        c.outcome("nothing found")
                        continue
                    i = int(r["peaks"][0]["index"])
                    c.outcome("the end is higher" if pg.power[i] < np.max(pg.power) else "local")
                    c.expect(pg.power[i - 1] < pg.power[i] > pg.power[i + 1], "a strict maximum")
                    for k in ("period", "power", "depth", "duration", "transit_time", "depth_err", "depth_snr", "log_likelihood"):
                        c.close("peak_info is that of the peak", r["peak_info"][k], pg[k][i], 0, coords=dict(k=k))
    c.sample(P=P, phase=ph, best=pk)
