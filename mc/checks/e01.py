import itertools

import numpy as np

from mc.core import product
from mc.env import xo

RULE = ("cell = (family of power sequences, frequency grid, kind of the arrays); model state = (power sequence, max_peaks); transition = asking for one more peak; "
        "trace = the peaks of one sequence for one max_peaks, compared with the definition")
BOUNDS = ("every power sequence of length 3-7 over 3 values and 3-5 over 5 values, every permutation of 6 distinct values, every choice of 5 nearly equal powers for 1-4 peaks (thorough: length 9 over 3 values, "
          "7 over 4, permutations of 8) x 5 frequency grids x 6 values of max_peaks")
ASSUMPTIONS = ["powers are positive (their logarithm is fitted)", "the order of exactly equal peaks is free"]
GRIDS = {"even": lambda n: 0.1 + 0.05 * np.arange(n), "uneven": lambda n: np.cumsum(0.03 + 0.02 * np.sin(1.7 * np.arange(n)) ** 2),
         "decreasing": lambda n: 1 / (1.0 + 0.3 * np.arange(n)), "high": lambda n: 20.0 + 0.5 * np.arange(n), "low": lambda n: 1e-3 * (1 + np.arange(n))}
MAXP = [0, 1, 2, 3, 5, 20]


def cells(tier):
    th = tier == "thorough"
    fams = [["abc", n] for n in range(3, 10 if th else 8)] + [["abcd", n] for n in range(3, 8 if th else 1)] + [["abcde", n] for n in (3, 4, 5)]
    fams += [["near", n] for n in (3, 5, 7, 9, 11)[:5 if th else 4]]
    fams += [["perm", n] for n in range(3, 9 if th else 7)]
    return product(fam=fams, grid=list(GRIDS))


NEAR = [2.0, 2.0 * (1 + 1e-13), 2.0 * (1 + 1e-10), 2.0 * (1 + 2e-8), 2.0 * (1 - 1e-6)]
VALUES = {"abc": [0.5, 1.0, 7.0], "abcd": [1e-6, 0.02, 1.5, 300.0], "abcde": [1e-9, 0.3, 0.5, 2.0, 1e4]}


def vertex(f, l):
    """Vertex and curvature of the parabola through three points, by divided differences."""
    d1, d2 = (l[1] - l[0]) / (f[1] - f[0]), (l[2] - l[1]) / (f[2] - f[1])
    a = (d2 - d1) / (f[2] - f[0])
    x = 0.5 * (f[0] + f[1]) - 0.5 * d1 / a
    y = l[0] + d1 * (x - f[0]) + a * (x - f[0]) * (x - f[1])
    return x, y, a


def sequences(fam, n):
    if fam == "perm":
        return itertools.permutations([0.01 * 1.9 ** (2 * i) for i in range(n)])
    if fam == "near":  # peaks that differ in the last digits only
        return (tuple(sum(([1.0 + 0.1 * i, v] for i, v in enumerate(q)), []) + [0.7]) for q in itertools.product(NEAR, repeat=n // 2))
    return itertools.product(VALUES[fam], repeat=n)


def run(c, cell):
    fam, n = cell["fam"]
    freq = GRIDS[cell["grid"]](n)
    seqs = sequences(fam, n)
    for p in seqs:
        power = np.array(p)
        f0, p0 = freq.copy(), power.copy()
        inds = [i for i in range(1, n - 1) if p[i - 1] < p[i] > p[i + 1]]
        best = sorted((p[i] for i in inds), reverse=True)
        c.state((p,))
        for mp in MAXP:
            c.step()
            c.trace()
            if mp == 0 and not inds:
                c.raises(ValueError, "no peaks", xo.estimators.find_peaks, freq, power)
                c.outcome("no peak")
                continue
            got = xo.estimators.find_peaks(freq, power, max_peaks=mp) if mp else xo.estimators.find_peaks(freq, power)
            if mp == 0:
                ok = c.expect(isinstance(got, dict), "a single dictionary", got=str(type(got)))
                got = [got] if ok else []
            want = min(max(mp, 1), len(inds))
            if not c.expect(len(got) == want, "number of peaks", got=len(got), want=want, power=p, max_peaks=mp):
                continue
            gi = [int(q["index"]) for q in got]
            c.expect(set(gi) <= set(inds) and len(set(gi)) == len(gi), "peaks are distinct strict local maxima", got=gi, want=inds, power=p)
            c.expect([p[i] for i in gi] == best[:want], "decreasing order of power", got=gi, power=p, max_peaks=mp)
            for q, i in zip(got, gi):
                if not 0 < i < n - 1:
                    continue
                x, y, a = vertex(freq[i - 1:i + 2], np.log(power[i - 1:i + 2]))
                t = 1e-7
                c.close("period", q["period"], 1 / x, t * (abs(1 / x) + abs(freq[i] / x**2)), coords=dict(i=i))
                c.close("log_power", q["log_power"], y, t * (1 + abs(y) + abs(a) * freq[i] ** 2), coords=dict(i=i))
                c.close("period_uncert", q["period_uncert"], np.sqrt(-0.5 / a) / x**2, 1e-5 * np.sqrt(-0.5 / a) / x**2 * (1 + abs(freq[i] / x)), coords=dict(i=i))
            c.outcome("peaks", len(gi))
        if not (np.array_equal(freq, f0) and np.array_equal(power, p0)):
            c.fail("inputs modified", power=p)
    c.sample(power=p, peaks=inds)
