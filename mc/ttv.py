"""Reference model of a transit timing orbit: numbered labels, linear ephemeris, nearest transit."""
import itertools

import numpy as np

from mc.ref import RefOrbit, t_peri_from_t0


def ephemeris(times, inds):
    """Least-squares t0 and period in extended precision."""
    x = np.asarray(inds, dtype=np.longdouble)
    y = np.asarray(times, dtype=np.longdouble)
    xm, ym = x.mean(), y.mean()
    slope = np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2)
    return float(ym - slope * xm), float(slope)


def all_times(times, inds, t0, period):
    """Every transit from number zero to the last label."""
    out = t0 + period * np.arange(int(np.max(inds)) + 1)
    out[np.asarray(inds, int)] = times
    return out


def warp(t, allt, period):
    """Time since the nearest transit, and a mask of times that are clear of the boundaries between transits."""
    edges = (allt[1:] + allt[:-1]) / 2
    i = np.searchsorted(edges, t)
    clear = np.all(np.abs(t[:, None] - edges[None, :]) > 1e-9 * (1 + np.abs(t[:, None])), axis=1) if len(edges) else np.ones(len(t), bool)
    return t - allt[i], clear


def sample_times(allt, period):
    """Transits, both sides of every boundary, and times between, before and after."""
    e = (allt[1:] + allt[:-1]) / 2
    base = np.concatenate([allt, e - 1e-6 * period, e + 1e-6 * period])
    f = np.concatenate([allt + d * period for d in (-0.03, 0.03, 0.2, -0.31)])
    lo, hi = allt[0], allt[-1]
    out = lo - period * np.array([0.45, 0.499, 0.501, 0.6, 1.0, 2.3, 50.0])
    out2 = hi + period * np.array([0.45, 0.499, 0.501, 0.6, 1.0, 2.3, 50.0])
    return np.concatenate([base, f, out, out2])


def shape_ref(P, e, w, inc, t0, ms, mp):
    from mc.orb import semi_major
    a = semi_major(P, ms + mp)
    return RefOrbit(P, a, e, w, t_peri_from_t0(t0, P, e, w), np.cos(inc), np.sin(inc), 0.0, ms, mp), a


def patterns(alphabet, lengths):
    return [list(p) for n in lengths for p in itertools.product(alphabet, repeat=n)]


def subsets(n, smallest=2):
    """Observed subsets of the transits 0..n-1 that hold transit 0 and at least `smallest` transits."""
    out = []
    for k in range(smallest, n + 1):
        out += [(0,) + x for x in itertools.combinations(range(1, n), k - 1)]
    return out
