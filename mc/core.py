"""The explorer: exhaustive enumeration of cells (configuration vertices), each of which explores a
finite set of model states and replays them on the implementation."""
import hashlib
import itertools
import json
import os
import time

import numpy as np


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 64 else f"array{x.shape}"
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def key_of(cell):
    return json.dumps(jsonable(cell), sort_keys=True)


class Cell:
    """Collects what one cell explored. Model states are counted by distinct canonical keys."""

    def __init__(self, cell):
        self.cell = cell
        self.state_count = 0
        self._seen = set()
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.outcomes = {}
        self.fails = []
        self.nfails = 0
        self.samples = []

    # -- model states -------------------------------------------------
    def lattice(self, *cols, steps=True, traces=None):
        """Registers the distinct rows of a lattice of model states (broadcast columns).

        The last axis of the broadcast is the trajectory axis: moving along it is a transition, and
        each trajectory is one trace replayed on the implementation."""
        b = np.broadcast_arrays(*[np.asarray(c, dtype=float) for c in cols])
        shape = b[0].shape
        flat = np.stack([np.ravel(x) for x in b], axis=-1)
        n = len(np.unique(flat, axis=0))
        self.state_count += n
        traj = shape[-1] if shape else 1
        rows = flat.shape[0] // max(traj, 1)
        self.transitions += rows * (max(traj - 1, 0) if steps else 0) + rows
        self.traces += rows if traces is None else traces
        return n

    def state(self, key):
        """Registers one discrete model state; True if it is new."""
        h = hashlib.sha1(repr(key).encode()).digest()[:12]
        if h in self._seen:
            return False
        self._seen.add(h)
        self.state_count += 1
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        if n:
            self.outcomes[name] = self.outcomes.get(name, 0) + int(n)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    # -- verdicts -----------------------------------------------------
    def fail(self, what, **kw):
        self.nfails += 1
        if len(self.fails) < 5:
            self.fails.append(dict(what=what, **jsonable(kw)))

    def expect(self, ok, what, **kw):
        self.comparisons += 1
        if not ok:
            self.fail(what, **kw)
        return bool(ok)

    def close(self, what, got, want, tol, coords=None):
        """|got-want| <= tol elementwise (shape must match exactly); NaN matches only NaN in want."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.comparisons += 1
            self.fail(what + ": wrong shape", got=got.shape, want=want.shape)
            return False
        tol = np.broadcast_to(tol, want.shape)
        self.comparisons += int(want.size)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= tol)
        bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
        n = int(np.count_nonzero(bad))
        if not n:
            return True
        with np.errstate(all="ignore"):
            err = np.where(bad, np.abs(got - want) / np.maximum(tol, 1e-300), 0.0)
        err = np.where(np.isnan(err) & bad, np.inf, err)
        i = np.unravel_index(int(np.argmax(err)), want.shape) if want.shape else ()
        at = {}
        for k, v in (coords or {}).items():
            try:
                at[k] = np.broadcast_to(v, want.shape)[i]
            except ValueError:
                at[k] = np.asarray(v)
        self.nfails += n - 1
        self.fail(what, index=i, got=got[i], want=want[i], tol=tol[i], bad_points=n, of=int(want.size), at=at)
        return False

    def raises(self, exc, what, f, *a, **kw):
        self.comparisons += 1
        try:
            f(*a, **kw)
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(what + ": wrong exception", got=repr(e)[:300], want=getattr(exc, "__name__", str(exc)))
            return False
        self.fail(what + ": no exception", want=getattr(exc, "__name__", str(exc)))
        return False

    def result(self):
        return dict(cell=jsonable(self.cell), states=self.state_count, transitions=self.transitions,
                    traces=self.traces, comparisons=self.comparisons, outcomes=self.outcomes,
                    fails=self.fails, nfails=self.nfails, samples=self.samples)


def product(**axes):
    """All combinations of the named axes as a list of dicts."""
    names = list(axes)
    return [dict(zip(names, v)) for v in itertools.product(*axes.values())]


def grid(*axes):
    """Flattened full lattice of 1-D axes."""
    m = np.meshgrid(*[np.asarray(a, dtype=float) for a in axes], indexing="ij")
    return [x.ravel() for x in m]


def bfs(init, successors, canon, visit, max_depth=None):
    """Breadth-first search with state deduplication.

    successors(state) yields (label, next_state); visit(state, path) checks a state the first time
    it is met. Returns (states, transitions, deepest level)."""
    frontier, seen = [], set()
    for s in init:
        k = canon(s)
        if k not in seen:
            seen.add(k)
            visit(s, [])
            frontier.append((s, []))
    transitions, depth = 0, 0
    while frontier and (max_depth is None or depth < max_depth):
        nxt = []
        for s, path in frontier:
            for label, t in successors(s):
                transitions += 1
                k = canon(t)
                if k not in seen:
                    seen.add(k)
                    visit(t, path + [label])
                    nxt.append((t, path + [label]))
        frontier = nxt
        depth += 1
    return len(seen), transitions, depth


def now():
    return time.monotonic()


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))
