import itertools

import numpy as np

from mc.env import ev, fn, pt, xo
from mc.orb import KeplerianOrbit, SimpleTransitOrbit, TTVOrbit

RULE = ("model state = word over an alphabet of observations (a time, or a time with its exposure time); transition = appending one observation; trace = the family's outputs "
        "for the word, replayed on a graph compiled once with a vector input (short and long words) and on graphs built from constant arrays; row i of the answer must be the answer for "
        "observation i alone, and the selected indices those of the observations selected alone, in order")
BOUNDS = ("24 families of outputs x all words of length 0..3 over 7 times (thorough 0..4; times of two transits, an ingress, outside, the far side, 40 periods before and 1e4 periods after) or "
          "0..2 over 7 times x 4 exposures (thorough 0..3), and cyclic words of lengths 5..4097 (thorough up to 65537) around powers of two, in given, sorted and reversed order, "
          "and words laid out as tables of 2..4 x 2..4 times (thorough 2..6 x 2..6)")
ASSUMPTIONS = ["times that are not a number may give anything in their own row"]
A = np.array
TIMES = [0.0, 0.07, 0.9, 0.21, -120.03, 1.52, 30000.02]
EXP = [0.02, 0.3, 0.0, 0.303]
KW = dict(period=A([3.0, 4.5]), t0=A([0.0, 0.2]), b=A([0.1, -0.3]), r_star=0.9, m_star=1.1)
ECC = dict(KW, ecc=A([0.2, 0.6]), omega=A([0.3, -2.0]), m_planet=A([0.1, 0.0]))
R = A([0.1, 0.05])


def orbits():
    return dict(
        circ=lambda: KeplerianOrbit(**KW), ecc=lambda: KeplerianOrbit(**ECC),
        node=lambda: KeplerianOrbit(**{**{k: v for k, v in ECC.items() if k != "b"}, "incl": A([1.55, 1.6]), "Omega": A([0.4, -1.0])}),
        one=lambda: KeplerianOrbit(period=3.0, t0=0.0, b=0.1, ecc=0.1, omega=0.4, r_star=0.9, m_star=1.1, m_planet=0.1),
        simple=lambda: SimpleTransitOrbit(period=KW["period"], t0=KW["t0"], b=KW["b"], duration=A([0.12, 0.2]), r_star=0.9, ror=R),
        ttv=lambda: TTVOrbit(ttvs=[A([0.01, -0.02, 0.04, 0.0]), A([0.0, 0.1, -0.1])], **KW),
        times=lambda: TTVOrbit(transit_times=[A([-120.0, -117.0, 0.0, 2.9, 6.1]), A([0.2, 4.75])], transit_inds=[A([0, 1, 40, 41, 42]), A([0, 1])], b=KW["b"], r_star=0.9, m_star=1.1))


def families():
    o = orbits()
    star = xo.LimbDarkLightCurve(0.3, 0.2)

    def light(k, **kw):
        return lambda t, e: [("row", star.get_light_curve(orbit=o[k](), r=R if k != "one" else 0.1, t=t, **{**kw, **({"texp": e} if e is not None else {})}))]

    def motion(k, **kw):
        def f(t, e):
            q = o[k]()
            out = list(q.get_relative_position(t, **kw))
            if k != "simple":
                out += list(q.get_star_position(t, **kw)) + list(q.get_planet_position(t, **kw))
                if not kw:
                    out += list(q.get_planet_velocity(t)) + list(q.get_star_velocity(t)) + list(q.get_relative_acceleration(t)) + list(q.get_relative_angles(t, parallax=0.1))
                    out += [q.get_radial_velocity(t), q.get_radial_velocity(t, K=A([3.0, 1.0]) if k != "one" else 3.0)]
            return [("row", x) for x in out]
        return f

    def which(k):
        return lambda t, e: [("index", o[k]().in_transit(t, r=R if k != "one" else 0.1, texp=e))]

    f = {}
    for k in o:
        f["motion " + k] = (motion(k), False)
        f["in_transit " + k] = (which(k), False)
        f["light " + k] = (light(k), False)
    for k in ("ecc", "ttv", "one"):
        f["delayed " + k] = (motion(k, light_delay=True), False)
    f["light delayed"] = (light("ecc", light_delay=True, use_in_transit=False), False)
    f["fixed exposure circ"] = (light("circ", texp=0.1, oversample=5), False)
    f["fixed exposure ttv"] = (light("ttv", texp=0.1, oversample=3, order=2), False)
    for k in ("circ", "ecc", "simple", "ttv", "one"):
        f["selected exposures " + k] = (which(k), True)
    for k, kw in (("circ", dict(order=0)), ("ecc", dict(order=2)), ("simple", dict(order=1)), ("ttv", dict(order=0, use_in_transit=False)), ("one", dict(order=1))):
        f["exposures " + k] = (light(k, oversample=3, **kw), True)
    ecl = xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.5)
    f["eclipse"] = (lambda t, e: [("row", ecl.get_light_curve(orbit=o["one"](), r=0.1, t=t))], False)
    f["eclipse exposures"] = (lambda t, e: [("row", ecl.get_light_curve(orbit=o["one"](), r=0.1, t=t, texp=e, oversample=3, order=2))], True)
    inter = xo.light_curves.interpolated.InterpolatedLightCurve(star, 80, num_planets=2)
    f["interpolated"] = (lambda t, e: [("row", inter.get_light_curve(orbit=o["circ"](), r=R, t=t))], False)
    grid = xo.interp.RegularGridInterpolator([A([-200.0, 0.0, 0.1, 2.0, 4e4])], A([[1.0, 0.0], [3.0, 0.5], [-2.0, 7.0], [5.0, 5.0], [0.0, 1.0]]), fill_value=-1.0)
    f["grid"] = (lambda t, e: [("row", grid.evaluate(t[:, None]))], False)
    return f


LENGTHS = dict(quick=[5, 8, 9, 16, 17, 31, 33, 64, 65, 100, 101, 127, 129, 200, 255, 257, 1000, 1025, 4097],
               thorough=sorted({n for k in range(3, 17) for n in (2**k - 1, 2**k, 2**k + 1)} | {5, 10, 20, 50, 100, 101, 200, 201, 500, 1000, 1001, 2000, 5000, 10000, 10001, 20000, 50000}))


def cells(tier):
    out = []
    for name, (_, exposed) in families().items():
        deep = tier == "thorough"
        out.append(dict(family=name, words="short", depth=(3 if deep else 2) if exposed else (4 if deep else 3), graph="input"))
        out.append(dict(family=name, words="long", lengths=LENGTHS[tier], graph="input"))
        out.append(dict(family=name, words="constant", lengths=[0, 1, 2, 3, 64, 65] if not deep else [0, 1, 2, 3, 4, 7, 8, 9, 63, 64, 65, 100, 255, 257, 1000, 1025, 4097], graph="constant"))
        if name.split()[0] in ("motion", "delayed") or name in ("light delayed", "exposures ttv"):
            out.append(dict(family=name, words="table", depth=6 if deep else 4, graph="table"))
    return out


def run(c, cell):
    make, exposed = families()[cell["family"]]
    letters = list(itertools.product(TIMES, EXP)) if exposed else [(t, None) for t in TIMES]
    bad = len(letters)  # an observation without a time: only for other observations' sake
    data = np.array([[t, 0.0 if e is None else e] for t, e in letters] + [[np.nan, 0.02]])

    def constant(word):
        w = data[np.asarray(word, dtype=int)]
        return ev([x for _, x in make(w[:, 0], w[:, 1] if exposed else None)])

    kinds = []
    alone = []
    for i in range(len(letters)):
        kinds = [k for k, _ in make(A([letters[i][0]]), A([letters[i][1]]) if exposed else None)]
        alone.append([np.asarray(x).reshape(1, -1) if k == "row" else np.asarray(x).ravel() for k, x in zip(kinds, constant([i]))])
    table = [np.concatenate([a[j] for a in alone]) if k == "row" else np.array([a[j].size for a in alone] + [0]) for j, k in enumerate(kinds)]
    for a in alone:
        for k, x in zip(kinds, a):
            c.expect(k == "row" or x.size == 0 or (x.size == 1 and x[0] == 0), "selection among one observation", got=x)
    scale = [1e-9 + float(np.max(np.abs(t))) if k == "row" else 0 for k, t in zip(kinds, table)]

    def judge(word, got):
        w = np.asarray(word, dtype=int)
        for j, k in enumerate(kinds):
            g = np.asarray(got[j])
            if k == "index":
                want = np.nonzero(table[j][w])[0] if len(w) else np.zeros(0)
                c.expect(g.shape == want.shape and np.array_equal(g, want), f"selected observations ({j})", word=word[:12], length=len(w), got=g[:12], want=want[:12])
                c.outcome("selected", int(want.size))
                continue
            ok = w != bad
            if g.size % max(len(w), 1) or (len(w) and g.size // len(w) != table[j].shape[1]):
                c.fail(f"output {j}: wrong shape", word=word[:12], length=len(w), got=g.shape)
                continue
            if not len(w):
                c.expect(g.size == 0, f"output {j}: values without observations", got=g.shape)
                continue
            g = g.reshape(len(w), -1)
            want = table[j][np.where(ok, w, 0)]
            c.close(f"output {j}: an observation depends on the others", g[ok], want[ok], 1e-12 * scale[j], coords=dict(word=str(list(word[:12])), length=len(w)))
            c.outcome("nonzero", int(np.any(want != 0)))
        c.trace()

    if cell["graph"] == "input":
        t = pt.dvector()
        e = pt.dvector() if exposed else None
        F = fn([t, e] if exposed else [t], [x for _, x in make(t, e)])

        def answer(word):
            w = data[np.asarray(word, dtype=int)]
            return F(w[:, 0], w[:, 1]) if exposed else F(w[:, 0])
    elif cell["graph"] == "table":
        t = pt.dmatrix()
        e = pt.dmatrix() if exposed else None
        F = fn([t, e] if exposed else [t], [x for _, x in make(t, e)])
        for rows, columns in itertools.product(range(2, cell["depth"] + 1), repeat=2):
            for shift in range(len(letters)):
                word = tuple((5 * i + i // 7 + shift) % len(letters) for i in range(rows * columns))
                w = data[list(word)].reshape(rows, columns, 2)
                c.state((rows, columns, shift))
                c.step()
                judge(word, F(w[..., 0], w[..., 1]) if exposed else F(w[..., 0]))
        return
    else:
        answer = constant

    if cell["words"] == "short":
        frontier = [()]
        for depth in range(cell["depth"] + 1):
            nxt = []
            for word in frontier:
                c.state(word)
                judge(word, answer(word))
                if depth < cell["depth"]:
                    nxt += [word + (i,) for i in range(len(letters))]
                    c.step(len(letters))
                    if word and depth < 2 and cell["family"] != "interpolated":  # an observation without a time at the end or in the middle
                        judge(word + (bad,), answer(word + (bad,)))
                        judge((bad,) + word, answer((bad,) + word))
            frontier = nxt
    else:
        for n in cell["lengths"]:
            base = [(5 * i + i // 7) % len(letters) for i in range(n)]
            for order in ("given", "sorted", "reversed"):
                word = base if order == "given" else sorted(base, key=lambda i: letters[i][0], reverse=order == "reversed")
                if order != "given" and cell["graph"] == "constant" and n > 3:
                    continue
                c.state((n, order))
                c.step(n)
                judge(tuple(word), answer(word))
    c.sample(letters=letters[:3], kinds=kinds[:3])
