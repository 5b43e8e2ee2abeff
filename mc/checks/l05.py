import numpy as np

from mc.core import product
from mc.env import ev, pt, xo
from mc.lc import System
from mc.checks.l04 import nodes
from mc.ref import blocked_flux

RULE = ("cell = (orbit kind, radius ratio, surface brightness ratio, limb-darkening pairs, exposure setting, selection); model state = (body in front, "
        "time slot); transition = stepping the time through transit, quadrature, eclipse and whole periods; trace = one two-body light curve replayed "
        "and compared with both bodies' hidden light combined by flux")
BOUNDS = ("circular, eccentric, rotated, duration and density orbits x companion masses 0, 0.3 and 3 x radius ratios 0.01-1.5 x brightness ratios 0-5 x "
          "3 pairs of limb-darkening laws x exposures none/orders 0-2/default/vector x selection on, off, default x light delay; impact parameters -0.5..0.9")
LAWS = [((0.3, 0.2), (0.4, 0.1)), ((0.0, 0.0), (0.9, 0.05)), ((0.6, -0.1), (0.0, 0.7))]
K = [0.01, 0.08, 0.5, 1.5]


def cells(tier):
    d = tier == "thorough"
    out = product(kind=["curve"], orbit=["circ", "ecc", "node", "duration", "rho"], k=K, sbr=[0.0, 0.3, 5.0], law=[0, 1, 2], b=[0.3], mp=[0.0, 0.3], uit=[None], form=[0])
    out += product(kind=["curve"], orbit=["circ", "ecc"], k=[0.08, 0.5], sbr=[0.3], law=[0], b=[0.0, -0.5, 0.9], mp=[0.0, 3.0], uit=[None, True, False], form=[0, 1, 2, 3, 4])
    out += product(kind=["texp"], orbit=["circ", "ecc", "node"], k=[0.08, 0.6], law=[0, 1], texp=["scalar", "vector"], order=[0, 1, 2], over=[3, 6] if d else [3, 4], uit=[None, False])
    out += product(kind=["texp"], orbit=["circ", "ecc", "node"], k=[0.08, 0.6], law=[0, 1], texp=["scalar", "vector"], order=["default"], over=[7], uit=[None, False])
    out += product(kind=["delay"], orbit=["circ", "ecc"], k=[0.3], mp=[0.0, 0.5])
    out += product(kind=["total"], orbit=["circ", "ecc"], sbr=[0.0, 0.1, 1.0, 20.0], k=[0.02, 0.3, 0.7], mp=[0.0, 0.7], b=[0.0, 0.2])
    return out


def run(c, cell):
    globals()["run_" + cell["kind"]](c, cell)


def system(cell):
    mp = cell.get("mp", 0.0) if cell["orbit"] not in ("duration", "rho") else None
    # the planet with a strongly eccentric orbit would make the eclipses miss: use the first planet's elements
    return System(cell["orbit"], 1, mp=mp, b=cell.get("b", 0.1), scalar=True)


def hidden(s, law, k, t, light_delay=False):
    """Light curves of the two events, before they are combined."""
    p1 = s.pos(t, light_delay)
    r = k * s.rs
    b1 = np.hypot(p1[0], p1[1])
    out = []
    for front, u, R, q in ((p1[2] > 0, law[0], s.rs, r), (None, law[1], r, s.rs)):
        if front is None:
            p = p1
            if light_delay:
                # the star relative to the companion, each direction delayed along its own path
                T = np.asarray(t, float)[..., None]
                em = T.copy()
                from mc.ref import C_LIGHT
                for _ in range(20):
                    p = -s.ref.rel(em)[0]
                    em = T + p[2] / C_LIGHT
                p = -p
            front, b = p[2] < 0, np.hypot(p[0], p[1])
        else:
            b = b1
        f = np.zeros(b.shape)
        m = front & (b < R + q)
        if m.any():
            f[m] = blocked_flux(u[0], u[1], b[m] / R, np.full(int(m.sum()), q / R))
        out.append(f)
    return out


def times(s, k):
    P, t0 = s.P[0], s.t0[0]
    # time of superior conjunction
    ph = np.linspace(0.02, 0.98, 4001)
    p = s.ref.rel(t0 + P * ph[:, None])[0]
    d = np.where(p[2, :, 0] < 0, np.hypot(p[0], p[1])[:, 0], np.inf)
    te = t0 + P * ph[np.argmin(d)]
    w = P * (1 + k) / (np.pi * s.a[0] / s.rs) * 2
    x = np.concatenate([np.linspace(-1, 1, 31), [0.0]]) * w
    return np.concatenate([t0 + x, te + x, t0 + 30 * P + x[::3], te - 25 * P + x[::3], np.linspace(t0, t0 + 2 * P, 37)]), te


def build(law, sbr, form):
    args = [law[0], law[1]]
    val = inp = ()
    if form == 1:
        args = [np.array(x) for x in args]
    elif form == 2:
        args = [list(x) for x in args]
    elif form == 3:
        args = [pt.as_tensor_variable(np.array(x)) for x in args]
    if form == 4:
        v = pt.dscalar()
        inp, val = (v,), (sbr,)
        sbr = v
    return xo.SecondaryEclipseLightCurve(*args, sbr), inp, val


def run_curve(c, cell):
    s = system(cell)
    law, k, sbr = LAWS[cell["law"]], cell["k"], cell["sbr"]
    lc, inp, val = build(law, sbr, cell["form"])
    t, te = times(s, k)
    r = k * s.rs
    arg = [r, np.array([r]), np.array(r), pt.as_tensor_variable(r), [r]][cell["form"]]
    got = ev(lc.get_light_curve(orbit=s.orbit, r=arg, t=t, use_in_transit=cell["uit"]), inp, val)
    l1, l2 = hidden(s, law, k, t)
    f = sbr * k**2
    want = (l1 + f * l2) / (1 + f)
    tol = 3e-6 + 1e-9 * np.abs((t[:, None] - s.t0) / s.P)
    c.close("both eclipses", got, want, tol, dict(t=t[:, None]))
    if sbr == 0:
        lone = ev(xo.LimbDarkLightCurve(*law[0]).get_light_curve(orbit=s.orbit, r=np.array([r]), t=t))
        c.close("a dark companion only transits", got, lone, 1e-10)
    c.lattice(t, traces=1)
    c.outcome("transit", int(np.sum(l1 < 0)))
    c.outcome("eclipse", int(np.sum(l2 < 0)))
    c.outcome("neither", int(np.sum((l1 == 0) & (l2 == 0))))
    c.sample(te=te, got=got[40], want=want[40])


def run_texp(c, cell):
    s = system(cell)
    law, k, sbr = LAWS[cell["law"]], cell["k"], 0.7
    lc, _, _ = build(law, sbr, 0)
    t, te = times(s, k)
    w = np.full(len(t), 0.06) if cell["texp"] == "scalar" else np.array([0.02, 0.3, 0.0, 0.1])[np.arange(len(t)) % 4]
    n = cell["over"] + 1 - cell["over"] % 2
    how = {} if cell["order"] == "default" else dict(order=cell["order"], oversample=cell["over"])
    got = ev(lc.get_light_curve(orbit=s.orbit, r=k * s.rs, t=t, texp=0.06 if cell["texp"] == "scalar" else w, use_in_transit=cell["uit"], **how))
    x, wt = nodes(0 if cell["order"] == "default" else cell["order"], n)
    l1, l2 = hidden(s, law, k, t[:, None] + w[:, None] * x)
    f = sbr * k**2
    want = np.einsum("tnp,n->tp", (l1 + f * l2) / (1 + f), wt)
    c.close("both eclipses with exposures", got, want, 3e-6 + 1e-9 * np.abs((t[:, None] - s.t0) / s.P), dict(t=t[:, None]))
    c.lattice(t[:, None], x[None, :], traces=1)
    c.outcome("transit", int(np.sum(l1 < 0)))
    c.outcome("eclipse", int(np.sum(l2 < 0)))
    c.sample(got=got[40], want=want[40])


def run_delay(c, cell):
    s = system(cell)
    law, k, sbr = LAWS[0], cell["k"], 0.4
    lc, _, _ = build(law, sbr, 0)
    t, te = times(s, k)
    l1, l2 = hidden(s, law, k, t, True)
    f = sbr * k**2
    got = ev(lc.get_light_curve(orbit=s.orbit, r=k * s.rs, t=t, light_delay=True))
    c.close("both eclipses with light delay", got, (l1 + f * l2) / (1 + f), 5e-5, dict(t=t[:, None]))
    c.lattice(t, traces=1)
    c.outcome("eclipse", int(np.sum(l2 < 0)))
    c.sample(got=got[40])


def run_total(c, cell):
    s = system(cell)
    k, sbr = cell["k"], cell["sbr"]
    f = sbr * k**2
    t, te = times(s, k)
    p = s.pos(t)
    total = (p[2] < 0) & (np.hypot(p[0], p[1]) + k * s.rs < s.rs * (1 - 1e-6))
    for law in LAWS:
        lc, _, _ = build(law, sbr, 0)
        got = ev(lc.get_light_curve(orbit=s.orbit, r=k * s.rs, t=t))
        c.close("a total eclipse loses the companion's light", got[total], np.full(int(total.sum()), -f / (1 + f)), 1e-9)
        c.trace()
    c.expect(total.sum() > 0, "the lattice holds total eclipses")
    c.lattice(t)
    c.outcome("total eclipse", int(total.sum()))
    c.sample(f=f, total=int(total.sum()))
