import numpy as np

from mc.core import product
from mc.env import ev, fn, pt, xo
from mc.ref import blocked_flux

RULE = ("cell = (limb-darkening pair, how it is given); model state = (radius ratio, separation, line-of-sight side); transition = increasing the "
        "separation past each contact (r, |1-r|, 1+r, ...); trace = one crossing of the star by one planet replayed on the flux function and "
        "compared with the radial integral of the hidden intensity")
BOUNDS = ("14 (30) limb-darkening pairs including every corner of the physical triangle; 19 radius ratios 0..1.5 and 3, 40 separations per radius: "
          "every contact, offsets of 1-8 ulps, 1e-16 and 1e-15..1e-3 on both sides, interior, exterior; line of sight +, -, 0")
ASSUMPTIONS = ["the reference integral is accurate to 1e-9; differences up to 2e-7 are not judged"]
LD = [(0.0, 0.0), (0.3, 0.2), (0.6, 0.1), (1.0, 0.0), (0.0, 1.0), (2.0, -1.0), (0.1, -0.05), (0.0, 0.4), (1.2, -0.5), (0.5, 0.5), (0.9, -0.3), (0.25, 0.7),
      (1e-3, 1e-3), (0.05, 0.9)]
RS = [0.0, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 0.45, 0.5, 0.55, 0.7, 0.9, 0.99, 1.0, 1.01, 1.2, 1.5, 3.0]


def cells(tier):
    d = tier == "thorough"
    lds = LD + ([(a, b) for a in np.linspace(0, 2, 9) for b in np.linspace(-1, 1, 9) if a + b <= 1 and a + 2 * b >= 0 and (a, b) not in LD] if d else [])
    out = product(kind=["flux"], ld=[list(x) for x in lds], give=["values"], deep=[d])
    out += product(kind=["flux"], ld=[list(x) for x in lds[1:4]], give=["vector", "symbolic", "function"], deep=[d])
    out += product(kind=["norm"], n=[0])
    return out


def separations(r, deep):
    base = [0.0, r, abs(1 - r), 1 + r, 1.0, 0.5, 2 * r, abs(r - 0.5)]
    off = [0.0] + [s * 10.0**k for k in ((-15, -12, -8, -5, -3) + ((-14, -10, -7, -6, -4, -2) if deep else ())) for s in (-1, 1)]
    ulp = [abs(x + k * np.spacing(x)) for x in base[:4] for k in (1, -1, 2, -2, 3, -3, 8, -8)] + [abs(x + o) for x in base[:4] for o in (1e-16, -1e-16, 2e-16, -2e-16)]
    b = np.array([abs(x + o) for x in base[:4] for o in off] + ulp + base[4:] + list(np.linspace(0, 1.2 * (1 + r), 41 if deep else 15)) + [5.0, 50.0])
    return np.unique(b)


def make(cell):
    u1, u2 = cell["ld"]
    if cell["give"] == "vector":
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return xo.LimbDarkLightCurve(np.array([u1, u2])), (), ()
    if cell["give"] == "symbolic":
        a, b = pt.dscalar(), pt.dscalar()
        return xo.LimbDarkLightCurve(a, b), (a, b), (u1, u2)
    return xo.LimbDarkLightCurve(u1, u2), (), ()


def run(c, cell):
    if cell["kind"] == "norm":
        return norm(c, cell)
    u1, u2 = cell["ld"]
    lc, inp, val = make(cell)
    bs, rs = [], []
    for r in RS:
        b = separations(r, cell["deep"])
        bs.append(b)
        rs.append(np.full(len(b), r))
    b, r = np.concatenate(bs), np.concatenate(rs)
    want = blocked_flux(u1, u2, b, r)
    vb, vr, vz = pt.dvector(), pt.dvector(), pt.dvector()
    F = fn(list(inp) + [vb, vr, vz], [lc._compute_light_curve(vb, vr, vz), lc._compute_light_curve(vb, vr)])
    at = dict(b=b, r=r)
    for los in (1.0, 1e-9, 30.0):
        got, alone = F(*val, b, r, np.full(len(b), los))
        c.close("flux", got, want, 2e-7 + 1e-7 * np.abs(want), at)
        c.close("flux without a line of sight", alone, want, 2e-7 + 1e-7 * np.abs(want), at)
        out = b >= 1 + r
        c.close("zero without overlap", got[out], np.zeros(int(out.sum())), 1e-14, dict(b=b[out], r=r[out]))
        c.expect(np.all(np.isfinite(got)), "finite flux")
        full = b <= r - 1
        c.close("complete coverage", got[full], np.full(int(full.sum()), -1.0), 1e-9)
        c.expect(np.all((got <= 1e-9) & (got >= -1 - 1e-9)), "between 0 and -1")
    for los in (0.0, -1e-9, -30.0):
        c.expect(np.all(F(*val, b, r, np.full(len(b), los))[0] == 0), "zero behind the star", los=los)
    # small planets are measured relative to their size
    sm = (r > 0) & (r <= 0.01) & (b < 1 - 2 * r)
    c.close("relative depth of small planets", got[sm] / r[sm] ** 2, want[sm] / r[sm] ** 2, 1e-3, dict(b=b[sm], r=r[sm]))
    if cell["give"] == "function":
        from exoplanet.light_curves.limb_dark import get_cl, quad_limbdark_light_curve
        g = ev(quad_limbdark_light_curve(get_cl(u1, u2), b, r))
        c.close("quad_limbdark_light_curve", g, want, 2e-7 + 1e-7 * np.abs(want), at)
    c.lattice(r, b, traces=len(RS))
    c.step(len(b))
    c.outcome("no overlap", int(np.sum(out)))
    c.outcome("complete coverage", int(np.sum(full)))
    c.outcome("inside the disk", int(np.sum((b <= 1 - r) & (r > 0))))
    c.outcome("crossing the limb", int(np.sum((b > np.abs(1 - r)) & ~out)))
    c.sample(r=r[50], b=b[50], flux=got[50], want=want[50])


def norm(c, cell):
    """The light hidden by covering the disk is its total flux, for all the pairs at once, and shapes are kept."""
    for u1, u2 in LD:
        lc = xo.LimbDarkLightCurve(u1, u2)
        for shape in ((), (1,), (3,), (2, 3), (2, 1, 3)):
            b = np.linspace(0, 0.8, int(np.prod(shape))).reshape(shape)
            got = ev(lc._compute_light_curve(b, np.full(shape, 0.1)))
            c.close("shape of the flux", got, blocked_flux(u1, u2, b, np.full(shape, 0.1)), 2e-7)
            c.state((u1, u2, shape))
            c.step()
        c.trace()
        c.outcome("normalization")
    c.sample(ld=(u1, u2))
