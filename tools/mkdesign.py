"""Writes DESIGN.md: tools/design_head.md, one section per property (from its check module, properties.jsonl and
ORACLE below), the planted bugs (from seeded/*/meta.json and tools/planted.json) and tools/design_tail.md."""
import ast
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
ORACLE = {
    "K01": "Kepler's equation solved by bisection and Newton iteration in extended precision, placed in space by an explicit rotation matrix (omega, inclination, node); an eccentricity of zero must mean the same as none; get_true_anomaly against tan(f/2) = sqrt((1+e)/(1-e)) tan(E/2).",
    "K02": "closed-form derivatives of the reference solution, and independently of it the energy, angular momentum and inverse-square law evaluated on the returned vectors themselves.",
    "K03": "the two identities themselves (mass weighted sum zero, difference equal to the relative vector), with the masses the check asked for.",
    "K04": "Kepler's third law and density = mass / volume written out for each legal subset; for chains, the initial system.",
    "K05": "the defining events: projected distance, sign of z, and distance of closest approach at t0, t0 + n P and t_periastron.",
    "K06": "projected distance at t0 -/+ duration/2 on the code's own trajectory; the system implied by the duration solved in closed form; Jacobians by closed form and by central differences of the attributes.",
    "K07": "minus the z velocity of the reference star, or K (cos(omega + f) + e cos omega), in exact unit ratios.",
    "K08": "the emission time solved to convergence by fixed-point iteration on the undelayed reference; the tolerance is the size of the first neglected term.",
    "K09": "R_sun/AU times the parallax times the position; numpy hypot and arctan2.",
    "K10": "the contacts bracketed and bisected on the reference orbit; a band around each contact of the size of the arithmetic error is not judged.",
    "K11": "the original system with the bodies' names exchanged.",
    "K12": "the same method on scalars, one planet and one time at a time, in float64.",
    "U01": "the orbit built from hand-converted plain numbers, compared in all attributes and a trajectory.",
    "T01": "the reference Kepler orbit with piecewise-shifted time: the shift of the nearest transit, boundaries halfway between consecutive transits, end shifts held outside.",
    "T02": "the ephemeris definition: ttv_i = time_i - (t0 + P n_i) with the least-squares line through the labels given.",
    "T03": "enumeration of the transit numbers in exact rational arithmetic.",
    "S01": "the straight chord crossed at constant speed between the contacts, with the documented side of the star outside.",
    "L01": "the radial integral of the hidden intensity by 48-point Gauss-Legendre quadrature with smoothed ends, split at every contact.",
    "L02": "L01's flux at the reference planet's projected distance, zero behind the star or off the disk.",
    "L03": "the same code evaluated at every time (use_in_transit=False), and an exact zero away from transits.",
    "L04": "the weighted sum of the reference flux over the nodes of the midpoint, trapezoid and Simpson rules, and convergence to the exposure average at the rule's order.",
    "L05": "the hidden fraction of each body weighted by its share of the light; which body is in front from the sign of z.",
    "L06": "the definition of the depth: ror^2 I(b) / mean intensity.",
    "L07": "linear interpolation in phase between values of the base model itself.",
    "G01": "fourth-order divided differences of the values computed by the same graph; every gradient also has to be finite.",
    "P01": "the same call made on freshly built objects; every reachable attribute and every argument is fingerprinted before and after.",
    "D01": "the documented density: two independent normals and the factor radius^(2 regularization); the pushed-forward density over the circle is constant.",
    "D02": "constant density 1/pi after multiplication by the Jacobian of the code's own map.",
    "D03": "constant density over the triangle after multiplication by the Jacobian of the code's own map.",
    "D04": "1 / (1 + ror) inside, nothing outside.",
    "D05": "scipy.stats.beta renormalised on the bounds, times truncated normals of the hyperparameters.",
    "D06": "the two-component mixture from scipy.stats densities, differences only (the constant is not claimed).",
    "C01": "a set per model, updated by hand; the bibliography is parsed entry by entry.",
    "E01": "the definition, by sorting the strict interior maxima; the parabola solved from its three points.",
    "E02": "the signal that was injected; the periodogram recomputed from the data at the returned frequencies.",
    "E03": "the semi-amplitudes, masses and inclination-free mass function used to build the series.",
    "I01": "explicit multilinear sum over the corners of the cell, in float64.",
    "V01": "the outputs of the same object for each observation alone.",
    "N01": "the outputs for the same numbers given as float64 arrays.",
    "R01": "the same objects built from plain arrays of the current values.",
    "X01": "the documented rules as a predicate on argument sets, and the closed-form system for the sets that are legal.",
    "M01": "the parts built separately (each in a model of its own) plus a Gaussian likelihood of the reference light curve and radial velocity.",
}


def consts(f):
    out = {}
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    out = [(V / "tools" / "design_head.md").read_text().rstrip()]
    cost = json.loads((V / "tools" / "cost.json").read_text())
    out.append("\n## 3. The properties, one by one\n")
    out.append("States, transitions, traces and seconds are those of one quick run on the unchanged tree (8 processes); "
               "every run writes its own to evidence/.\n")
    for line in (V / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        c = consts(V / "mc" / "checks" / (p["id"].lower() + ".py"))
        e = cost.get(p["id"], {})
        out.append(f"### {p['id']} {p['title']}\n")
        out.append("*Enumerated.* " + " ".join(c["RULE"].split()) + ".\n")
        out.append("*Bounds.* " + " ".join(c["BOUNDS"].split()) + ".\n")
        out.append("*Oracle.* " + ORACLE[p["id"]][0].upper() + ORACLE[p["id"]][1:] + "\n")
        if c.get("ASSUMPTIONS"):
            out.append("*Assumes.* " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
        out.append("*Beyond the tests.* " + p["why_tests_cant"] + "\n")
        if e:
            out.append(f"*Cost.* {e['cells']} cells, {e['states']} states, {e['transitions']} transitions, {e['traces']} traces, "
                       f"{e['comparisons']} comparisons, {e['wall']:.0f} s.\n")
    out.append("## 4. Planted bugs\n")
    out.append((V / "tools" / "design_planted.md").read_text().rstrip() + "\n")
    caught = json.loads((V / "tools" / "planted.json").read_text())
    out.append("| planted bug | property | needs | caught by |")
    out.append("|---|---|---|---|")
    if not (V / "seeded").is_dir():
        raise SystemExit("no seeded folder here")
    for d in sorted((V / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        out.append(f"| {d.name} | {m['property']} | {' '.join(m['needs'].split())} | {caught.get(d.name, 'not run')} |")
    out.append("")
    lines = [" ".join(x.split()[1:]) for x in (V / "known_findings.txt").read_text().splitlines() if x.startswith("fixed:")]
    tail = (V / "tools" / "design_tail.md").read_text().rstrip()
    out.append(tail.replace("{{DEFECTS}}", "\n".join("- " + x.removeprefix("property=") for x in lines)))
    (V / "DESIGN.md").write_text("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
