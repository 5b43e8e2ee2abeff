"""Writes MANIFEST.json from properties.jsonl and the check modules present in mc/checks."""
import ast
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    f = V / "mc" / "checks" / (p["id"].lower() + ".py")
    if not f.exists():
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    consts = {}
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "TECHNIQUE", "ASSUMPTIONS"):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    note = ("Holds on every state of the bounded lattice: " + " ".join(consts["BOUNDS"].split()) + ". Between lattice points nothing is claimed. "
            "Trusted: the independent numpy reference model in mc/, NumPy/SciPy, and the pytensor VM without graph rewrites.")
    if consts.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(consts["ASSUMPTIONS"]) + "."
    checks.append(dict(
        property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
        technique=consts.get("TECHNIQUE", "explicit-state model checking: exhaustive enumeration of a bounded state lattice of an independent "
                             "reference model, every model trace replayed on the implementation"),
        level="model_checking", level_note=note))
(V / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="chmod +x check && mkdir -p evidence replays && ./check --version", checks=checks, not_applicable=na,
    notes="No hooks: every check drives the public API of /repo's working tree (mc/env.py loads src/ directly, without bytecode caches)."), indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
