"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS

TECH = "solver-based symbolic execution of the real source: every feasible path within the bounds, each branch and property query decided by z3, counterexamples replayed on the unpatched code"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())'", "checks": [], "not_applicable": []}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"],
                            "quick_cmd": "python3-vt engine/run.py %s --tier quick" % p["id"],
                            "thorough_cmd": "python3-vt engine/run.py %s --tier thorough" % p["id"],
                            "technique": p.get("tech", TECH), "level": "model_checking",
                            "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(line), sch)
    print("valid", len(PROPS))
except ImportError:
    pass

# ---- DESIGN.md
sys.path.insert(0, V)
from how import HOW
from engine import registry
registry.load_all()
known = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl"))]
fixed = "| property | commit | what failed |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (k["property"], k["commit"], k["what"].replace("|", "/")) for k in known if k["status"] == "fixed")
out = open(os.path.join(V, "tools/design_head.md")).read().replace("FIXED_TABLE\n", fixed)
out += "## 5. The properties\n\nPer property: the oracle and what is symbolic; per harness: parameters (quick; thorough) and bounds.\n\n"
def show(params):
    if len(params) > 4:
        keys = sorted({k for q in params for k in q})
        return "%d parameter sets (%s)" % (len(params), ", ".join("%s in %s" % (k, "/".join(sorted({str(q.get(k)) for q in params}))) for k in keys))
    return "; ".join(", ".join("%s=%s" % kv for kv in q.items()) or "-" for q in params)
try:
    cost = json.load(open(os.path.join(V, "tools/cost.json")))
except OSError:
    cost = {}
for p in sorted(PROPS, key=lambda p: p["id"]):
    out += "### %s %s\n\n%s\n\nWhy tests cannot settle it: %s\n\n" % (p["id"], p["title"], HOW[p["id"]], p["why"])
    if p["id"] in cost:
        out += "Cost (quick, 8 cores): %s.\n\n" % cost[p["id"]]
    for h in registry.PROPERTIES[p["id"]]:
        out += "- `%s` (%s | %s): %s\n" % (h.name, show(h.quick), show(h.thorough), h.bounds)
    assumes = sorted({a for h in registry.PROPERTIES[p["id"]] for a in h.assumes})
    for a in assumes:
        out += "- assumed: %s\n" % a
    out += "\n"
out += "## 6. Planted bugs\n\nEach was confirmed (tests pass, demonstration fails) and run against the check of its property (quick).\n\n"
try:
    res = json.load(open(os.path.join(V, "tools/caught.json")))
except OSError:
    res = {}
out += "| bug | property | result | what it breaks |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    meta = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (d, meta["property"], res.get(d, "not run"), meta["what_it_breaks"].replace("|", "/"))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
