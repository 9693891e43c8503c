#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (single source)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NOT_APPLICABLE
checks = {f[:3].upper() for f in os.listdir(os.path.join(H, "checks")) if f[0] != "_" and f.endswith(".py")}
# Synchronous components also hold their property in a clock domain of another name (DomainRenamer).
STATIC = {"B01", "S02", "W05", "T07"}
for p in PROPS:
    if p["id"] not in STATIC:
        p["statement"] += " All of this holds in whatever clock domain the component is placed (DomainRenamer)."
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["all"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=[p.get("observe", "public signals of the module, sampled every clock cycle in the Amaranth simulator")],
                         hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE],
           notes="Every check: run.py <ID>. TLA+ specifications in spec/, drivers of the real gateware in checks/, see DESIGN.md. No hooks in /repo are needed. AMLIB_REPO selects another tree for experiments; the default is /repo.")
missing = [p["id"] for p in PROPS if p["id"] not in checks and p["id"] not in dict(NOT_APPLICABLE)]
if missing:
    print("no check for", missing)
for p in PROPS:
    if p["id"] in checks:
        man["checks"].append(dict(property=p["id"], quick_cmd=f"./run.py {p['id']} --tier quick",
            thorough_cmd=f"./run.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
            technique=p.get("technique", "TLA+ specification model-checked with TLC, bound to the gateware by trace validation (TLC) of simulated executions"
                       + (" and replay of TLC state-graph walks" if p.get("replay") else "")),
            level="model_checking", level_note=p["note"]))
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
try:
    import jsonschema
    for l in open(os.path.join(H, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid,", len(man["checks"]), "checks")
except ImportError:
    print("(no jsonschema)")
