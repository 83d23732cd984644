"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "TLA+ trace validation (TLC): every call of recorded real executions over enumerated hostile images must return",
    "C16": "TLA+ trace validation (TLC): traces of the same scenarios from several builds/targets must agree",
}
NOTE = ("Executions of the real crate are validated by TLC against the TLA+ specification (exhaustive only where DESIGN.md says so); "
        "trusted: TLC, the harness's faithful logging.")
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
NA = {}
for i in range(1, 18):
    p = "C%02d" % i
    if p in NA:
        out["not_applicable"].append({"property": p, "reason": NA[p]})
        continue
    out["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": TECH.get(p, "explicit TLA+ specification: TLC-checked design models, and TLC trace validation of real executions"),
        "level": "model_checking",
        "level_note": NOTE,
    })
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
