"""Rewrite MANIFEST.json from properties.jsonl and the modules that exist (development helper)."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, "/repo/src"]
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(here, "harness/props/%s.py" % pid.lower())):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    m = importlib.import_module("harness.props." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": "./run.sh " + pid,
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + pid,
        "technique": getattr(m, "TECHNIQUE", "property-based testing with Hypothesis against an independent oracle"),
        "level": "exploration",
        "level_note": "Random structured search with shrinking; no violation found among the generated cases is not a proof. Assumes: "
        + ("; ".join(m.ASSUMPTIONS) or "nothing beyond the property's statement"),
    })
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every check drives the public API. Known findings: known_findings.txt."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
