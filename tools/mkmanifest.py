#!/usr/bin/python3
"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
import core; core.add_venv()
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if not os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "check still being built"}); continue
    m = importlib.import_module(i.lower())
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": getattr(m, "TECHNIQUE", "property-based testing (Hypothesis) against an independent reference model"),
                   "level": "exploration",
                   "level_note": "Generated cases only, no proof of absence. " + "; ".join(getattr(m, "ASSUMPTIONS", []))})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks build /repo's own CMake targets (release and sanitizer flavours) from a content mirror in /verif/build."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
