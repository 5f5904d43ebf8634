#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property with spec/<C>MC.tla and spec/<C>Trace.tla is claimed."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
NOTE = {
}
DEFAULT = ("TLC explores the model exhaustively within the bounds of DESIGN.md and validates every event "
           "recorded from the real code against the specification; bounded in dimension, order and inputs. "
           "Trusts TLC, the Java big-integer overrides (checked in setup_cmd) and the drivers' recording.")
checks, na = [], []
for l in open(f"{H}/properties.jsonl"):
    c = json.loads(l)["id"]
    if all(os.path.exists(f"{H}/spec/{c}{x}.tla") for x in ("MC", "Trace")) and os.path.exists(f"{H}/drivers/{c.lower()}.py"):
        checks.append({"property": c, "quick_cmd": f"python3 run.py {c} --tier quick",
                       "thorough_cmd": f"python3 run.py {c} --tier thorough",
                       "technique": "TLA+ specification, TLC model checking + trace validation of the implementation",
                       "level": "model_checking", "level_note": NOTE.get(c, DEFAULT)})
    else:
        na.append({"property": c, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./selftest.sh", "checks": checks, "not_applicable": na},
          open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in na])
