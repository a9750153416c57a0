#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and the property list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for k, c in PROPS.items():
    checks.append({"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": c.get("technique", "Verus contracts on functions extracted from /repo on every run; native replay search for a failing input"),
        "level": c.get("level", "proof"),
        "level_note": c.get("note", "Verus (Z3) discharges the contracts of the listed functions for all inputs. Bounded, not proved: %s. Assumed: see trusted_base in the evidence." % c["bounded"])})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": getattr(props, "NOT_APPLICABLE", []),
     "notes": "See DESIGN.md."}
if getattr(props, "HOOKS", None):
    m["hooks"] = props.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
