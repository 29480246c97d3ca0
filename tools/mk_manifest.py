#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, props
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks, na = [], []
NA = {}
fn = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(fn):
    NA = json.load(open(fn))
for x in props.P:
    i = x["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        hs = [registry.HARNESSES[h] for h in r["quick"] + r["thorough"]]
        note = r.get("note") or ("Bounded: " + "; ".join("%s: %s" % (h.name, h.bounds) for h in hs))
        c = {"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
             "technique": "bounded symbolic execution of the real C code (CBMC, SAT), native replay of counterexamples",
             "level": "model_checking", "level_note": note[:4000]}
        c["thorough_cmd"] = "python3 tools/check.py %s --tier thorough" % i
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "no solver-based check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "All checks: tools/check.py; see DESIGN.md. No hooks are needed in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
