#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT "what failed" -- record a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
k = json.load(open(p))
pr, c, w = sys.argv[1:4]
k.append({"id": "fixed-%s-%d" % (pr.lower(), len(k)), "property": pr, "harness": "", "check": "", "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (pr, c, w)})
json.dump(k, open(p, "w"), indent=1); open(p, "a").write("\n")
