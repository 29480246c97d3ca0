#!/usr/bin/env python3
"""DESIGN.md = head + per-property table (from the registry and properties.jsonl) + tail"""
import json, os, sys, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools")
import registry
P = [json.loads(l) for l in open(R + "/properties.jsonl")]
m = json.load(open(R + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in m["not_applicable"]}
how = json.load(open(R + "/tools/design_props.json"))
out = [open(R + "/tools/design_head.md").read(), "## The properties\n"]
for p in P:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not claimed: %s\n" % na[i]); continue
    out.append(how.get(i, "") + "\n")
    q = registry.PROPS[i]
    fam = {}
    for h in q["quick"] + q["thorough"]:
        fam.setdefault(registry.HARNESSES[h].src, []).append(h)
    for src, hs in fam.items():
        H = registry.HARNESSES[hs[0]]
        code = sorted(set(sum((list(registry.HARNESSES[h].files) + list(registry.HARNESSES[h].included) for h in hs), [])) - set(sum((list(registry.HARNESSES[h].model) for h in hs), [])))
        sc = sorted(set("%s=%s" % kv for h in hs for kv in registry.HARNESSES[h].scale.items() if kv[0] != "LIST_ALLOC"))
        nq = sum(1 for h in hs if h in q["quick"])
        out.append("* `harness/%s`, %d queries (%d quick) over %s%s." % (src, len(hs), nq, ", ".join(code) or "(reference only)", "; scaled: " + ", ".join(sc) if sc else ""))
        for h in hs[:4]:
            out.append("  * `%s`: %s" % (h, registry.HARNESSES[h].bounds))
        if len(hs) > 4: out.append("  * and %d more of the same shape (see MANIFEST level_note)" % (len(hs) - 4))
    out.append("")
t = open(R + "/tools/design_tail.md").read()
kf = json.load(open(R + "/known_findings.json"))
t = t.replace("@FIXES@", "\n".join("* " + e["what"] for e in kf if e["status"] == "fixed"))
t = t.replace("@KNOWN@", "\n".join("* %s (`%s`): %s" % (e["property"], e.get("harness", ""), e["what"]) for e in kf if e["status"] != "fixed"))
rows = ["| planted change | property | caught by | needs | breaks |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    x = json.load(open(d))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), x["property"], x.get("caught_by", "check.py " + x["property"]), x["needs"], x["what_it_breaks"]))
t = t.replace("@SEEDS@", "\n".join(rows))
open(R + "/DESIGN.md", "w").write("\n".join(out) + t)
