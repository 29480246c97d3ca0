#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
P = []

def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "where": w} for n, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

if __name__ == "__main__":
    ids = [x["id"] for x in P]
    assert len(ids) == len(set(ids))
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
