#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
P = []      # properties
C = {}      # claimed: id -> (technique, level, note)
N = {}      # not applicable: id -> reason


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), claim=None, na=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    assert len(title) <= 80, title
    if claim:
        C[id] = claim
    else:
        N[id] = na or "not yet built"


AI = "abstract interpretation of the compiler's MIR"
exec(open(os.path.join(V, "catalog_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 engine/extract.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": C[p["id"]][0], "level": C[p["id"]][1], "level_note": C[p["id"]][2]}
                  for p in P if p["id"] in C],
       "not_applicable": [{"property": p["id"], "reason": N[p["id"]]} for p in P if p["id"] in N],
       "notes": "Every check re-extracts the type-checked program (MIR) from /repo's working tree and decides its "
                "obligations on it; nothing of /repo is executed. See DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(C), "claimed")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, sch)
except ImportError:
    print("jsonschema not available")
