#!/usr/bin/env python3
"""The properties and checks: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
ABS = "path-sensitive abstract interpretation (typestate/dataflow to a fixpoint) over the type-checked program's MIR"


def prop(id, title, statement, over, text, why, files, mech, tech=ABS, note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=mech)), tech, note))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, "tools", "props.py")).read())
ids = [p[0]["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(V + "/properties.jsonl", "w") as f:
    for p, _, _ in sorted(P, key=lambda x: x[0]["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
nas = {n["property"] for n in NA}
for p, t, note in sorted(P, key=lambda x: x[0]["id"]):
    i = p["id"]
    if i in nas or not os.path.exists(V + "/lib/rules/%s.py" % i.lower()):
        if i not in nas:
            NA.append(dict(property=i, reason="not yet claimed"))
        continue
    c = dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, technique="static analysis: " + t, level="other")
    if note:
        c["level_note"] = note
    checks.append(c)
json.dump(dict(version=1, setup_cmd="bin/setup.sh", checks=checks, not_applicable=sorted(NA, key=lambda n: n["property"])), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable")
