#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the rules and the properties."""
import glob, importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("lib", "lib/rules", "selftest"):
    sys.path.insert(0, os.path.join(V, d))
import cases
mf = json.load(open(V + "/MANIFEST.json"))
claimed = [c["property"] for c in mf["checks"]]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
mut = {}
for m in cases.CASES:
    for p in m["props"] or ():
        mut.setdefault(p, []).append(m["name"])
head = open(V + "/tools/design_head.md").read()
rows = []
for l in open(V + "/known-findings.txt"):
    if l.startswith("fixed:"):
        w = l.split(None, 3)
        rows.append("| %s | %s | %s |" % (w[1].split("=")[1], w[2], w[3].strip()))
head = head.replace("FIXED_ROWS", "\n".join(rows))
SEEDX = {"s12": "C04, C02", "s01": "C01", "s02": "C02", "s03": "C03"}
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s (needs: %s) | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], SEEDX.get(i, m["property"])))
head = head.replace("SEED_ROWS", "\n".join(rows))
head = head.replace("NMUT", str(sum(1 for m in cases.CASES if m["props"] is not None))).replace("NSAME", str(sum(1 for m in cases.CASES if m["props"] is None)))
na = ["* **%s** – %s" % (n["property"], n["reason"]) for n in mf["not_applicable"]]
head = head.replace("NA_TEXT", "\n".join(na) or "(none)")
out = [head.rstrip(), ""]
for p in props:
    i = p["id"]
    out += ["### %s  %s" % (i, p["title"]), ""]
    if i not in claimed:
        out += ["Not applicable, see above.", ""]
        continue
    r = importlib.import_module(i.lower())
    doc = dict(l for l in ())
    out += ["*Decided by:* " + r.RULE, ""]
    if getattr(r, "ASSUME", None):
        out += ["*Assumes:* " + "; ".join(r.ASSUME) + ".", ""]
    n = [c.get("level_note") for c in mf["checks"] if c["property"] == i][0]
    ev = V + "/evidence/%s.json" % i
    out += ["*Bounds:* " + (n or "none on inputs, tasks, runners, events or iterations (fixpoint over all paths of the roots)") + ".", ""]
    out += ["*Why tests cannot:* " + p["why_tests_cant"], ""]
    out += ["*Anchored at:* %s (%s). *Mutants:* %d (%s)." % (p["anchors"]["mechanism"], ", ".join(p["anchors"]["files"]), len(mut.get(i, ())), ", ".join(mut.get(i, ())[:8]) + (" …" if len(mut.get(i, ())) > 8 else "")), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
