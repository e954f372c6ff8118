#!/usr/bin/env python3
"""bin/check.py ID quick|thorough : decides one property on /repo's current tree.

Exit 0: every obligation of the property's rules holds (or only listed known findings fail).
Exit 1: a line `VIOLATION property=ID replay=FILE`; FILE describes each violating construct."""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "lib", "rules"))


def known():
    """lines `finding: property=ID key=KEY ...` of known-findings.txt"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                w = l[len("finding:"):].strip()
                pid = w.split()[0].split("=", 1)[1]
                key = w.split("key=", 1)[1].split(" :: ")[0].strip()
                out.setdefault(pid, {})[key] = w.split(" :: ", 1)[1].strip() if " :: " in w else ""
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    import frame
    rep = frame.Report(pid)
    facts = os.environ.get("VERIF_FACTS")
    mod = importlib.import_module(pid.lower())
    prog = None
    if not facts:
        facts = os.path.join(VERIF, "build", "facts")
        r = subprocess.run([os.path.join(VERIF, "bin", "extract.sh"), facts], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            rep.viol("source-does-not-compile", "/repo's current tree cannot be type-checked: " + r.stdout[-3000:])
            facts = None
    t1 = time.time()
    if facts:
        try:
            import mir
            import absint
            if tier == "thorough":
                absint.Interp.CAP, absint.Interp.HEADCAP = 16, 4
            prog = mir.Program(facts)
            mod.check(prog, rep)
        except mir.AnchorError as e:
            rep.viol("anchor:" + str(e), "the construct this rule is about was not found: %s" % e)
        except absint.TooBig as e:
            rep.viol("analysis-did-not-finish", str(e))
        except Exception as e:
            rep.viol("analysis-failed:" + type(e).__name__, traceback.format_exc()[-2500:])
    kn = known().get(pid, {})
    new = [v for k, v in sorted(rep.viols.items()) if k not in kn]
    old = [v for k, v in sorted(rep.viols.items()) if k in kn]
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, v["key"], kn[v["key"]]))
    os.makedirs(EVID, exist_ok=True)
    fns = sorted(rep.functions)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": mod.RULE,
            "roots_analysed": rep.roots,
            "functions_analysed": len(fns),
            "functions": fns[:200],
            "calls_resolved": rep.calls,
            "abstract_block_visits": rep.visits,
            "obligations": len(rep.obs) + len(rep.viols),
            "discharged": len(rep.obs),
            "obligation_list": ["%s: %s" % (k, v) if v else k for k, v in sorted(rep.obs.items())][:200],
            "counts": rep.counts,
            "bodies_in_program": len(prog.bodies) if prog else 0,
        },
        "assumptions": list(getattr(mod, "ASSUME", [])) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations held, %d violated, %d functions, %d block visits, %.1fs extract + %.1fs analysis" % (
        pid, tier, len(rep.obs), len(rep.viols), len(fns), rep.visits, t1 - t0, time.time() - t1))
    if new:
        p = os.path.join(EVID, pid + ".violations.txt")
        with open(p, "w") as f:
            for v in new:
                text = "[%s] %s\n  at: %s\n  call path: %s\n" % (v["key"], v["msg"], v["at"] or "-", " -> ".join(v["path"]) or "-")
                if v["trace"]:
                    text += "  trace:\n" + "".join("    %s\n" % x for x in v["trace"])
                f.write(text)
                print(text, end="")
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0


COMMON = [
    "MIR emitted by the pinned nightly rustc represents the program that the stable toolchain builds (same sources, same features)",
    "library functions behave as modelled in lib/models.py; an unmodelled library call returns an arbitrary value and changes "
    "nothing but plain data behind its &mut arguments",
    "panics and unwinding end the path (they are not normal completions)",
]

if __name__ == "__main__":
    sys.exit(main())
