#!/usr/bin/env python3
"""Self-test of the checks: textual mutants (must be reported by the named property) and behaviour-preserving
edits (every check must stay quiet).  usage: run.py [-j N] [-p PROP] [NAME-SUBSTRING...]; scratch under /tmp/selftest."""
import argparse, concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("SELFTEST_REPO", "/repo")
W = os.environ.get("SELFTEST_DIR", "/tmp/selftest")

STAMP = None
def facts(m):
    d = os.path.join(W, "facts", m["name"]); os.makedirs(d, exist_ok=True)
    src = os.path.join(W, "repo")
    global STAMP
    if STAMP is None:
        STAMP = subprocess.run("git -C %s rev-parse HEAD; cat %s/driver/main.rs | sha1sum" % (REPO, VERIF), shell=True, stdout=subprocess.PIPE, text=True).stdout
    stamp = hashlib.sha1((STAMP + repr(m["edits"]) + (open(m["patch"]).read() if m.get("patch") else "")).encode()).hexdigest()
    if os.path.exists(d + "/stamp") and open(d + "/stamp").read() == stamp:
        return d, None
    shutil.rmtree(src, ignore_errors=True); os.makedirs(src)
    subprocess.run("git -C " + REPO + " archive HEAD | tar x -C " + src, shell=True, check=True)
    if m.get("patch"):
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", src, m["patch"]], check=True, cwd="/")
    for f, old, new in m["edits"]:
        p = os.path.join(src, f); s = open(p).read()
        if s.count(old) < 1:
            return None, "text not found in %s: %r" % (f, old[:60])
        s = s.replace(old, new, 1); open(p, "w").write(s)
    env = dict(os.environ, EXECGRAPH_REPO=src, VERIF_TARGET=os.path.join(W, "target"))
    r = subprocess.run([os.path.join(VERIF, "bin/extract.sh"), d], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0: open(d + "/stamp", "w").write(stamp)
    return (d, None) if r.returncode == 0 else (None, r.stdout[-1500:])

def run(pid, d):
    r = subprocess.run([sys.executable, os.path.join(VERIF, "bin/check.py"), pid, "quick"], env=dict(os.environ, VERIF_FACTS=d, VERIF_EVIDENCE=os.path.join(W, "evidence")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, [l[:230] for l in r.stdout.splitlines() if l.startswith("[")]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=7); ap.add_argument("-p"); ap.add_argument("-r", action="store_true", help="behaviour-preserving edits only"); ap.add_argument("-m", action="store_true", help="mutants only"); ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    import cases
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + "/target"): shutil.copytree(VERIF + "/build/target", W + "/target", symlinks=True)
    allp = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(VERIF + "/lib/rules/[a-z][0-9][0-9]*.py"))
    L = []
    for m in cases.CASES:
        if a.names and not any(n in m["name"] for n in a.names): continue
        if a.r and m["props"] is not None or a.m and m["props"] is None: continue
        if a.p and m["props"] is not None and not set(a.p.split(",")) & set(m["props"]): continue
        L.append(m)
    bad = 0; futs = []
    with cf.ThreadPoolExecutor(a.j) as ex:
        for m in L:
            d, e = facts(m)
            if d is None: print("BROKEN %s: %s" % (m["name"], e)); bad += 1; continue
            ps = m["props"] if m["props"] is not None else allp
            if a.p: ps = [x for x in a.p.split(",") if m["props"] is None or x in m["props"]]
            for p in ps:
                if p not in allp: print("NOCHECK %s %s" % (m["name"], p)); bad += 1; continue
                futs.append((m, p, ex.submit(run, p, d)))
        for m, p, f in futs:
            rc, l = f.result()
            if m["props"] is None:
                good = rc == 0
                if not good: print("FALSE-ALARM %s %s\n    %s" % (p, m["name"], "\n    ".join(l[:4]))); bad += 1
            else:
                good = rc == 1 and not any("analysis-failed" in x for x in l)
                print("%s %s %s  %s" % ("caught" if good else "MISSED", p, m["name"], l[0][:150] if l else "")); bad += not good
    print("%d problem(s)" % bad)
    return 1 if bad else 0
if __name__ == "__main__": sys.exit(main())
