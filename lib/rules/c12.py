"""C12: the run count a task is given."""
from servicer import *
from c10 import Names10, lookup, isfld
RULE = ("logfile_runcount and add_task, every path, by what the log's record of the key is known to be: no record gives 0 and no directory; Ready the record's run count and no directory; Started and a failed Finished the record's run count + 1 and "
        "no directory; a successful Finished the record's run count and the directory made of the record's storage root, the key and that run count. The task that add_task adds carries that run count, for its own key. "
        "LogFile::storage_root gives the header's entry of that index, relative ones below the log's directory.")
ASSUME = ["HashMap::get behaves as a map", "run counts stay below 2^32 - 1"]
PROBES = (0, 1, 2, 1000)


class Counts(Base):
    def __init__(self, prog, rep, N):
        super().__init__(prog, rep)
        self.N = N
        self.n = {}
        self.cmd = adt(prog, "Cmd")["def"].npath
        self.opaque = ()
        self.adds = 0

    def init(self):
        return ()

    def lookups(self, facts):
        for k in facts:
            lk = lookup(k.a[0]) if k.k == "DISCR" else lookup(k) if k.k in ("VF", "FLD") else None
            if lk is not None and infield(lk.a[2][0], self.N.counts):
                yield k, lk

    def part(self, st):
        t = [(show(k), st.facts[k][0], tuple(sorted(map(str, st.facts[k][1])))) for k, _ in self.lookups(st.facts)]
        t += [(show(k), st.ev(k)) for k in st.facts if k.k == "CALL" and k.a[0].split("::")[-1] in ("is_absolute", "is_relative", "has_root")]
        return tuple(sorted(t, key=str))

    def keepfact(self, st, k):
        return next(self.lookups({k: 0}), None) is not None or k.k == "CALL" and k.a[0].split("::")[-1] in ("is_absolute", "is_relative", "has_root")

    def record(self, I, st, key):
        """(state of the record of this key, the lookup)"""
        m = None
        for k, lk in self.lookups(st.facts):
            if I.canon(st, lk.a[2][1]) is not key and peel(I.canon(st, lk.a[2][1])) is not key:
                continue
            m = lk
        if m is None:
            return None, None
        vs = st.variants(m, OPT) or frozenset()
        if vs == frozenset(["None"]):
            return "None", m
        if vs != frozenset(["Some"]):
            return None, m
        s = None
        for k, lk in self.lookups(st.facts):
            if lk is m and k.k == "DISCR" and k.a[0] is not m:
                v2 = st.variants(k.a[0], self.N.spath)
                if v2 is not None and len(v2) == 1:
                    s = next(iter(v2))
        if s == "Finished":
            for k, lk in self.lookups(st.facts):
                if lk is m and isfld(k, "success"):
                    e = st.ev(k)
                    return ("Success" if e is True else "Failure" if e is False else None), m
            return None, m
        return s, m

    def rc(self, I, st, v, m, what, cx, state):
        """is v the run count for that state of the record"""
        v = I.canon(st, v)
        vname = {"Success": "Finished", "Failure": "Finished"}.get(state, state)

        def mine(t):
            return isfld(t, "runcount") and lookup(t) is m and (peel(t).k != "VF" or peel(t).a[1] == vname)
        if any(number(v, [(mine, p)]) != {"None": 0, "Ready": p, "Started": p + 1, "Failure": p + 1, "Success": p}[state] for p in PROBES):
            self.viol(I, st, "%s:%s" % (what, state), "%s: the run count given is %s" % ({"None": "the log has no record of the key", "Ready": "the key was Ready and never started", "Started": "the key was started and not finished", "Failure": "the key's last run failed", "Success": "the key's last run succeeded"}[state], show(v)[:100]), cx)
            return
        self.n[what, state] = self.n.get((what, state), 0) + 1

    def root(self, I, st, v, m, key):
        """v = join(storage root of the record, key.runcount)"""
        v = peel(I.canon(st, v))
        if not iscall(v, "join"):
            return "%s is not a directory below a storage root" % show(v)[:60]
        base, rel = [I.canon(st, x) for x in v.a[2][:2]]
        shown = [t for t in subterms(rel) if t.k == "CALL" and t.a[0].split("::")[-1].startswith("new_display")]
        fm = next((t for t in subterms(rel) if t.k == "CALL" and t.a[0].split("::")[-1] in ("new", "new_v1")), rel)
        args = next((x for x in fm.a[2] if x.k == "AGG" and has(x, lambda t: t in shown)), None) if fm.k == "CALL" else None
        order = []
        for x in (args.a[4] if args is not None else ()):
            if has(x, lambda t: isfld(t, "runcount") and lookup(t) is m):
                order.append("runcount")
            elif has(x, lambda t: t is key):
                order.append("key")
            else:
                order.append("other")
        if order != ["key", "runcount"]:
            return "the directory's name is made of %s" % (order or show(rel)[:60])
        return self.isroot(I, st, base, lambda x: isfld(x, "storage_root") and lookup(x) is m)

    def isroot(self, I, st, base, idx):
        base = peel(base)
        rel = None
        if iscall(base, "join"):
            up, base = [peel(I.canon(st, x)) for x in base.a[2][:2]]
            if not (has(up, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] == "parent") and infield(up, "path")):
                return "a relative storage root is taken below %s" % show(up)[:60]
            rel = True
        at = next((t for t in subterms(base) if t.k == "CALL" and t.a[0].split("::")[-1].rstrip("?") in ("index", "get") and len(t.a[2]) == 2), None)
        if at is None or not infield(at.a[2][0], "storage_roots") or not infield(at.a[2][0], self.N.header):
            return "%s is not one of the log's storage roots" % show(base)[:80]
        i = at.a[2][1]
        if not idx(peel(i.a[1] if i.k == "CAST" else i)):
            return "the storage root's index is %s" % show(i)[:60]
        if not rel:
            good = False
            for k in st.facts:
                if k.k == "CALL" and k.a[0].split("::")[-1] in ("is_absolute", "has_root") and st.ev(k) is True or k.k == "CALL" and k.a[0].split("::")[-1] == "is_relative" and st.ev(k) is False:
                    good = True
            if not good:
                return "a relative storage root is not taken below the log's directory"
        return None

    def on(self, I, st, ev):
        if ev.kind == "agg" and ev.val.a[1] == self.cmd and not self.inner(ev):
            c = I.canon(st, ev.val)
            d = dict(zip(c.a[3], c.a[4]))
            key = I.canon(st, d["key"])
            s, m = self.record(I, st, peel(key))
            if s is None:
                self.viol(I, st, "cmd-unknown", "the task is made with run count %s without a look at the record of its key" % show(I.canon(st, d["runcount"]))[:80], ev.cx)
            else:
                self.rc(I, st, d["runcount"], m, "task", ev.cx, s)
        return True

    def inner(self, ev):
        return False


def check(P, rep):
    N = Names10(P)
    a = Counts(P, rep, N)
    body = P.fn("PyExecGraph::logfile_runcount")
    out = a.start(body)
    key = None
    for st, v in out:
        I = a.I
        cx = I.rootcx(body, 0)
        v = I.canon(st, v)
        key = next((t for k, lk in a.lookups(st.facts) for t in subterms(lk.a[2][1]) if t.k == "SYM" and t.a[0].startswith("param:") and t.a[1][0] == body.key), None)
        if key is None:
            a.viol(I, st, "unknown", "a run count is given without a look at the record of the key", cx)
            continue
        s, m = a.record(I, st, key)
        if s is None:
            a.viol(I, st, "unknown", "the run count %s is given whatever the state of the key's record" % show(v)[:80], cx)
            continue
        rc, d = [I.canon(st, proj(v, ("f", str(i), i))) for i in (0, 1)]
        a.rc(I, st, rc, m, "answer", cx, s)
        dv = st.variants(d, OPT) or frozenset(["Some", "None"])
        if s != "Success":
            if dv != frozenset(["None"]):
                a.viol(I, st, "dir:" + s, "a directory is given although the key's last run did not succeed (%s)" % s, cx)
        elif dv != frozenset(["Some"]):
            a.viol(I, st, "dir:none", "no directory is given although the key's last run succeeded", cx)
        else:
            e = a.root(I, st, proj(proj(d, ("v", "Some")), ("f", "0", 0)), m, key)
            if e:
                a.viol(I, st, "dir:other", e, cx)
            else:
                a.n["dir", "Success"] = a.n.get(("dir", "Success"), 0) + 1
    rep.take(a.I, a)
    b = Counts(P, rep, N)
    b.opaque = ("ExecGraph::add_task",)
    b.start(P.fn("PyExecGraph::add_task"))
    for w, c in (("answer", a), ("task", b)):
        for s in ("None", "Ready", "Started", "Failure", "Success"):
            rep.floor("%s:%s" % (w, s), c.n.get((w, s), 0), 1)
    rep.floor("directories", a.n.get(("dir", "Success"), 0), 1)
    # storage_root by itself
    r = Counts(P, rep, N)
    body = P.fn("LogFile::storage_root")
    out = r.start(body)
    n = 0
    for st, v in out:
        I = r.I
        cx = I.rootcx(body, 0)
        v = I.canon(st, v)
        if "Some" not in (st.variants(v, OPT) or ("Some",)):
            continue
        e = r.isroot(I, st, I.canon(st, proj(proj(v, ("v", "Some")), ("f", "0", 0))), lambda x: x.k == "SYM" and x.a[0].startswith("param:") and x.a[1] == (body.key, 1))
        if e:
            r.viol(I, st, "storage-root", e, cx)
        else:
            n += 1
    rep.take(r.I, r)
    rep.floor("storage roots", n, 1)
