"""C10: what is loaded from the log is what was written to it."""
from servicer import *
from scan import builders
RULE = ("LogFile::write and the loading of a log (every LogFile constructor, inlined), for every variant of LogEntry on every path: the change each makes to the map of run counts is the one of the "
        "reference state machine (Ready replaces whatever was there; Started needs Ready, Finished needs Started, both keep run count and storage root; success is status == 0; Header and Backref leave the map "
        "alone), so that the two agree; a successful write() has appended the entry it was given and a newline to the file, once; the constructor's map and header are the loaded ones; has_success, has_failure "
        "and runcount answer from the map for their key.")
ASSUME = ["serde_json reads back what it wrote for these types (C15 checks the declarations)", "HashMap behaves as a map"]
LOOKUP = ("remove", "get", "get_mut", "get_key_value", "remove_entry", "index", "index_mut", "entry")
MAPK = ("insert", "remove", "get", "get_mut", "get_key_value", "remove_entry", "index", "index_mut", "entry", "clear", "retain", "drain", "contains_key")


def lookup(v):
    """the map lookup a term comes from: (call, key) or None"""
    while type(v) is V:
        v = peel(v)
        if v.k == "CALL":
            m = v.a[0].split("::")[-1].split(".")[-1]
            if m in LOOKUP and len(v.a[2]) >= 2:
                return v
            if m in ("expect", "unwrap", "cloned", "copied", "clone", "as_ref", "ok_or", "ok_or_else", "get", "into_mut", "as_mut", "remove") and v.a[2]:
                v = v.a[2][0]
                continue
            return None
        if v.k in ("VF", "FLD", "REF") and type(v.a[0]) is V:
            v = v.a[0]
            continue
        return None


def isfld(v, name):
    v = peel(v)
    return v.k == "FLD" and v.a[1] == name or v.k == "VF" and v.a[2] == name


class Names10:
    def __init__(self, P):
        self.entry = adt(P, "LogEntry")
        self.status = adt(P, "RuncountStatus")
        self.file = adt(P, "LogFile")
        self.counts = fieldof(P, self.file, lambda t: t.k == "adt" and t.name in ("HashMap", "BTreeMap", "IndexMap"), "run counts")
        self.header = fieldof(P, self.file, lambda t: t.k == "adt" and t.name == "Option" and t.a[0].k == "adt" and t.a[0].name == "HeaderEntry", "header")
        self.f = fieldof(P, self.file, lambda t: t.k == "adt" and t.a and "BufReaderWriter" in t.name or t.k == "adt" and t.name in ("BufWriter", "File"), "file")
        self.vars = [v["name"] for v in self.entry["variants"]]
        self.epath = self.entry["def"].npath
        self.spath = self.status["def"].npath


class Record(Base):
    """auto: (the entry being taken in | None, ((op, key, value), ...) , writes)"""

    def __init__(self, prog, rep, N, what):
        super().__init__(prog, rep)
        self.N = N
        self.what = what
        self.seen = {}
        self.opaque = ()

    entry = None

    def init(self):
        return (self.entry, (), (), False)

    def part(self, st):
        e, ops, w, hd = st.auto[:4]
        if e is None:
            return st.auto
        return st.auto + (st.variants(e, self.N.epath), frozenset((f, x) for f, x in st.facts.items() if self.onstatus(f, e)))

    def keepfact(self, st, k):
        e = st.auto[0]
        return e is not None and self.onstatus(k, e) or k.k == "DISCR" and (e is not None and has(k, lambda t: t is e) or lookup(k.a[0]) is not None)

    def onstatus(self, f, e):
        return has(f, lambda t: isfld(t, "status")) and has(f, lambda t: t is e)

    def isentry(self, v):
        return v.k == "CALL" and v.a[0].startswith("serde_json::") and v.a[0].split("::")[-1].startswith("from_")

    def on(self, I, st, ev):
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        e, ops, w, hd = st.auto[:4]
        if self.what == "load" and (k == "call" and ev.path and (ev.path.startswith("serde_json::") or "BufRead" in ev.path or m in ("read_line", "read_until")) or k in ("step", "iterend")):
            self.boundary(I, st, ev.cx)
        elif self.what == "load" and k == "ret" and ev.path and ev.path.startswith("serde_json::") and m.startswith("from_"):
            st.auto = (I.canon(st, proj(proj(ev.val, ("v", "Ok")), ("f", "0", 0))), (), (), st.auto[3])
        elif k == "drop" and e is not None and type(ev.val) is V and self.isentry(peel(ev.val)) and has(e, lambda t: t is peel(ev.val)):
            # only asked whether it is an entry
            st.auto = (None, (), (), st.auto[3])
        elif k == "call" and e is not None and m in MAPK and ev.path and "::" in ev.path and ev.args and len(ev.args) >= 2:
            key = I.canon(st, ev.args[1])
            if m == "insert" and len(ev.args) >= 3:
                val = I.canon(st, ev.args[2])
                if val.k == "AGG" and val.a[1] == self.N.spath or lookup(val) is not None:
                    st.auto = (e, ops + (("set", key, val),), w, hd)
            elif m in ("remove", "remove_entry") and self.keyof(key, e):
                st.auto = (e, ops + (("rm", key, None),), w, hd)
        elif k == "call" and m in ("push", "push_str", "extend_from_slice", "write_all") and ev.args and len(ev.args) == 2 and not self.isfile(I, st, ev.args[0]) and has(I.canon(st, ev.args[0]), lambda t: t is e) and newline(I.canon(st, ev.args[1])):
            st.auto = (e, ops + (("nlbuf", None, None),), w, hd)
        elif k == "write" and e is not None:
            root, path = ev.args
            p = [x for x in path if x != "*"]
            if self.what == "write" and p and p[0][0] == "f" and p[0][1] == self.N.header:
                val = I.canon(st, ev.val)
                if val.k == "AGG" and val.a[2] == "Some" and has(val, lambda t: t is e):
                    st.auto = (e, ops + (("hdr", None, None),), w, hd)
                else:
                    self.viol(I, st, "header", "the header is set to %s" % show(val)[:60], ev.cx)
                return True
            lk = lookup(root) if type(root) is V else None
            if lk is not None and (type(ev.val) is V):
                val = I.canon(st, ev.val)
                key = I.canon(st, lk.a[2][1])
                p = [x for x in path if x != "*"]
                if not p or len(p) == 1 and val.k == "AGG" and val.a[1] == self.N.spath:
                    st.auto = (e, ops + (("set", key, val),), w, hd)
                else:
                    st.auto = (e, ops + (("upd:%s" % p[-1][1], key, val),), w, hd)
        elif k == "call" and e is not None and m in ("clear", "retain", "drain") and ev.args and self.iscounts(I, st, ev.args[0]):
            self.viol(I, st, "clears:" + self.what, "the map of run counts is emptied while an entry is taken in", ev.cx)
        if self.what == "write" and k == "ret" and ev.args and m in ("to_writer", "write_all", "write_fmt", "write") and self.isfile(I, st, ev.args[0]) and not has(ev.val, lambda t: t.k == "AGG" and t.a[2] == "Err"):
            a = ev.args[1] if len(ev.args) > 1 else None
            c = I.canon(st, a) if type(a) is V else None
            hasE = c is not None and has(c, lambda t: t is e)
            nl = c is not None and newline(c) or any(o == "nlbuf" for o, _, _ in ops)
            st.auto = st.auto[:2] + (w + ((ev.val, hasE, nl),), hd)
        return True

    def iscounts(self, I, st, v):
        return has(I.canon(st, st.load(v) if v.k == "REF" else v), lambda t: t.k == "FLD" and t.a[1] == self.N.counts)

    def isfile(self, I, st, v):
        c = I.canon(st, st.load(v) if v.k == "REF" else v)
        return has(c, lambda t: t.k == "FLD" and t.a[1] == self.N.f)

    def keyof(self, key, e):
        return isfld(key, "key") and has(key, lambda t: t is e)

    def boundary(self, I, st, cx, extra=""):
        e, ops, w, hd = st.auto[:4]
        if e is None:
            return
        vs = st.variants(e, self.N.epath)
        vs = set(vs) if vs is not None else set(self.N.vars)
        for v in sorted(vs):
            self.seen[v] = self.seen.get(v, 0) + 1
            if v == "Header":
                st.auto = st.auto[:3] + (True,)
                if self.what == "write" and not any(o == "hdr" for o, _, _ in ops):
                    self.viol(I, st, "header", "a Header entry is written and the LogFile keeps another header", cx)
            elif any(o == "hdr" for o, _, _ in ops):
                self.viol(I, st, "header", "a %s entry changes the header" % v, cx)
            self.check(I, st, cx, e, v, ops)
        st.auto = (None, (), (), st.auto[3])

    def check(self, I, st, cx, e, v, ops):
        key = "%s:%s" % (self.what, v)
        final = {}
        for o, k, x in ops:
            if o in ("hdr", "nlbuf"):
                continue
            if not self.keyof(k, e):
                self.viol(I, st, "key:" + key, "a %s entry changes the record of %s, not of its own key" % (v, show(k)[:60]), cx)
                return
            if o == "set":
                final["x"] = x
            elif o == "rm":
                final["x"] = None
            else:
                self.viol(I, st, "part:" + key, "a %s entry changes the record's %s in place" % (v, o[4:]), cx)
                return
        if v not in ("Ready", "Started", "Finished"):
            if final:
                self.viol(I, st, "extra:" + key, "a %s entry changes the record of a task" % v, cx)
            else:
                self.discharge("entry:" + key, "the map of run counts stays as it is")
            return
        if final.get("x") is None:
            self.viol(I, st, "missing:" + key, "a %s entry %s the record of its task" % (v, "removes" if "x" in final else "does not change"), cx)
            return
        x = I.canon(st, final["x"])
        if x.k != "AGG" or x.a[1] != self.N.spath or x.a[2] != v:
            self.viol(I, st, "state:" + key, "after a %s entry the task is recorded as %s" % (v, show(x)[:80]), cx)
            return
        prior = {"Ready": None, "Started": "Ready", "Finished": "Started"}[v]
        for f, val in zip(x.a[3], x.a[4]):
            val = I.canon(st, val)
            if f in ("runcount", "storage_root"):
                p = peel(val)
                good = isfld(p, f)
                if good and prior is None:
                    good = has(p, lambda t: t is e) and lookup(p) is None
                elif good:
                    lk = lookup(p)
                    good = lk is not None and self.keyof(I.canon(st, lk.a[2][1]), e) and (p.a[1] == prior if p.k == "VF" else self.isvar(st, p.a[0], prior))
                if not good:
                    self.viol(I, st, "field:%s:%s" % (key, f), "the %s recorded by a %s entry is %s, not the one of %s" % (f, v, show(val)[:80], "the entry" if prior is None else "the task's %s state" % prior), cx)
                    return
            elif f == "success":
                if not self.success(I, st, val, e):
                    self.viol(I, st, "success:" + key, "a Finished entry records success as %s, not as status == 0" % show(val)[:80], cx)
                    return
            else:
                self.viol(I, st, "field:%s:%s" % (key, f), "the rule does not know the field %s" % f, cx)
                return
        self.discharge("entry:" + key, "recorded as %s of the same key%s" % (v, "" if prior is None else ", keeping run count and storage root of the state " + prior))

    def isvar(self, st, b, name):
        """b: the payload of the prior state: of variant `name`"""
        vs = st.variants(b, self.N.spath)
        return vs is not None and set(vs) == {name}

    def success(self, I, st, val, e):
        s = [t for t in subterms(val) if isfld(t, "status") and has(t, lambda y: y is e)]
        if val.k == "C":
            cands = [t for f in st.facts for t in subterms(f) if isfld(t, "status") and has(t, lambda y: y is e)]
            for c in cands:
                t = st.ev(op("Eq", c, C(0)))
                if t is not None and bool(t) == bool(val.a[0]):
                    return True
            return False
        if len(s) != 1:
            return False
        # as a function of the status
        r = [evalbool(val, s[0], n) for n in (0, 1, 2, -1, -2, 255, 127, -15, 256, 65536, -2147483648)]
        return r[0] is True and all(x is False for x in r[1:])

    def finish(self, I, out, body):
        for st, v in out:
            c = I.canon(st, v)
            cx = I.rootcx(body, 0)
            vs = st.variants(c, RES)
            if vs is not None and set(vs) == {"Err"}:
                continue
            self.boundary_exit(I, st, c, cx)
        self.rep.take(I, self)

    def boundary_exit(self, I, st, c, cx):
        e, ops, w, hd = st.auto[:4]
        if self.what == "write":
            good = [x for x in w if x[1]]
            if len(good) != 1:
                self.viol(I, st, "appended", "write() returns success after it wrote the entry %d times" % len(good), cx)
            elif not any(x[2] for x in w):
                self.viol(I, st, "newline", "write() returns success without ending the line", cx)
            elif w.index(good[0]) > max(i for i, x in enumerate(w) if x[2]):
                self.viol(I, st, "newline", "write() ends the line before it writes the entry", cx)
            elif len(w) > 2:
                self.viol(I, st, "appended", "write() writes more than the entry and a newline", cx)
            else:
                bad = [x for x in w if set(st.variants(x[0], RES) or ("Ok", "Err")) != {"Ok"}]
                if bad:
                    self.viol(I, st, "unreported", "write() returns success although writing to the file may have failed", cx)
                else:
                    self.discharge("appended", "success only after the entry and a newline were written, each with its result looked at")
        self.boundary(I, st, cx)


def evalbool(v, x, n):
    """v with x = n, as a number or truth value"""
    r = number(v, [(x, n)])
    if r is not None:
        return r
    v = peel(v)
    if v is x:
        return n
    if v.k == "NOT":
        a = evalbool(v.a[0], x, n)
        return None if a is None else not a
    if v.k == "OP":
        a = [evalbool(y, x, n) for y in v.a[1:3]]
        if len(a) == 2 and None not in a:
            o = v.a[0]
            return {"Eq": a[0] == a[1], "Ne": a[0] != a[1], "Lt": a[0] < a[1], "Le": a[0] <= a[1], "Gt": a[0] > a[1], "Ge": a[0] >= a[1]}.get(o)
    return None


def newline(v):
    for t in subterms(v):
        if t.k in ("SYM", "CALL") and str(t.a[0]).startswith("const:") and "[u8" in str(t.a[0]):
            return True         # the pieces of a format string
        if t.k == "C":
            x = t.a[0]
            if x == 10 and type(x) is int or type(x) is str and x.endswith("\n") or type(x) is bytes and (b"\n" in x) or type(x) is tuple and 10 in x:
                return True
    return False


class Loaded(Record):
    """A constructor of LogFile."""

    def __init__(self, prog, rep, N, P):
        super().__init__(prog, rep, N, "load")
        self.built = 0

    def on(self, I, st, ev):
        r = super().on(I, st, ev)
        if ev.kind == "agg" and ev.val.a[1] == self.N.file["def"].npath:
            self.built += 1
            self.boundary(I, st, ev.cx)
            d = dict(zip(ev.val.a[3], ev.val.a[4]))
            m = I.canon(st, d[self.N.counts])
            h = I.canon(st, d[self.N.header])
            # the loaded map: a collection filled by the loader
            if m.k not in ("COLL", "PHI") and not has(m, lambda t: t.k in ("COLL", "CALL")):
                self.viol(I, st, "built", "a LogFile starts with %s as its run counts" % show(m)[:60], ev.cx)
            if h.k == "AGG" and h.a[2] == "None" and st.auto[3] or h.k == "AGG" and h.a[2] == "Some" and not has(h, lambda t: t.k == "PHI" or self.isentry(t)):
                self.viol(I, st, "built-header", "a LogFile starts with the header %s" % show(h)[:60], ev.cx)
        return r


class Answer(Base):
    def __init__(self, prog, rep, N):
        super().__init__(prog, rep)
        self.N = N

    def lk(self, st):
        out = []
        for f in st.facts:
            for t in subterms(f):
                if t.k == "CALL" and lookup(t) is t and t not in out:
                    out.append(t)
        return out

    def part(self, st):
        return tuple(sorted((repr(f), str(v)) for f, v in st.facts.items() if any(True for t in subterms(f) if t.k == "CALL" and lookup(t) is t)))

    def keepfact(self, st, k):
        return any(True for t in subterms(k) if t.k == "CALL" and lookup(t) is t)


def answers(P, rep, N):
    n = 0
    for name, want in (("has_success", True), ("has_failure", False)):
        b = P.fn("LogFile::" + name)
        r = Answer(P, rep, N)
        out = r.start(b, CAP=1, HEADCAP=1)
        for st, v in out:
            n += 1
            c = r.I.canon(st, v)
            cx = r.I.rootcx(b, 0)
            fin = [t for t in [c] + list(st.facts) for t in subterms(t) if isfld(t, "success")]
            val = fin[0] if fin else None
            if c.k == "C" and c.a[0] is False or c.k == "C" and c.a[0] == 0:
                # not found, another state, or the other outcome
                ok = False
                for f, x in st.facts.items():
                    if f.k == "DISCR":
                        lk = lookup(f.a[0])
                        if lk is not None and x[0] == "in" and ("Finished" not in x[1] and "Some" not in x[1]):
                            ok = True
                        if lk is not None and x[0] == "notin" and ("Finished" in x[1] or "Some" in x[1]):
                            ok = True
                    elif isfld(f, "success") and x[0] == "in" and set(x[1]) == {not want}:
                        ok = True
                if not ok and val is not None:
                    t = st.ev(val)
                    ok = t is not None and bool(t) is (not want)
                if not ok:
                    # nothing is known: not even a lookup
                    ok = False
                r.rep.need(ok, "answer:%s:false" % name, "%s says no for a task that is not recorded as a %s" % (name, "success" if want else "failure"), where(cx))
            else:
                neg = False
                y = c
                while y.k == "NOT":
                    neg = not neg
                    y = y.a[0]
                ok = False
                if isfld(y, "success") and lookup(y) is not None:
                    ok = (not neg) is want
                elif y.k == "C" and val is not None:
                    t = st.ev(val)
                    ok = t is not None and bool(t) is want
                lk = lookup(y) or (lookup(val) if val is not None else None)
                if ok:
                    ok = lk is not None and has(lk.a[2][1], lambda t: t.k == "SYM" and str(t.a[0]).startswith("param:"))
                r.rep.need(ok, "answer:%s:true" % name, "%s answers with the recorded success of its key" % name, where(cx))
    return n


def check(P, rep):
    N = Names10(P)
    w = P.fn("LogFile::write")
    r = Record(P, rep, N, "write")
    I = r.I = Interp(P, r)
    I.CAP = I.HEADCAP = 1
    args = [mk("SYM", "param:%d" % j, (w.key, j)) for j in range(w.argc)]
    es = [a for j, a in enumerate(args) if w.locals[j + 1][0].k == "adt" and w.locals[j + 1][0].path == N.epath]
    if len(es) != 1:
        raise AnchorError("the entry that LogFile::write is given")
    r.entry = es[0]
    out = I.root(w, args)
    r.finish(I, out, w)
    rep.roots.append(w.df.path)
    rep.floor("variants written", len(r.seen), len(N.vars))
    ctors = [b for b in P.bodies.values() if b.kind == "fn" and b.df.npath.startswith(N.file["def"].npath + "::") and any(x is b for x, _ in builders(P, N.file["def"].npath))]
    seen = {}
    for b in sorted(ctors, key=lambda b: b.key):
        l = Loaded(P, rep, N, P)
        out = l.start(b, CAP=1, HEADCAP=1)
        l.finish(l.I, out, b)
        for k, v in l.seen.items():
            seen[k] = seen.get(k, 0) + v
        rep.need(l.built > 0, "builds:" + b.key, "%s builds a LogFile" % b.df.path)
    rep.floor("constructors", len(ctors), 2)
    rep.floor("variants loaded", len(seen), len(N.vars))
    rep.floor("answers", answers(P, rep, N), 4)
