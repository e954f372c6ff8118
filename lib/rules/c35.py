"""C35: the Python interface hands on what it was given."""
from servicer import *
from c10 import evalbool
RULE = ("PyExecGraph's methods and the module's functions, every path. new: exactly one header is written to the log that the object keeps, its workflow key being the log's own if the log has a header, else newkeyfn's result if there is a newkeyfn, "
        "else a constant, and the object keeps that key; its storage roots are the given ones, each once and in order, with $KEY replaced by that key; num_parallel is kept, a negative one replaced by the available parallelism; failures_allowed is kept, 0 becoming "
        "the largest number. add_task: every field of the task is the parameter of that name, affinity as a bit mask, and the dependencies are passed on. execute: ExecGraph::execute gets the target, the object's own numbers and flags, a provisioner exactly when "
        "a command for one was given, and the rate limit, and its result is returned. write_logfile writes every entry once, in order, and flushes before it returns Ok. load_logfile returns what its mode names.")
ASSUME = ["pyo3 and pythonize convert values faithfully"]
SELF = "PyExecGraph"


def param(v, name, body):
    v = peel(v)
    return v.k == "SYM" and v.a[0] == "param:" + name and v.a[1][0] == body.key


class PyNew(Base):
    opaque = ("LogFile::new", "LogFile::write", "init_logging")

    def __init__(self, prog, rep, body):
        super().__init__(prog, rep)
        self.body = body
        self.entry = adt(prog, "LogEntry")["def"].npath
        self.py = adt(prog, SELF)["def"].npath
        self.n = {}
        self.par = {body.params[i]: i for i in range(len(body.params)) if body.params[i]} if hasattr(body, "params") else {}

    def init(self):
        # headers written, the last one, its key, its roots, Each over storage_roots
        return (0, None, Each.ZERO)

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), f[0], tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.keepfact(st, k))))

    def keepfact(self, st, k):
        if k.k == "DISCR":
            return infield(k.a[0], "header") or param(k.a[0], "newkeyfn", self.body)
        return k.k in ("OP", "NOT", "SYM") and has(k, lambda t: t.k == "SYM" and t.a[0] in ("param:num_parallel", "param:failures_allowed"))

    def mine(self, I, st):
        return lambda it: any(param(t, "storage_roots", self.body) for t in itsources(I, st, it))

    def key(self, I, st, K, cx):
        """where the workflow key comes from, and whether that is right"""
        hdr = nk = None
        for k in st.facts:
            if k.k == "DISCR" and infield(k.a[0], "header") and st.variants(k.a[0], OPT):
                hdr = st.variants(k.a[0], OPT)
            if k.k == "DISCR" and param(k.a[0], "newkeyfn", self.body):
                nk = st.variants(k.a[0], OPT)
        if infield(K, "workflow_key"):
            src = "log"
            good = infield(K, "header")
        elif has(K, lambda t: param(t, "newkeyfn", self.body)):
            src = "newkeyfn"
            good = hdr == frozenset(["None"])
        elif K.k == "C":
            src = "default"
            good = hdr == frozenset(["None"]) and nk == frozenset(["None"])
        else:
            src, good = show(K)[:60], False
        if good:
            self.n["key:" + src] = self.n.get("key:" + src, 0) + 1
        else:
            self.viol(I, st, "key:" + src[:20], "the workflow key is %s although the log%s and newkeyfn is %s" % ({"log": "taken from the log", "newkeyfn": "newkeyfn's", "default": "the default"}.get(src, src), " has a header" if hdr == frozenset(["Some"]) else " may have a header" if hdr is None else " has none", "/".join(sorted(nk or ["unknown"]))), cx)

    def on(self, I, st, ev):
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        n, h, e = st.auto
        if k in ("item", "step", "iterend", "itemdone"):
            st.auto = (n, h, Each.on(I, st, ev, e, self.mine(I, st)))
            return True
        if k == "collect":
            v = ev.val
            if e[0] is not None and has(v, lambda t: t is e[0]):
                r = [t for t in subterms(v) if t.k == "CALL" and t.a[0].split("::")[-1] == "replace"]
                if r:
                    e = Each.use(e, v)
            st.auto = (n, h, e)
            return True
        if k == "ret" and m == "write" and "LogFile" in ev.path:
            v = I.canon(st, ev.args[1])
            hd = next((t for t in subterms(v) if t.k == "AGG" and t.a[1].endswith("HeaderEntry")), None)
            if v.k != "AGG" or v.a[2] != "Header" or hd is None:
                self.viol(I, st, "entry", "%s is written to the log when it is opened" % show(v)[:60], ev.cx)
                return True
            if n:
                self.viol(I, st, "two-headers", "a second header is written to the log", ev.cx)
            d = dict(zip(hd.a[3], hd.a[4]))
            K = I.canon(st, d["workflow_key"])
            self.key(I, st, K, ev.cx)
            roots = I.canon(st, d["storage_roots"])
            els = [x for x, f in roots.a[1]] if roots.k == "COLL" else None
            if els is None or not (e[3] is True):
                self.viol(I, st, "roots", "the header's storage roots are not the given ones, each once and in order", ev.cx)
            else:
                for x in els:
                    r = next((t for t in subterms(x) if t.k == "CALL" and t.a[0].split("::")[-1] == "replace"), None)
                    a = [peel(I.canon(st, y)) for y in r.a[2]] if r is not None else []
                    if len(a) != 3 or a[1].k != "C" or a[1].a[0] != "$KEY" or a[2] is not K:
                        self.viol(I, st, "roots-key", "a storage root of the header is %s" % show(x)[:80], ev.cx)
                    elif not has(a[0], lambda t: t.k == "CALL" and t.a[0] in ("index", "elem")):
                        self.viol(I, st, "roots-key", "a storage root of the header is made of %s" % show(a[0])[:80], ev.cx)
            st.auto = (min(2, n + 1), (K, I.canon(st, ev.val), I.placeof(st, ev.args[0])), e)
        elif k == "agg" and ev.val.a[1] == self.py:
            self.made(I, st, ev)
        return True

    def made(self, I, st, ev):
        v = I.canon(st, ev.val)
        d = dict(zip(v.a[3], v.a[4]))
        n, h, e = st.auto
        if n != 1:
            self.viol(I, st, "no-header", "the object is made and %s was written to the log" % ("no header" if not n else "more than one header"), ev.cx)
            return
        if st.variants(h[1], RES) != frozenset(["Ok"]):
            self.viol(I, st, "header-error", "the object is made although the header may not have been written", ev.cx)
        if I.canon(st, d["key"]) is not h[0]:
            self.viol(I, st, "key-kept", "the object keeps the key %s, the header got %s" % (show(d["key"])[:50], show(h[0])[:50]), ev.cx)
        for f, probes in (("num_parallel", (-3, -1, 0, 1, 6)), ("failures_allowed", (0, 1, 9))):
            x = I.canon(st, d[f])
            sym = [t for t in subterms(x) if t.k == "SYM" and t.a[0].startswith("param:")]
            for p in probes:
                env = lambda t: t.k == "SYM" and t.a[0] == "param:" + f
                holds = True
                for k, fct in st.facts.items():
                    s = next((t for t in subterms(k) if env(t)), None)
                    if s is not None and k.k in ("OP", "NOT", "SYM"):
                        b = evalbool(k, s, p)
                        if b is not None and ((b in fct[1]) if fct[0] == "notin" else (b not in fct[1])):
                            holds = False
                if not holds:
                    continue
                got = number(x, [(env, p)])
                if f == "num_parallel" and p < 0:
                    ok = has(x, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] in ("available_parallelism", "num_cpus", "get_physical"))
                else:
                    ok = got == (p if p or f == "num_parallel" else (1 << 32) - 1)
                if ok:
                    self.n["%s=%d" % (f, p)] = self.n.get("%s=%d" % (f, p), 0) + 1
                else:
                    self.viol(I, st, "number:%s:%d" % (f, p), "with %s = %d the object keeps %s" % (f, p, show(x)[:80]), ev.cx)
        x = I.canon(st, d["rerun_failures"])
        if not param(x, "rerun_failures", self.body):
            self.viol(I, st, "rerun", "the object keeps rerun_failures = %s" % show(x)[:60], ev.cx)
        if not has(I.canon(st, d["g"]), lambda t: t.k == "CALL" and t.a[0].endswith("LogFile::new") or t.k == "CALL" and t.a[0].endswith("::new") and has(t, lambda u: param(u, "logfile", self.body))):
            g = show(I.canon(st, d["g"]))
            if "param:logfile" not in g and "write(" not in g:
                self.viol(I, st, "other-log", "the task graph is given another log: %s" % g[:80], ev.cx)
        self.n["made"] = self.n.get("made", 0) + 1


class PyAdd(Base):
    opaque = ("ExecGraph::add_task", "PyExecGraph::logfile_runcount")

    def __init__(self, prog, rep, body):
        super().__init__(prog, rep)
        self.body = body
        self.cmd = adt(prog, "Cmd")["def"].npath
        self.n = 0

    def init(self):
        return 0

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), f[0], tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.keepfact(st, k))))

    def keepfact(self, st, k):
        return k.k == "DISCR" and any(param(k.a[0], n, self.body) for n in ("fd_input", "preamble", "postamble", "display"))

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path.endswith("ExecGraph::add_task"):
            c = I.canon(st, ev.args[1])
            if c.k != "AGG" or c.a[1] != self.cmd:
                self.viol(I, st, "task", "the task that is added is %s" % show(c)[:60], ev.cx)
                return True
            if st.auto:
                self.viol(I, st, "twice", "the task is added twice", ev.cx)
            st.auto = 1
            if not param(I.canon(st, ev.args[2]), "dependencies", self.body):
                self.viol(I, st, "dependencies", "the dependencies passed on are %s" % show(I.canon(st, ev.args[2]))[:60], ev.cx)
            for f, v in zip(c.a[3], c.a[4]):
                v = I.canon(st, v)
                if f in ("cmdline", "key", "display", "storage_root"):
                    ok = param(v, f, self.body)
                elif f == "affinity":
                    ok = v.k == "CALL" and len(v.a[2]) == 1 and param(I.canon(st, v.a[2][0]), "affinity", self.body) or v.k == "AGG" and any(param(x, "affinity", self.body) for x in v.a[4])
                elif f == "fd_input":
                    # (fd, bytes) of the parameter, None for none
                    vs = next((st.variants(k.a[0], OPT) for k in st.facts if k.k == "DISCR" and param(k.a[0], f, self.body)), None)
                    if vs == frozenset(["None"]):
                        ok = v.k == "AGG" and v.a[2] == "None"
                    elif vs == frozenset(["Some"]) and v.k == "AGG" and v.a[2] == "Some":
                        t = I.canon(st, v.a[4][0])
                        p = t.a[4] if t.k == "AGG" and len(t.a[4]) == 2 else None
                        ok = p is not None and self.part_of(p[0], f, 0) and self.part_of(p[1], f, 1)
                    else:
                        ok = param(v, f, self.body)
                elif f in ("preamble", "postamble"):
                    vs = next((st.variants(k.a[0], OPT) for k in st.facts if k.k == "DISCR" and param(k.a[0], f, self.body)), None)
                    if vs == frozenset(["None"]):
                        ok = v.k == "AGG" and v.a[2] == "None"
                    else:
                        ok = vs == frozenset(["Some"]) and v.k == "AGG" and v.a[2] == "Some" and has(v, lambda t: param(t, f, self.body)) and not has(v, lambda t: t.k == "SYM" and t.a[0].startswith("param:") and t.a[0] != "param:" + f)
                else:
                    continue
                if ok:
                    self.discharge("task:" + f, "is the parameter")
                else:
                    self.viol(I, st, "task:" + f, "the task's %s is %s" % (f, show(v)[:80]), ev.cx)
            self.n += 1
        return True

    def part_of(self, v, f, i):
        while True:
            v = peel(v)
            if i == 1 and (v.k == "CALL" and v.a[0].split("::")[-1] in ("extract", "unwrap", "expect", "as_bytes", "to_vec", "to_owned", "into", "clone") and v.a[2]):
                v = v.a[2][0]
            elif i == 1 and v.k == "VF" and v.a[1] == "Ok":
                v = v.a[0]
            else:
                break
        return v.k == "FLD" and str(v.a[1]) == str(i) and has(v.a[0], lambda u: param(u, f, self.body))


class PyExec(Base):
    opaque = ("ExecGraph::execute", "flush_logging")

    def __init__(self, prog, rep, body):
        super().__init__(prog, rep)
        self.body = body
        ex = [b for b in prog.by_path("execute", "execgraph", "fn") if b.df.npath.split("::")[-2:] == ["ExecGraph", "execute"]]
        if len(ex) != 1:
            raise AnchorError("ExecGraph::execute")
        self.names = list(ex[0].params)
        self.n = {}

    def init(self):
        return None

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), f[0], tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.keepfact(st, k))))

    def keepfact(self, st, k):
        return k.k == "DISCR" and param(k.a[0], "remote_provisioner_cmd", self.body)

    def own(self, v, f):
        return v.k == "FLD" and v.a[1] == f and param(v.a[0], "self", self.body)

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path.endswith("ExecGraph::execute"):
            if st.auto is not None:
                self.viol(I, st, "twice", "the graph is executed twice", ev.cx)
            for name, a in list(zip(self.names, ev.args))[1:]:
                v = I.canon(st, a)
                if name in ("target", "ratelimit_per_second"):
                    ok = param(v, name, self.body)
                elif name in ("num_parallel", "failures_allowed", "rerun_failures"):
                    ok = self.own(v, name)
                else:
                    vs = next((st.variants(k.a[0], OPT) for k in st.facts if k.k == "DISCR" and param(k.a[0], "remote_provisioner_cmd", self.body)), None)
                    if vs == frozenset(["None"]):
                        ok = v.k == "AGG" and v.a[2] == "None"
                    else:
                        s = I.canon(st, v.a[4][0]) if v.k == "AGG" and v.a[2] == "Some" else None
                        d = dict(zip(s.a[3], s.a[4])) if s is not None and s.k == "AGG" else {}
                        ok = vs == frozenset(["Some"]) and "cmd" in d and "info" in d and has(d["cmd"], lambda t: param(t, "remote_provisioner_cmd", self.body)) and param(I.canon(st, d["info"]), "remote_provisioner_info", self.body)
                if ok:
                    self.n[name] = self.n.get(name, 0) + 1
                else:
                    self.viol(I, st, "arg:" + name, "execute is given %s for %s" % (show(v)[:80], name), ev.cx)
            st.auto = ()
        elif ev.kind == "await" and st.auto == () or ev.kind == "ret" and ev.path and ev.path.endswith("ExecGraph::execute"):
            pass
        return True


class PyWrite(Base):
    opaque = ("LogFile::new", "LogFile::write", "LogFile::flush")

    def __init__(self, prog, rep, body):
        super().__init__(prog, rep)
        self.body = body
        self.n = 0

    def init(self):
        return (Each.ZERO, None, None)

    def part(self, st):
        return st.auto

    def mine(self, I, st):
        return lambda it: any(param(t, "value", self.body) for t in itsources(I, st, it))

    def on(self, I, st, ev):
        e, f, w = st.auto
        m = ev.path.split("::")[-1] if ev.path else None
        if ev.kind in ("item", "step", "iterend", "itemdone"):
            # a write that may have failed does not count
            if w is not None and ev.kind != "item" and st.variants(w, RES) != frozenset(["Ok"]):
                e = (e[0], 2, e[2], e[3])
            st.auto = (Each.on(I, st, ev, e, self.mine(I, st)), f, None)
        elif ev.kind == "ret" and m == "write" and "LogFile" in ev.path:
            v = I.canon(st, ev.args[1])
            if e[0] is None or v is not I.canon(st, e[0]) and peel(v) is not peel(e[0]):
                self.viol(I, st, "other-entry", "%s is written" % show(v)[:60], ev.cx)
            st.auto = (Each.use(e, v), None, ev.val)
            self.n += 1
        elif ev.kind == "ret" and m == "flush" and "LogFile" in ev.path:
            st.auto = (e, ev.val, w)
        return True


class Plain(Base):
    def __init__(self, prog, rep, opaque):
        super().__init__(prog, rep)
        self.opaque = opaque

    def init(self):
        return ()


class PyLoad(Base):
    opaque = ("LogFileSnapshotReader::open", "LogFileSnapshotReader::read", "LogFileSnapshotReader::read_current_and_outdated")
    WANT = {"current,outdated": ("read_current_and_outdated", None), "current": ("read_current_and_outdated", "0"), "outdated": ("read_current_and_outdated", "1"), "all": ("read", None)}

    def __init__(self, prog, rep, body):
        super().__init__(prog, rep)
        self.body = body
        self.n = {}

    def init(self):
        return ()

    def part(self, st):
        return tuple(sorted((show(k), f[0], tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.keepfact(st, k)))

    def keepfact(self, st, k):
        return has(k, lambda t: param(t, "mode", self.body))

    def mode(self, st):
        for k, f in st.facts.items():
            if param(k, "mode", self.body) and f[0] == "in" and len(f[1]) == 1:
                c = next(iter(f[1]))
                return c.a[0] if type(c) is V and c.k == "C" else c
            if k.k in ("OP", "CALL") and has(k, lambda t: param(t, "mode", self.body)) and st.ev(k) is True:
                c = next((t.a[0] for t in subterms(k) if t.k == "C" and type(t.a[0]) is str), None)
                if c is not None:
                    return c


def check(P, rep):
    # --- new
    body = P.fn("PyExecGraph::new")
    a = PyNew(P, rep, body)
    out = a.start(body)
    rep.take(a.I, a)
    for x in ("key:log", "key:newkeyfn", "key:default", "made", "num_parallel=-1", "num_parallel=6", "failures_allowed=0", "failures_allowed=9"):
        rep.floor("new:" + x, a.n.get(x, 0), 1)
    for st, v in out:
        if "Ok" in (st.variants(v, RES) or ("Ok",)) and st.auto[0] != 1:
            a.viol(a.I, st, "no-header", "the constructor returns Ok without a header having been written", a.I.rootcx(body, 0))
    rep.take(a.I, a)
    # --- add_task
    body = P.fn("PyExecGraph::add_task")
    a = PyAdd(P, rep, body)
    out = a.start(body)
    n = 0
    for st, v in out:
        vs = st.variants(v, RES) or frozenset(["Ok", "Err"])
        v = I_canon(a.I, st, v)
        if "Ok" in vs:
            if st.auto != 1 or not has(v, lambda t: t.k == "CALL" and t.a[0].endswith("ExecGraph::add_task")):
                a.viol(a.I, st, "result", "add_task returns %s" % show(v)[:80], a.I.rootcx(body, 0))
            else:
                n += 1
    rep.take(a.I, a)
    rep.floor("add_task: tasks passed on", a.n, 1)
    rep.floor("add_task: results", n, 1)
    # --- execute
    body = P.fn("PyExecGraph::execute")
    a = PyExec(P, rep, body)
    out = a.start(body)
    n = 0
    for st, v in out:
        vs = st.variants(v, RES) or frozenset(["Ok", "Err"])
        v = I_canon(a.I, st, v)
        r = next((t for t in subterms(v) if t.k == "CALL" and t.a[0].endswith("ExecGraph::execute")), None)
        if "Ok" in vs:
            good = r is not None and not any(t.k in ("OP", "PHI") for t in subterms(peelok(v)))
            x = peelok(v)
            good = good and x.k == "VF" and x.a[1] == "Ok" or good and x.k == "AGG" and all(a_.k == "FLD" and str(a_.a[1]) == f for f, a_ in zip(x.a[3], x.a[4]))
            if not good:
                a.viol(a.I, st, "result", "execute returns %s" % show(v)[:80], a.I.rootcx(body, 0))
            else:
                n += 1
        elif st.auto is None and has(v, lambda t: False):
            pass
    for st, v in out:
        # an error of the run is not turned into a success
        for k in st.facts:
            if k.k == "DISCR" and has(k.a[0], lambda t: t.k == "CALL" and t.a[0].endswith("ExecGraph::execute")) and st.variants(k.a[0], RES) == frozenset(["Err"]) and st.variants(v, RES) != frozenset(["Err"]):
                a.viol(a.I, st, "error-lost", "the run failed and execute returns Ok", a.I.rootcx(body, 0))
    rep.take(a.I, a)
    for x in a.names[1:]:
        rep.floor("execute: " + x, a.n.get(x, 0), 1)
    rep.floor("execute: results", n, 1)
    # --- write_logfile
    body = P.fn("pylib::write_logfile")
    a = PyWrite(P, rep, body)
    out = a.start(body)
    n = 0
    for st, v in out:
        if "Ok" not in (st.variants(v, RES) or ("Ok",)):
            continue
        e, f, w = st.auto
        if e[3] is not True:
            a.viol(a.I, st, "incomplete", "write_logfile returns Ok although not every entry was written once, in order", a.I.rootcx(body, 0))
        elif f is None or st.variants(f, RES) != frozenset(["Ok"]):
            a.viol(a.I, st, "unflushed", "write_logfile returns Ok although the log was not flushed after the last entry", a.I.rootcx(body, 0))
        else:
            n += 1
    rep.take(a.I, a)
    rep.floor("write_logfile: complete", n, 1)
    rep.floor("write_logfile: writes", a.n, 1)
    # --- load_logfile
    body = P.fn("pylib::load_logfile")
    a = PyLoad(P, rep, body)
    out = a.start(body)
    for st, v in out:
        vs = st.variants(v, RES) or frozenset(["Ok", "Err"])
        v = I_canon(a.I, st, v)
        if "Ok" not in vs:
            continue
        mode = a.mode(st)
        w = a.WANT.get(mode)
        r = next((t for t in subterms(v) if t.k == "CALL" and t.a[0].split("::")[-1] in ("read", "read_current_and_outdated")), None)
        p = next((t for t in subterms(v) if t.k == "CALL" and t.a[0].split("::")[-1] == "pythonize"), None)
        got = (None, None)
        if r is not None and p is not None:
            x = peel(I_canon(a.I, st, p.a[2][1]))
            got = (r.a[0].split("::")[-1], str(x.a[1]) if x.k == "FLD" else None if x.k == "VF" else "?")
            if not has(r, lambda t: param(t, "path", body)):
                got = ("another file", None)
        if w is None or got != w:
            a.viol(a.I, st, "mode:%s" % mode, "in mode %s load_logfile returns %s" % (mode, show(v)[:100]), a.I.rootcx(body, 0))
        else:
            a.n[mode] = a.n.get(mode, 0) + 1
    rep.take(a.I, a)
    for m in a.WANT:
        rep.floor("load_logfile: " + m, a.n.get(m, 0), 1)


def I_canon(I, st, v):
    return I.canon(st, v) if type(v) is V else v


def peelok(v):
    return peel(v.a[4][0]) if v.k == "AGG" and v.a[2] == "Ok" and v.a[4] else v
