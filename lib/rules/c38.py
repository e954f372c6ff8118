"""C38: what is shown to the user is shown whole, once."""
from ledger import *
import scan
RULE = ("The writer behind the console and log.txt, every path: a write that reports success reports the whole length and has given the whole buffer to the console once and, if there is one, to the file once, by write_all; "
        "a flush that reports success has flushed both; a new file is opened for appending, created if it is missing, and never truncated; without a path the file stays. No other place in the two crates writes with a call that may "
        "take only a part and drops the count. Service loop, every path: each finished task has exactly one status line, naming its own command, after a failure with the description of its own status, its key and its run count, and its own stdout and stderr are "
        "each shown exactly once unless known to be empty; after a soft shutdown a failed task may be passed over.")
ASSUME = ["write_all writes all or fails; dropping a BufWriter flushes it", "the literal text between the values that are shown is not looked at"]
PARTIAL = ("std::io::Write::write", "tokio::io::AsyncWriteExt::write", "tokio::io::AsyncWriteExt::write_buf", "std::io::Write::write_vectored", "std::os::fd::write", "nix::unistd::write", "libc::write")


def last(t):
    return t.a[0].split("::")[-1]


# ------------------------------------------------------------------ the sink
class Sink(Base):
    # auto: sinks given the buffer / flushed, in order (at most twice each)
    OPQ = ()

    def __init__(self, P, rep, what, file, console):
        super().__init__(P, rep)
        self.what, self.file, self.console = what, file, console
        self.hits = 0

    def init(self):
        return ()

    def which(self, I, st, v):
        """console / file / None for the receiver of a write"""
        x = I.canon(st, v)
        for y in subterms(x):
            if y.k == "FLD" and has(y.a[0], lambda t: t.k == "CALL" and last(t) in ("lock", "write", "get_mut", "borrow_mut")):
                if str(y.a[1]) in self.console:
                    return "console"
                if str(y.a[1]) in self.file:
                    return "file"
        return None

    def present(self, st):
        """is there a file"""
        for k in st.facts:
            if k.k == "DISCR" and k.a[1] == OPT:
                vs = st.variants(k.a[0], OPT)
                if vs is not None and len(vs) == 1:
                    return "Some" in vs
        return None

    def part(self, st):
        return (st.auto, self.present(st))

    def keepfact(self, st, k):
        return k.k == "DISCR"

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.args:
            m = ev.path.split("::")[-1]
            if m in ("write", "write_all", "write_vectored", "flush") and "io::Write" in ev.path or m in ("write", "write_all", "flush") and type(ev.args[0]) is V and self.which(I, st, ev.args[0]):
                w = self.which(I, st, ev.args[0])
                if w is None:
                    return True
                if m == ("write_all" if self.what == "write" else "flush"):
                    if self.what == "write" and not self.buf(I, st, ev.args[1]):
                        self.viol(I, st, "sink-other:" + w, "the %s is given %s, not what was to be written" % (w, show(I.canon(st, ev.args[1]))[:80]), ev.cx)
                    st.auto = st.auto + (w,) if st.auto.count(w) < 2 else st.auto
                    self.hits += 1
                elif self.what == "write" and m in ("write", "write_vectored"):
                    self.viol(I, st, "sink-partial:" + w, "the %s is written to with a call that may take only a part of the buffer" % w, ev.cx)
        return True

    def buf(self, I, st, v):
        v = peel(I.canon(st, v))
        return v.k == "SYM" and v.a[0].startswith("param:")

    def done(self, I, out, body):
        cx = I.rootcx(body, 0)
        n = 0
        for st, v in out:
            v = I.canon(st, v)
            vs = st.variants(v, RES)
            if vs is not None and "Ok" not in vs:
                continue
            n += 1
            f = self.present(st)
            want = {"console": 1, "file": 1 if f is not False else 0}
            for w in ("console", "file"):
                k = st.auto.count(w)
                # a flush may be repeated
                if k < want[w] or k > want[w] and self.what == "write":
                    self.viol(I, st, "sink-%s:%s" % (self.what, w), "%s is reported to have succeeded on a path on which the %s %s %d times" % (
                        "a write" if self.what == "write" else "a flush", w, "got the buffer" if self.what == "write" else "was flushed", k), cx)
                else:
                    self.discharge("sink-%s:%s" % (self.what, w), "on every path that reports success")
            if self.what == "write":
                n_ = proj(proj(v, ("v", "Ok")), ("f", "0", 0))
                n_ = peel(I.canon(st, n_))
                c = n_.a[1] if n_.k == "OP" and n_.a[0] == "len" else n_.a[2][0] if n_.k == "CALL" and last(n_) == "len" else None
                if c is None or not self.buf(I, st, c):
                    self.viol(I, st, "sink-count", "a write reports %s as the number of bytes taken" % show(n_)[:80], cx)
                else:
                    self.discharge("sink-count", "the whole length")
        self.rep.floor("successful exits of " + self.what, n, 1)
        self.rep.take(I, self)


class Paths(Base):
    """opening the file"""
    def __init__(self, P, rep):
        super().__init__(P, rep)
        self.opened = 0

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.path.startswith("std::fs::"):
            m = ev.path.split("::")[-1]
            if m in ("append", "create", "truncate", "create_new") and "OpenOptions" in ev.path:
                pass
            elif m == "open" and "OpenOptions" in ev.path:
                o = I.canon(st, ev.args[0])
                s = {}
                for t in subterms(o):
                    if t.k == "CALL" and len(t.a[2]) == 2 and last(t) in ("append", "create", "truncate", "create_new", "write", "read"):
                        s.setdefault(last(t), t.a[2][1])
                on = {k for k, x in s.items() if st.ev(x) is not False}
                self.opened += 1
                if "append" not in on or not on & {"create"} or on & {"truncate", "create_new"}:
                    self.viol(I, st, "log-open", "log.txt is opened with %s" % (", ".join(sorted(on)) or "no options"), ev.cx)
                else:
                    self.discharge("log-open:" + ev.cx.body.df.npath, "append and create, no truncate")
            elif m in ("create", "write", "rename", "remove_file", "create_new", "set_len"):
                self.viol(I, st, "log-open", "log.txt is opened or changed with %s" % m, ev.cx)
        return True


# ------------------------------------------------------------------ the service loop
class Print(Ledger):
    WANT = dict(Ledger.WANT, **{"print": ()})

    def part(self, st):
        if self.selfroot is None or st.auto[0] is None:
            return (self.soft(st),) if self.selfroot is not None else None
        kind, x = self.kind(st)
        if kind != "F":
            return (kind, self.soft(st))
        v = st.variants(proj(x, ("f", self.R.e_status, None)), self.R.xpath)
        return (kind, self.soft(st), self.R.success(st, x), v is not None and "Code" in v, self.maybe(st, x, "stdout"), self.maybe(st, x, "stderr"))

    def keepfact(self, st, k):
        if st.auto[0] is None:
            return False
        if k.k == "DISCR":
            return not (k.a[1] == "std::result::Result" and k.a[0] is not st.auto[0])
        return has(k, lambda t: t.k in ("FLD", "VF") and t.a[-1] in ("stdout", "stderr") or t.k == "FLD" and t.a[1] in ("stdout", "stderr"))

    def maybe(self, st, e, f):
        """the task may have written something"""
        mine = lambda t: t.k in ("CALL", "OP") and any(type(x) is V and self.field(st, x, e, f) for x in (t.a[2] if t.k == "CALL" else t.a[1:]))
        return any(possible(st, [(lambda t: t.k == "CALL" and last(t) == "is_empty" and mine(t), False), (lambda t: (t.k == "CALL" and last(t) == "len" or t.k == "OP" and t.a[0] == "len") and mine(t), n)]) for n in (1, 2, 7, 5000, 1 << 24))

    def field(self, st, x, e, f):
        x = peel(x)
        if x.k == "REF":
            x = peel(st.load(x))
        while x.k == "CALL" and last(x) in ("as_str", "deref", "as_ref", "clone", "as_bytes", "to_owned", "borrow") and x.a[2]:
            x = peel(x.a[2][0])
        return x is proj(e, ("f", f, None))

    def on(self, I, st, ev):
        if ev.kind == "write" and ev.args[1]:
            names = [x[1] for x in ev.args[1] if x[0] == "f"]
            if names and names[-1] == self.R.shutdown[0] and self.onserver(*ev.args) and not [f for f in st.auto[3] if type(f) is tuple and f[0] == "was"]:
                vs = st.variants(ev.extra, self.R.shutdown[1])
                self.flag(st, ("was", None if vs is None or len(vs) != 1 else "SoftShutdown" in vs))
        return super().on(I, st, ev)

    def write(self, I, st, ev):
        return True

    def endqueue(self, I, st, cx, N):
        return

    def called(self, I, st, ev):
        m = ev.path.split("::")[-1]
        if m == "_rawlog":
            self.shown(I, st, ev)
        return True

    def args(self, v):
        """the values a fmt::Arguments shows"""
        for t in subterms(v):
            if t.k == "CALL" and last(t).startswith("new_") and len(t.a[2]) == 1:
                yield last(t), t.a[2][0]

    def shown(self, I, st, ev):
        k, e = self.kind(st)
        if k != "F":
            return
        vals = [I.canon(st, x) for _, x in self.args(I.canon(st, ev.args[0]))]
        T = self.task(st)
        n = 0
        for f in ("stdout", "stderr"):
            if any(self.field(st, x, e, f) for x in vals):
                n += 1
                if self.inc(st, f) > 1:
                    self.viol(I, st, "output-twice:" + f, "the %s of a task is shown twice" % f, ev.cx)
                self.see(f)
        cmd = lambda x: x.k == "CALL" and last(x) == "display" and self.cmdis(x.a[2][0], T)
        if any(cmd(peel(x)) for x in vals):
            s = self.R.success(st, e)
            if self.inc(st, "line") > 1:
                self.viol(I, st, "status-twice", "two status lines are shown for one task", ev.cx)
            self.see("status line")
            desc = [peel(x) for x in vals if has(x, lambda t: t.k == "CALL" and last(t) == "fail_description")]
            if s is not False and desc:
                self.viol(I, st, "status-wrong", "a task that may have succeeded is shown as failed", ev.cx)
            if s is not True:
                d = [t for x in desc for t in subterms(x) if t.k == "CALL" and last(t) == "fail_description"]
                if len(d) != 1 or self.load(st, d[0].a[2][0]) is not proj(e, ("f", self.R.e_status, None)):
                    self.viol(I, st, "status-wrong", "the line of a task that may have failed does not have the description of its status", ev.cx)
                for f in ("key", "runcount"):
                    if not any(self.oftask(I, st, x, f, T) for x in vals):
                        self.viol(I, st, "status-" + f, "the line of a task that may have failed does not have its %s" % f, ev.cx)
        elif not n and any(has(x, lambda t: t.k == "CALL" and last(t) in ("display", "fail_description")) for x in vals):
            self.viol(I, st, "status-other", "a status line is shown for something that is not the finished task", ev.cx)

    def load(self, st, x):
        return peel(st.load(x)) if x.k == "REF" else peel(x)

    def cmdis(self, x, T):
        x = peel(x)
        return x.k == "CALL" and x.a[0] == "index" and self.R.isg(x.a[2][0]) and T is not None and peel(x.a[2][1]) is T

    def boundary(self, I, st, cx, what):
        kind, x = self.kind(st)
        if kind != "F":
            return
        was = [f[1] for f in st.auto[3] if type(f) is tuple and f[0] == "was"]
        soft = was[0] if was else self.soft(st)
        s = self.R.success(st, x)
        if self.cnt(st, "line") == 0 and (s is not False or soft is not True):
            self.viol(I, st, "status-missing", "a task was reported finished, and %s without its status line having been shown" % what, cx)
        else:
            self.discharge("status-missing", "one status line")
        for f in ("stdout", "stderr"):
            if self.cnt(st, f) == 0 and soft is not True and self.maybe(st, x, f):
                self.viol(I, st, "output-missing:" + f, "a task was reported finished, and %s without its %s, which may not be empty, having been shown" % (what, f), cx)
            else:
                self.discharge("output-missing:" + f, "shown unless empty")
        self.see("finished handled")

    def exit(self, I, st, cx):
        self.see("normal exit")


def service(P, rep, R):
    b = R.serve
    g = Print(P, rep, R, "serve", "print")
    g.selfroot = mk("SYM", "param:self", (b.key, 0))
    for s, v in g.start(b, CAP=CAP, HEADCAP=HEADCAP):
        if v.k == "AGG" and v.a[2] == "Err":
            continue
        g.boundary(g.I, s, g.I.rootcx(b, 0), "the service returns")
        g.exit(g.I, s, g.I.rootcx(b, 0))
    rep.take(g.I, g)
    for k, x in g.seen.items():
        rep.count("service: " + k, x)
    for k in ("finished handled", "stdout", "stderr", "status line"):
        rep.floor(k, g.seen.get(k, 0), 1)


def has_ty(t, name):
    return name in str(getattr(t, "s", t))


def check(P, rep):
    R = Roles(P)
    # the sink: the type that holds the console stream
    w = [b for b in P.bodies.values() if b.key.startswith("execgraph::") and b.df.path.endswith("std::io::Write>::write")]
    if not w:
        raise AnchorError("an implementation of io::Write in the crate")
    sinks = []
    for b in w:
        head = b.df.path[:-len("::write")]
        fl = [x for x in P.bodies.values() if x.df.path == head + "::flush"]
        sinks.append((b, fl))
    fnames, cnames = {"0"}, {"1"}
    for a in local_adts(P):
        for v in range(len(a["variants"])):
            for f in fields(a, v):
                if has_ty(f["ty"], "StandardStream") and not has_ty(f["ty"], "BufWriter"):
                    cnames.add(f["name"])
                elif has_ty(f["ty"], "BufWriter") and not has_ty(f["ty"], "StandardStream"):
                    fnames.add(f["name"])
    for b, fl in sinks:
        s = Sink(P, rep, "write", fnames, cnames)
        out = s.start(b)
        s.done(s.I, out, b)
        for f in fl:
            s = Sink(P, rep, "flush", fnames, cnames)
            out = s.start(f)
            s.done(s.I, out, f)
        if not fl:
            raise AnchorError("the flush of " + b.df.path)
    # the file
    n = 0
    done_ = set()
    mods = {b.key.rsplit("::", 2)[0] for b, _ in sinks}
    for b, span, path, t in scan.calls(P, lambda p: p and p.startswith("std::fs::") and p.split("::")[-1] in ("open", "create", "create_new", "write", "rename", "remove_file", "set_len", "copy"), "execgraph"):
        if not any(b.key.startswith(m.split("::{")[0] + "::") for m in mods) or b.key in done_:
            continue
        done_.add(b.key)
        g = Paths(P, rep)
        g.start(b)
        rep.take(g.I, g)
        n += g.opened
    rep.floor("places that open log.txt", n, 1)
    # partial writes elsewhere
    own = {b.key for b, _ in sinks}
    for cr in ("execgraph", "execgraph_remote"):
        for b, span, path, t in scan.calls(P, lambda p: p in PARTIAL, cr):
            if b.key in own:
                continue
            rep.viol("partial:" + b.df.npath, "%s may write only a part of what it is given" % path, "%s:%d (in %s)" % (span[0], span[1], b.df.path))
    rep.ob("partial", "no other call that may write only a part")
    service(P, rep, R)
