"""C14: what is logged reaches the file, and a failing log is not passed over."""
from ledger import *
import scan
from frame import number, where
RULE = ("Service loop, every path: at each wait for the next thing to do a branch on a timer with an interval of at most a second is among the branches, and when it fires the log and the output shown to the user have both been flushed "
        "before the next wait. Every function that calls LogFile::write or LogFile::flush (service loop, drain, execute, the library's functions), every path: the result is known to be Ok before the next wait, before the call is made again and before the function returns, or the function fails or hands the "
        "result on to its caller, which is then bound in the same way. ExecGraph::execute: no Ok is returned while entries that it, the service loop or the drain wrote have not been flushed successfully.")
ASSUME = ["tokio's interval fires at each period", "select! takes every ready branch eventually (its order is random)", "LogFile::write puts the entry into the buffer of the file (C10)"]
OPQ = ("LogFile::write", "LogFile::flush", "flush_logging", "_rawlog", "fail_description", "display")


def last(t):
    return t.a[0].split("::")[-1]


def islog(path, *names):
    return path and path.split("::")[-1] in names and path.split("::")[-2:-1] == ["LogFile"]


class Pend(Base):
    # auto: (results not yet looked at, unflushed entries (execute), timer fired and not yet flushed: None or the set of what was)
    opaque = OPQ

    def __init__(self, prog, rep, body, extra=()):
        super().__init__(prog, rep)
        self.body = body
        self.opaque = OPQ + tuple(extra)
        self.n = {}
        self.selects = {}
        self.intervals = set()

    def init(self):
        return ((), False, None)

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def okay(self, st, v):
        return st.variants(v, RES) == frozenset(["Ok"])

    def part(self, st):
        # a result that was found to be Ok is done with (what is known about it is lost at the head of a loop)
        for x, m in st.auto[0]:
            if self.okay(st, x):
                self.discharge("looked-at:" + m, "Ok before anything else is done")
        st.auto = (tuple((x, m) for x, m in st.auto[0] if not self.okay(st, x)),) + st.auto[1:]
        p, d, t = st.auto
        return (tuple(st.variants(x, RES) for x, _ in p), d, t)

    def keepfact(self, st, k):
        return k.k == "DISCR" and any(k.a[0] is x for x, _ in st.auto[0])

    def settle(self, I, st, cx, what, only=None):
        p, d, t = st.auto
        for x, m in p:
            if only is not None and x is not only:
                continue
            if not self.okay(st, x):
                self.viol(I, st, "ignored:%s:%s" % (self.body.df.npath.split("::")[-1], m), "the result of %s is not known to be Ok when %s" % (m, what), cx)
            else:
                self.discharge("looked-at:" + m, "Ok before anything else is done")
        st.auto = (tuple(y for y in p if only is not None and y[0] is not only), d, t)

    def on(self, I, st, ev):
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        if k == "yield":
            self.settle(I, st, ev.cx, "the function waits")
            if ev.path == "select":
                self.fired(I, st, ev.cx, "the loop waits again")
                self.selects.setdefault(ev.cx.site, [ev.cx, False])
                self.cur = ev.cx.site
            elif ev.path == "await" and self.tick(I, st, ev.args[0]):
                if getattr(self, "cur", None) in self.selects:
                    self.selects[self.cur][1] = True
        elif k == "await" and self.tick(I, st, ev.args[0]):
            self.see("timer")
            st.auto = st.auto[:2] + ((),)
        elif k == "ret" and islog(ev.path, "write", "flush"):
            self.settle(I, st, ev.cx, "it is called again", ev.val)
            p, d, t = st.auto
            st.kill(ev.val)
            self.see("calls")
            st.auto = (p + ((ev.val, "LogFile::" + m),), True if m == "write" else False, t if t is None or m == "write" else tuple(sorted(set(t) | {"log"})))
        elif k == "ret" and m == "flush_logging":
            self.settle(I, st, ev.cx, "it is called again", ev.val)
            p, d, t = st.auto
            st.kill(ev.val)
            self.see("shown")
            st.auto = (p + ((ev.val, "flush_logging"),), d, t if t is None else tuple(sorted(set(t) | {"output"})))
        elif (k == "await" or k == "ret") and m in ("background_serve", "drain", "get_subgraph", "catch_unwind") and self.outer:
            p, d, t = st.auto
            st.auto = (p, True, t)
        elif k == "await" and self.outer and has(ev.val, lambda t: t.k == "CALL" and last(t) in ("background_serve", "catch_unwind")):
            p, d, t = st.auto
            st.auto = (p, True, t)
        return True

    outer = False

    def tick(self, I, st, v):
        v = I.canon(st, v)
        if v.k != "CALL" or last(v) != "tick" or not v.a[2]:
            return False
        x = peel(I.canon(st, v.a[2][0]))
        n = 3
        while x.k == "REF" and n:
            x = peel(st.load(x))
            n -= 1
        if x.k != "CALL" or last(x) not in ("interval", "interval_at") or not x.a[2]:
            return False
        s = number(I.canon(st, x.a[2][-1]))
        self.intervals.add(s)
        return s is not None and 0 < s <= 10**9

    def fired(self, I, st, cx, what):
        t = st.auto[2]
        if t is not None:
            for x in ("log", "output"):
                if x not in t:
                    self.viol(I, st, "timer:" + x, "the timer has fired, and %s without the %s having been flushed" % (what, x), cx)
                else:
                    self.discharge("timer:" + x, "flushed when the timer fires")
        st.auto = st.auto[:2] + (None,)

    def done(self, out):
        I = self.I
        cx = I.rootcx(self.body, 0)
        handed = False
        for st, v in out:
            v = I.canon(st, v)
            vs = st.variants(v, RES)
            if vs is not None and vs == frozenset(["Err"]):
                continue
            self.see("exits")
            left = [(x, m) for x, m in st.auto[0] if not self.okay(st, x)]
            if [1 for x, m in left if has(v, lambda t: t is x)]:
                handed = True
                left = [(x, m) for x, m in left if not has(v, lambda t: t is x)]
            st.auto = (tuple(left),) + st.auto[1:]
            self.settle(I, st, cx, "the function returns")
            self.atexit(st, v, cx)
        return handed

    def atexit(self, st, v, cx):
        pass


class Exec(Pend):
    outer = True

    def atexit(self, st, v, cx):
        if st.auto[1]:
            self.viol(self.I, st, "unflushed", "execute returns Ok although entries that were written have not been flushed", cx)
        else:
            self.discharge("flushed", "before Ok is returned")


def entry(P, b):
    """the function a closure or coroutine belongs to"""
    key = b.key
    while "::{closure#" in key:
        key = key[:key.rindex("::{closure#")]
    return P.bodies.get(key, b)


def check(P, rep):
    R = Roles(P)
    ex = P.fn("ExecGraph::execute", "execgraph")
    done = set()

    def run(b, cls=Pend, extra=(), **kw):
        g = cls(P, rep, b, extra)
        out = g.start(b, **kw)
        h = g.done(out)
        rep.take(g.I, g)
        done.update(b_ for b_ in g.I.seen_bodies)
        for k, x in g.n.items():
            rep.count("%s: %s" % (b.df.npath.split("::")[-1], k), x)
        return g, h

    g, _ = run(R.serve, CAP=CAP, HEADCAP=HEADCAP)
    sel = list(g.selects.values())
    rep.floor("waits of the service loop", len(sel), 1)
    rep.floor("log writes in the service loop", g.n.get("calls", 0), 3)
    for cx, t in sel:
        rep.need(t, "timer", "the service loop's wait has a branch on a timer of at most a second", where(cx))
    if g.n.get("timer", 0):
        rep.ob("timer-fires", "seen")
    run(R.drain)
    g, _ = run(ex, Exec, ("new_ready_tracker", "run_local_process_loop", "server::router", "reap_pings_forever", "run_admin_service_forever", "background_serve", "ReadyTrackerServer::drain"))
    rep.floor("Ok exits of execute", g.n.get("exits", 0), 2)
    # the other functions that write or flush the log, and those to whom they hand the result
    work = [b for b, span, path, t in scan.calls(P, lambda p: islog(p, "write", "flush"), "execgraph")]
    n = len(work)
    tried = set()
    while work:
        b = work.pop()
        b = entry(P, b)
        if b.key in tried or b.key in done or islog(b.df.npath, "write", "flush"):
            continue
        tried.add(b.key)
        g, h = run(b)
        if h:
            work += [c for c, span, path, t in scan.calls(P, lambda p: p == b.df.npath, "execgraph")]
    rep.floor("calls that write or flush the log", n, 10)
