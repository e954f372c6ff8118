"""C05: a local runner reports one start and one finish for every task it takes."""
from servicer import *
RULE = ("Local runner loop, every path: between the request that handed out a task and the next request or the end of the loop exactly one "
        "start report and then one finish report are delivered, both for the task handed out; the only way to end without the finish "
        "report is a hard cancellation, after the start report; no result of a fallible call is unwrapped in between; the process that is "
        "spawned, at most once per task, gets its program and all its arguments from that task's command line. The tracker's report functions send "
        "exactly one event built from their arguments on the completion channel.")
ASSUME = ["the preamble does not panic (it is user code; a capsule is called through extern \"C\")", "tokio::process::Command spawns the process it was told to"]


class Loop(Base):
    # auto: (value of the last request | None, starts, finishes, cancellation results, program ok, args ok, spawned)
    START = (None, 0, 0, frozenset(), False, False, 0)

    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.R = R
        self.recv = R.recv.df.npath
        self.sst = named(prog, "send_started")
        self.sfi = named(prog, "send_finished")
        self.opaque = tuple("::".join(x.split("::")[-2:]) for x in (self.recv, self.sst, self.sfi)) + ("CancellationToken::soft_cancelled", "CancellationToken::hard_cancelled", "Cmd::call_preamble")
        self.cmdline = fieldof(prog, adt(prog, "Cmd"), lambda t: t.k == "adt" and t.name == "Vec" and t.a and t.a[0].name in ("OsString", "String"), "command line of a task")
        self.tok = adt(prog, "CancellationState")
        self.n = {}

    def init(self):
        return self.START

    def part(self, st):
        return (st.auto, tuple(sorted((show(t), tuple(sorted(st.variants(t, self.tok["def"].npath) or ()))) for t in st.auto[3])))

    def keepfact(self, st, k):
        a = st.auto
        return a[0] is not None and k.k == "DISCR" and (k.a[0] is a[0] or k.a[0] in a[3])

    def count(self, n):
        self.n[n] = self.n.get(n, 0) + 1

    def task(self, st):
        """the task handed out, or None when there is none"""
        r = st.auto[0]
        if r is None:
            return None
        vs = st.variants(r, RES)
        if vs is not None and "Ok" not in vs:
            return None
        return proj(proj(r, ("v", "Ok")), ("f", "0", 0))

    def istask(self, I, st, v):
        return I.canon(st, v) is self.task(st)

    def over(self, I, st, cx, last):
        """the runner asks for another task or ends"""
        t = self.task(st)
        a = st.auto
        if t is None:
            return
        if a[1] != 1 and not (a[1] == 0 and a[2] == 1 and False):
            self.viol(I, st, "not-started" if a[1] == 0 else "started-twice", "the runner goes on to the next task or ends after %d start reports for the task it took" % a[1], cx)
        if a[2] == 0:
            hard = any(st.variants(c, self.tok["def"].npath) == frozenset(["HardCancelled"]) for c in a[3])
            if last and hard:
                self.discharge("hard-cancelled", "a runner that was cancelled outright leaves without a finish report")
                self.count("ends by hard cancellation")
                return
            self.viol(I, st, "not-finished", "the runner %s without a finish report for the task it took" % ("ends" if last else "asks for another task"), cx)
        elif a[2] == 1:
            self.discharge("reported:" + cx.body.df.npath, "one start and one finish report per task")
            self.count("tasks reported")

    def on(self, I, st, ev):
        k = ev.kind
        a = st.auto
        if k == "await":
            c = ev.args[0] if ev.args else None
            if c is None or c.k != "CALL":
                return True
            p = c.a[0]
            if p == self.recv:
                self.over(I, st, ev.cx, False)
                st.auto = (ev.val,) + self.START[1:]
                self.count("requests")
                return True
            if p == self.sst:
                if not self.istask(I, st, c.a[2][1]):
                    self.viol(I, st, "started-other", "the start report is for %s, not for the task that was handed out" % show(I.canon(st, c.a[2][1]))[-90:], ev.cx)
                if a[1] >= 1:
                    self.viol(I, st, "started-twice", "a second start report for the same task", ev.cx)
                if a[2] >= 1:
                    self.viol(I, st, "started-after-finished", "the start report follows the finish report", ev.cx)
                st.auto = (a[0], min(2, a[1] + 1)) + a[2:]
                self.count("start reports")
            elif p == self.sfi:
                e = I.canon(st, c.a[2][1])
                if not self.istask(I, st, proj(e, ("f", self.R.e_id, None))):
                    self.viol(I, st, "finished-other", "the finish report is for %s, not for the task that was handed out" % show(e)[-90:], ev.cx)
                if a[1] == 0:
                    self.viol(I, st, "finished-before-started", "the finish report comes before the start report", ev.cx)
                if a[2] >= 1:
                    self.viol(I, st, "finished-twice", "a second finish report for the same task", ev.cx)
                st.auto = a[:2] + (min(2, a[2] + 1),) + a[3:]
                self.count("finish reports")
            elif ev.val is not None and p.endswith("_cancelled"):
                st.auto = a[:3] + (a[3] | {ev.val},) + a[4:]
            return True
        if k == "call" and ev.path and ev.path.startswith(("tokio::process::Command::", "std::process::Command::")):
            m = ev.path.split("::")[-1]
            t = self.task(st)
            if m == "new":
                good = t is not None and self.cmd(I, st, ev.args[0], t) and not self.skips(ev.args[0], 0)
                st.auto = a[:4] + (good,) + a[5:]
            elif m in ("args", "arg"):
                st.auto = a[:5] + (m == "args" and t is not None and self.cmd(I, st, ev.args[1], t) and not self.skips(I.canon(st, ev.args[1]), 1),) + a[6:]
            elif m in ("spawn", "status", "output"):
                if t is None:
                    self.viol(I, st, "spawn-no-task", "a process is started although no task was handed out", ev.cx)
                elif not a[4] or not a[5]:
                    self.viol(I, st, "other-command", "the process that is started gets %s from something else than the task's own command line" % ("its program" if not a[4] else "its arguments"), ev.cx)
                elif a[6]:
                    self.viol(I, st, "spawned-twice", "two processes are started for one task", ev.cx)
                else:
                    self.discharge("spawn:" + ev.cx.body.df.npath, "program and arguments from the task's command line")
                    self.count("processes started")
                st.auto = a[:6] + (1,)
            return True
        if k == "panic" and self.task(st) is not None and a[2] == 0 and ev.args:
            v = ev.args[0]
            b = I.canon(st, v)
            if b.k == "AGG" and b.a[1] == RES or b.k == "CALL" and st.variants(b, RES) == frozenset(["Err"]):
                self.viol(I, st, "panics", "a failure (%s) makes the runner panic while it has a task that is not reported finished" % show(b)[:90], ev.cx)
        return True

    def cmd(self, I, st, v, t):
        """v comes from the command line of task t"""
        v = I.canon(st, v)
        return has(v, lambda x: self.R.fieldname(x) == self.cmdline and has(x, lambda y: y is t))

    def skips(self, v, want):
        """a constant index or range in v that is not the expected one"""
        for x in subterms(v):
            if x.k == "CALL" and x.a[0].split("::")[-1] == "index" and len(x.a[2]) == 2 and not has(x.a[2][1], lambda t: t.k == "CALL"):
                i = x.a[2][1]
                if i.k == "C" and i.a[1] == "i":
                    return want != 0 or i.a[0] != 0
                if i.k == "AGG" and i.a[1] and i.a[1].split("::")[-1].startswith("Range"):
                    if want == 0:
                        return True
                    s = proj(i, ("f", "start", 0))
                    if i.a[1].endswith(("RangeTo", "RangeToInclusive", "::Range", "RangeInclusive")):
                        return True
                    return s.k == "C" and s.a[0] != 1
            if x.k == "IDX" and type(x.a[1]) is V and x.a[1].k == "C":
                return x.a[1].a[0] != want
        return False

    def finish(self, I, out, body):
        for st, v in out:
            self.over(I, st, I.rootcx(body, 0), True)
        self.rep.take(I, self)


class Send(Base):
    """the tracker's report functions"""
    # auto: number of events sent (0,1,2)
    def __init__(self, prog, rep, R, what):
        super().__init__(prog, rep)
        self.R = R
        self.what = what
        self.n = 0

    def init(self):
        return 0

    def part(self, st):
        return st.auto

    def on(self, I, st, ev):
        if ev.kind == "await" and ev.args and ev.args[0].k == "CALL" and ev.args[0].a[0].startswith("async_channel::Sender::send"):
            c = ev.args[0]
            e = I.canon(st, c.a[2][1])
            st.auto = min(2, st.auto + 1)
            self.n += 1
            bad = self.wrong(I, st, e)
            if bad:
                self.viol(I, st, "event-" + self.what, "%s: %s" % (bad, show(e)[:160]), ev.cx)
            else:
                self.discharge("event-" + self.what, "the event carries the caller's arguments")
        return True

    def wrong(self, I, st, e):
        R = self.R
        v = R.v_start if self.what == "started" else R.v_fin
        if not (e.k == "AGG" and e.a[2] == v):
            return "the event sent is not the %s event" % v
        p = e.a[4][0]
        if self.what == "finished":
            return None if p.k == "SYM" and p.a[0].startswith("param:") or p.k == "DEREF" else "the event sent is not the one given"
        used = []
        for f in fields(R.SE):
            x = I.canon(st, proj(p, ("f", f["name"], None)))
            ps = {t for t in subterms(x) if t.k == "SYM" and t.a[0].startswith("param:")}
            if len(ps) != 1:
                return "field %s is not one of the arguments" % f["name"]
            used += list(ps)
        return None if len(set(used)) == len(used) else "two fields are filled from one argument"

    def finish(self, I, out, body):
        for st, v in out:
            if st.auto != 1:
                self.viol(I, st, "event-count-" + self.what, "%d events are sent for one report" % st.auto, I.rootcx(body, 0))
        self.rep.take(I, self)


def named(P, name):
    r = [b for b in P.by_path(name, "execgraph", "fn") if "ReadyTrackerClient" in b.df.npath]
    if len(r) != 1:
        raise AnchorError("ReadyTrackerClient::" + name)
    return r[0].df.npath


def check(P, rep):
    import absint
    R = Roles(P)
    root = P.fn("run_local_process_loop", "execgraph")
    l = Loop(P, rep, R)
    out = l.start(root, CAP=1, HEADCAP=1)
    l.finish(l.I, out, root)
    for n in ("requests", "start reports", "finish reports", "tasks reported", "processes started", "ends by hard cancellation"):
        rep.floor(n, l.n.get(n, 0), 1)
    for what, name in (("started", "send_started"), ("finished", "send_finished")):
        b = [x for x in P.by_path(name, "execgraph", "fn") if "ReadyTrackerClient" in x.df.npath][0]
        s = Send(P, rep, R, what)
        out = s.start(b)
        s.finish(s.I, out, b)
        rep.floor("events " + what, s.n, 1)
