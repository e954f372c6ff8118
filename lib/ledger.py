"""The servicer's bookkeeping: an automaton over the service loop (and over drain) that counts, per event taken from the
completion channel, every log entry, counter change and map change made before the next event."""
from servicer import *

CAP, HEADCAP = 1, 1
# what is counted: the log entries and the running map; the counters; the fizzles and shutdown
MODES = {"print": ("line", "stdout", "stderr"), "avg": ("avg",), "log": ("start", "fin", "ins", "rem", "rest"), "count": ("nri", "infl", "order", "fail", "post"), "stop": ("fizz", "cancel")}
OPS_ADD = ("Add", "SatAdd", "WrapAdd", "wadd")
OPS_SUB = ("Sub", "SatSub", "WrapSub", "wsub")


class Names:
    """fields that only the source's own names tell apart"""
    def __init__(self, prog, R):
        S = R.S
        isn = lambda t, n: t.k == "adt" and t.name == n
        self.S = S["def"].npath
        pub = {f["name"]: f["ty"] for f in fields(S)}
        for n in ("n_failed", "finished_order", "n_fizzled", "fizzles_allowed", "n_ready_or_inflight", "queuestate"):
            if n not in pub:
                raise AnchorError("field %s of ReadyTrackerServer" % n)
        if len(R.inflight) != 1:
            raise AnchorError("the map of running tasks of ReadyTrackerServer")
        self.inflight = R.inflight[0]
        self.entry = adt(prog, "LogEntry")["def"].npath


class Ledger(Base):
    opaque = ("LogFile::write", "LogFile::flush", "Cmd::call_preamble", "Cmd::call_postamble", "flush_logging", "CancellationToken::cancel", "Cmd::display", "AsyncFlag::wait", "AsyncFlag::unset", "AsyncFlag::set", "AsyncCounter::incr", "CancellationToken::hard_cancelled", "RingbufferForDurationAverages::push", "checked_sub", "_rawlog", "fail_description")

    # auto: (current event | None, counts, outcome of removing the task from the running map, "soft" pending)
    def __init__(self, prog, rep, R, root="serve", mode="log"):
        super().__init__(prog, rep)
        self.R = R
        self.N = Names(prog, R)
        self.root = root
        self.seen = {}
        self.mode = mode
        self.track = MODES[mode]

    def init(self):
        return (None, (), None, frozenset())

    # ------------------------------------------------------------ small things
    def see(self, k):
        self.seen[k] = self.seen.get(k, 0) + 1

    def inc(self, st, k):
        cur, ct, rem, fl = st.auto
        if k not in self.track:
            return 1
        d = dict(ct)
        d[k] = min(2, d.get(k, 0) + 1)
        st.auto = (cur, tuple(sorted(d.items())), rem, fl)
        return d[k]

    def flag(self, st, f):
        st.auto = st.auto[:3] + (st.auto[3] | {f},)

    def cnt(self, st, k):
        return dict(st.auto[1]).get(k, 0)

    def part(self, st):
        """what the obligations of the mode depend on, each known / unknown: one joined state per combination"""
        if self.selfroot is None:
            return None
        if st.auto[0] is None:
            return (self.soft(st), self.closed(st)) if self.mode == "stop" else None
        kind, x = self.kind(st)
        if kind != "F":
            return kind
        v = st.variants(proj(x, ("f", self.R.e_status, None)), self.R.xpath)
        s = (self.R.success(st, x), v is not None and "Code" in v)
        if self.mode == "log":
            if self.cnt(st, "fin"):
                return (kind, self.absent(None, st))
            return (kind, v, self.absent(None, st))
        if self.mode == "count":
            return (kind, s)
        run = None if "long" in st.auto[3] else (self.elapsed_lt(None, st), self.notrunning(st))
        return (kind, s, self.soft(st), self.closed(st), run, self.fz(st), self.zero(st), self.emptyinflight(None, st))

    def zero(self, st):
        return st.ev(op("Eq", self.selfval(st, "n_ready_or_inflight"), C(0)))

    def fz(self, st):
        return st.ev(op("Ge", self.selfval(st, "n_fizzled"), self.selfval(st, "fizzles_allowed")))

    RF = {}

    def runfact(self, k):
        """a fact about how long the task of the event has been running"""
        r = self.RF.get(k)
        if r is None:
            r = k.k == "DISCR" and k.a[0].k == "CALL" and k.a[0].a[0] in ("map.get", "map.remove") and self.R.fieldname(k.a[0].a[2][0]) == self.N.inflight or \
                k.k in ("OP", "CALL") and self.iselapsed(k)
            self.RF[k] = r
        return r

    def knowlong(self, I, st):
        """remember that the task is known not to have fizzled"""
        if self.mode == "stop" and "long" not in st.auto[3] and self.kind(st)[0] in ("F", "R"):
            if self.elapsed_lt(I, st) is False or self.notrunning(st):
                self.flag(st, "long")

    def notrunning(self, st):
        for k, f in st.facts.items():
            if k.k == "DISCR" and self.runfact(k) and f == ("in", frozenset(["None"])):
                return True
        return False

    def keepfact(self, st, k):
        if st.auto[0] is None:
            return False
        if k.k == "DISCR":
            return not (k.a[1] == "std::result::Result" and k.a[0] is not st.auto[0])
        if self.mode != "stop":
            return False
        for f in ("n_fizzled", "fizzles_allowed", "n_ready_or_inflight"):
            v = self.selfval(st, f)
            if has(k, lambda t: t is v):
                return True
        return has(k, lambda t: self.R.fieldname(t) == self.N.inflight)

    def kind(self, st):
        """Started / Finished / other for the current event, with its payload"""
        R = self.R
        cur = st.auto[0]
        if cur is None:
            return None, None
        vs = st.variants(cur, "std::result::Result")
        if vs is not None and "Ok" not in vs:
            return "none", None
        okv = payload(cur, "Ok")
        ks = st.variants(okv, R.eventpath)
        if ks is None or len(ks) != 1:
            return "?", None
        k = next(iter(ks))
        return ("F" if k == R.v_fin else "S"), proj(proj(okv, ("v", k)), ("f", "0", 0))

    def keepcleared(self, st):
        return frozenset()

    def task(self, st):
        """the id of the event's task"""
        k, e = self.kind(st)
        R = self.R
        if k == "F":
            return proj(e, ("f", R.e_id, None))
        if k == "S":
            return proj(e, ("f", R.s_id, None))
        return None

    def cmdfield(self, I, st, v):
        """(field name, node id) when v is a field of a task of the graph"""
        names = []
        v = peel(I.canon(st, v))
        while v.k == "FLD" or v.k == "CALL" and v.a[0].split("::")[-1] in ("clone", "to_owned", "to_string", "as_str", "into", "deref", "as_ref", "borrow"):
            if v.k == "FLD":
                names.append(v.a[1])
                v = peel(v.a[0])
            else:
                v = peel(I.canon(st, v.a[2][0]))
        if v.k == "CALL" and v.a[0] == "index" and names:
            g, n = v.a[2]
            if self.R.isg(g):
                return names[-1], n
        return None

    def oftask(self, I, st, v, field, N):
        c = self.cmdfield(I, st, v)
        return c is not None and c[0] == field and c[1] is N

    # ------------------------------------------------------------ events
    def on(self, I, st, ev):
        R = self.R
        k = ev.kind
        if k == "yield" and ev.path == "await" or k == "call" and ev.path in R.RECVS and ev.args:
            x = I.canon(st, ev.args[0])
            if has(x, lambda t: R.fieldname(t) == R.completed):
                self.boundary(I, st, ev.cx, "the next event is received")
                st.auto = (None, (), None, self.keepcleared(st))
            return True
        if k == "await" or k == "ret" and ev.path in R.TRYRECV:
            v = ev.val
            if R.is_event(v):
                st.auto = (v, (), None, self.keepcleared(st))
                self.see("event")
            elif k == "await" and has(v, lambda t: t.k == "CALL" and t.a[0].endswith("AsyncFlag::wait") or R.fieldname(t) == "soft_shutdown_trigger"):
                st.auto = (None, (), None, frozenset(["soft"]))
                self.see("soft trigger")
            return True
        if k == "write":
            return self.write(I, st, ev)
        if k == "call" and ev.path:
            return self.called(I, st, ev)
        if k == "ret" and ev.path and ev.path.endswith("HashMap::remove") and self.isinflight(I, st, ev.args[0]):
            if self.mode in ("log", "avg"):
                st.auto = st.auto[:2] + (ev.val,) + st.auto[3:]
        if k == "ret" and ev.path and ev.path.split("::")[-1] in ("_rawlog", "flush_logging") or k == "ret" and ev.path and "LogFile" in ev.path and ev.path.split("::")[-1] in ("write", "flush"):
            # a write error ends the service (C14); only the successful continuation is followed
            return st.restrict(discr(ev.val, "std::result::Result"), ["Ok"])
        if k == "item" and ev.val is not None:
            v = ev.val
            self.endqueue(I, st, ev.cx, st.load(v) if v.k == "REF" else v)
            return True
        if k == "iterend":
            self.endqueue(I, st, ev.cx, None)
            return True
        if k == "agg" and ev.path == R.ipath:
            self.see("queue item")
            N = peel(I.canon(st, proj(ev.val, ("f", R.i_id, None))))
            if self.mode != "stop":
                self.flag(st, ("q", N))
                if not any(f[0] == "up" and N in f[1] for f in st.auto[3] if type(f) is tuple):
                    self.flag(st, ("qq", N))
            if self.soft(st) is True:
                self.viol(I, st, "queued-in-soft-shutdown", "a queue item is made while a soft shutdown is in progress", ev.cx)
        return True

    # one task being put on the ready queues: what must have been done once for it
    WANT = {"log": (("rdy", "ready-not-logged", "ready-logged-twice", "a Ready entry is written"),),
            "count": (("nr", "num-ready-missing", "num-ready-twice", "num_ready of its queue goes up"),)}

    def mark(self, I, st, k, N, cx):
        """k happened for task N; once per task"""
        N = peel(N)
        if self.mode == "stop" or k not in [w[0] for w in self.WANT[self.mode]]:
            return
        if (k, N) in st.auto[3]:
            w = [w for w in self.WANT[self.mode] if w[0] == k][0]
            self.viol(I, st, w[2], "for one task put on the ready queues, %s twice" % w[3], cx)
        self.flag(st, (k, N))

    def endqueue(self, I, st, cx, N):
        """the next task is drawn (N), or all have been (None)"""
        if self.mode == "stop":
            return
        fl = st.auto[3]
        mine = [f for f in fl if type(f) is tuple and f[0] in ("q", "qq", "rdy", "nr", "one") and (N is None or f[1] is N or f[0] == "one" and any(type(g) is tuple and g[0] in ("q", "nr") and g[1] is N for g in fl))]
        if not mine:
            return
        for f in mine:
            if f[0] == "q":
                for k, key, _, what in self.WANT[self.mode]:
                    if (k, f[1]) not in fl:
                        self.viol(I, st, key, "a task is put on the ready queues on a path on which it never happens that %s" % what, cx)
                    else:
                        self.discharge(key, "once per task put on the queues")
            if f[0] == "qq" and self.mode == "count" and "one" not in [g[0] for g in mine] and not self.upped(st, f[1]):
                self.viol(I, st, "outstanding-up-missing", "a task is put on the ready queues without the number of outstanding tasks having gone up for it", cx)
        st.auto = st.auto[:3] + (fl - frozenset(mine),)

    def upped(self, st, N):
        return any(type(f) is tuple and f[0] == "up" and N in f[1] for f in st.auto[3])

    def called(self, I, st, ev):
        R = self.R
        p = ev.path
        m = p.split("::")[-1]
        if p.endswith("LogFile::write") or p.endswith("LogFile::write::write") or "LogFile" in p and m == "write":
            return self.log(I, st, ev)
        if m == "call_postamble":
            k, e = self.kind(st)
            if k == "F":
                self.postamble(I, st, ev, e)
            self.inc(st, "post")
        elif m == "insert" and p.endswith("HashMap::insert") and self.isinflight(I, st, ev.args[0]):
            self.inc(st, "ins")
            T = self.task(st)
            if T is None or I.canon(st, ev.args[1]) is not T:
                self.viol(I, st, "running-map-insert", "%s is added to the map of running tasks, which is not the task of the Started event being handled" % show(I.canon(st, ev.args[1]))[:80], ev.cx)
        elif m == "remove" and p.endswith("HashMap::remove") and self.isinflight(I, st, ev.args[0]):
            self.knowlong(I, st)
            self.inc(st, "rem")
            T = self.task(st)
            if T is None or I.canon(st, ev.args[1]) is not T:
                self.viol(I, st, "running-map-remove", "%s is removed from the map of running tasks, which is not the task of the Finished event being handled" % show(I.canon(st, ev.args[1]))[:80], ev.cx)
        elif m in ("clear", "retain", "drain", "remove_entry", "truncate", "extract_if") and ev.args and (p.startswith(("std::collections", "hashbrown")) or "HashMap" in p) and self.isinflight(I, st, ev.args[0]):
            if self.root == "serve":
                self.viol(I, st, "running-map-remove", "tasks are removed from the map of running tasks by %s" % m, ev.cx)
            else:
                self.flag(st, ("cleared", ev.args[0]))
        elif m in ("push", "insert", "push_back", "extend") and ev.args and R.fieldname(ev.args[0]) == "finished_order":
            self.inc(st, "order")
            T = self.task(st)
            if T is None or I.canon(st, ev.args[1]) is not T:
                self.viol(I, st, "finished-order", "the list of finished tasks gets %s, not the task of the Finished event" % show(ev.args[1])[:80], ev.cx)
        elif p.endswith("CancellationToken::cancel"):
            a = I.canon(st, ev.args[1])
            if a.k == "AGG" and a.a[2] == "CancelledAfterTime":
                if self.mode == "stop":
                    self.flag(st, "cancel")
                self.see("soft cancel")
            elif self.root == "serve":
                self.viol(I, st, "servicer-hard-cancels", "the service loop cancels running tasks outright: %s" % show(a)[:60], ev.cx)
        return True

    def isinflight(self, I, st, v):
        if self.R.fieldname(v) == self.N.inflight:
            return True
        return self.root == "drain" and self.localmap(I, st, v)

    def localmap(self, I, st, v):
        x = I.canon(st, v)
        return has(x, lambda t: self.R.fieldname(t) == self.N.inflight) or x.k == "COLL" and v.k == "REF" and v.a[0].k == "CELL"

    def absent(self, I, st):
        """is the event's task known not to be in the running map"""
        rem = st.auto[2]
        if rem is not None:
            vs = st.variants(rem, OPT)
            return None if vs is None or len(vs) != 1 else "None" in vs
        T = self.task(st)
        for k, f in st.facts.items():
            if k.k == "DISCR":
                c = k.a[0]
                if c.k == "CALL" and c.a[0] == "map.get" and self.R.fieldname(c.a[2][0]) == self.N.inflight and c.a[2][1] is T:
                    vs = st.variants(c, OPT)
                    if vs is not None and len(vs) == 1:
                        return "None" in vs
        return None

    def log(self, I, st, ev):
        R = self.R
        v = I.canon(st, ev.args[1])
        if v.k != "AGG" or v.a[1] != self.N.entry:
            self.viol(I, st, "log-entry-unknown", "what is written to the log is not understood: %s" % show(v)[:80], ev.cx)
            return True
        var = v.a[2]
        e = v.a[4][0]
        fl = lambda n: I.canon(st, proj(e, ("f", n, None)))
        kind, x = self.kind(st)
        T = self.task(st)
        self.see("log " + var)
        if var == "Finished":
            self.knowlong(I, st)
            if kind == "F":
                if self.inc(st, "fin") > 1:
                    self.viol(I, st, "finished-logged-twice", "two Finished entries are written for one finished task", ev.cx)
                if not self.oftask(I, st, fl("key"), "key", T):
                    self.viol(I, st, "finished-key", "the Finished entry is written under %s, not under the key of the task that finished" % show(fl("key"))[:90], ev.cx)
                else:
                    self.discharge("finished-key:" + self.root)
                self.status(I, st, x, fl("status"), ev.cx)
                vals = fl("values")
                src = proj(x, ("f", "values", None))
                if not (vals is src or I.canon(st, vals) is src or vals.k == "CALL" and vals.a[0].split("::")[-1] in ("clone", "take") and I.canon(st, vals.a[2][0]) is src or self.moved(st, x, vals)):
                    self.viol(I, st, "finished-values", "the Finished entry's values are %s, not the ones the task reported" % show(vals)[:80], ev.cx)
            else:
                self.remaining(I, st, ev, fl)
        elif var == "Started":
            if kind in ("F", "S"):
                if self.inc(st, "start") > 1:
                    self.viol(I, st, "started-logged-twice", "two Started entries are written for one event", ev.cx)
                if not self.oftask(I, st, fl("key"), "key", T):
                    self.viol(I, st, "started-key", "the Started entry is written under %s, not under the key of the task of the event" % show(fl("key"))[:90], ev.cx)
                else:
                    self.discharge("started-key:" + self.root)
                if kind == "F":
                    if self.cnt(st, "fin"):
                        self.viol(I, st, "started-after-finished", "a Started entry is written after the Finished entry of the same task", ev.cx)
                    if self.absent(I, st) is not True:
                        self.viol(I, st, "started-logged-twice", "while a task's end is handled, a Started entry is written on a path where the task may already have one (it is not known to be absent from the running map)", ev.cx)
                else:
                    for n in ("host", "pid", "slurm_jobid"):
                        y = fl(n)
                        if self.root == "serve" and not (y is proj(x, ("f", n, None)) or y.k == "CALL" and y.a[2] and has(y, lambda t: t is proj(x, ("f", n, None)))):
                            self.viol(I, st, "started-" + n, "the Started entry's %s is %s, not the one the runner reported" % (n, show(y)[:80]), ev.cx)
            else:
                self.viol(I, st, "started-without-event", "a Started entry is written outside the handling of an event", ev.cx)
        elif var == "Ready":
            c = self.cmdfield(I, st, fl("key"))
            if c is None or c[0] != "key":
                self.viol(I, st, "ready-key", "the Ready entry is written under %s, not under a task's key" % show(fl("key"))[:80], ev.cx)
            else:
                for n in ("runcount", "storage_root"):
                    if not self.oftask(I, st, fl(n), n, c[1]):
                        self.viol(I, st, "ready-" + n, "the Ready entry's %s is %s, not the task's" % (n, show(fl(n))[:80]), ev.cx)
                    else:
                        self.discharge("ready-" + n)
                self.mark(I, st, "rdy", c[1], ev.cx)
        return True

    def moved(self, st, x, vals):
        return vals.k in ("MOVED",)

    def remaining(self, I, st, ev, fl):
        if self.root != "drain":
            self.viol(I, st, "finished-without-event", "a Finished entry is written although no task's Finished event is being handled", ev.cx)
        else:
            self.inc(st, "rest")

    def status(self, I, st, x, val, cx):
        R = self.R
        s = proj(x, ("f", R.e_status, None))
        vs = st.variants(s, R.xpath)
        code = proj(proj(s, ("v", "Code")), ("f", "0", 0))
        vf = mk("VF", s, "Code", "0")
        if vs is not None and len(vs) == 1:
            w = next(iter(vs))
            if w == "Code":
                if val is not code and val is not vf and not (val.k == "C" and st.ev(op("Eq", vf, val)) is True):
                    self.viol(I, st, "finished-status", "the logged status is %s although the task exited with the code in the event" % show(val)[:60], cx)
                else:
                    self.discharge("finished-status:Code", "logged status is the exit code of the event")
            elif not (val.k == "C" and type(val.a[0]) is int and val.a[0] < 0):
                self.viol(I, st, "finished-status", "the logged status of a task that did not exit (%s) is %s, not a negative constant" % (w, show(val)[:60]), cx)
            else:
                self.discharge("finished-status:" + w, "logged status %s" % show(val))
        else:
            self.viol(I, st, "finished-status", "the logged status %s is not determined by the event's status" % show(val)[:60], cx)

    def postamble(self, I, st, ev, e):
        s = self.R.success(st, e)
        a = I.canon(st, ev.args[1])
        t = st.ev(a)
        rc, nt = I.canon(st, ev.args[2]), I.canon(st, ev.args[3])
        while nt.k == "CAST":
            nt = nt.a[0]
        if self.R.fieldname(peel(rc)) != self.runcountfield() or self.cmdself(I, st, peel(rc).a[0]) is not self.task(st):
            self.viol(I, st, "postamble-args", "the postamble is given %s as the task's run count" % show(rc)[:80], ev.cx)
        elif not (nt.k == "CALL" and nt.a[0].split("::")[-1] in ("node_count", "node_bound") and self.R.isg(nt.a[2][0]) or nt.k == "CALL" and nt.a[0].split("::")[-1] == "len" and self.R.fieldname(peel(nt.a[2][0])) == self.R.statuses):
            self.viol(I, st, "postamble-args", "the postamble is given %s as the number of tasks, not the number of nodes of the graph" % show(nt)[:80], ev.cx)
        else:
            self.discharge("postamble-args", "the task's run count and the number of nodes of the graph")
        cd = self.cmdself(I, st, ev.args[0])
        if cd is not self.task(st):
            self.viol(I, st, "postamble-task", "the postamble of another task is called: %s" % show(ev.args[0])[:60], ev.cx)
        if t is None:
            # decide the symbolic success argument
            vs = self.succterm(st, e)
            if a is not vs:
                s2 = None
            else:
                s2 = a
            if s2 is None and s is None:
                self.viol(I, st, "postamble-success", "the postamble's success argument is %s, not whether the task exited with code 0" % show(a)[:80], ev.cx)
        elif s is not None and t is not s:
            self.viol(I, st, "postamble-success", "the postamble is told success=%s on a path where success is %s" % (t, s), ev.cx)

    def runcountfield(self):
        r = [f["name"] for f in fields(adt(self.prog, "Cmd")) if f["ty"].s == "u32" and "run" in f["name"]]
        return r[0] if len(r) == 1 else "runcount"

    def succterm(self, st, e):
        return None

    def cmdself(self, I, st, v):
        v = peel(I.canon(st, v))
        if v.k == "REF":
            v = peel(I.canon(st, v))
        if v.k == "CALL" and v.a[0] == "index" and self.R.isg(v.a[2][0]):
            return v.a[2][1]
        return None

    # ------------------------------------------------------------ writes
    def write(self, I, st, ev):
        R = self.R
        root, path = ev.args
        if not path:
            return True
        names = [e[1] for e in path if e[0] == "f"]
        if not names:
            return True
        f = names[-1]
        old, new = ev.extra, ev.val
        if new is old or st.ev(op("Eq", new, old)) is True:
            return True
        kind, x = self.kind(st)
        own = self.onserver(root, path)
        if own and f == "n_failed":
            self.step(I, st, ev, "fail", "the number of failed tasks", old, new, OPS_ADD)
        elif own and f == "n_fizzled":
            self.step(I, st, ev, "fizz", "the number of fizzled tasks", old, new, OPS_ADD)
            self.fizzled(I, st, ev)
        elif own and f == "n_ready_or_inflight":
            self.nri(I, st, ev, old, new)
        elif own and f == "finished_order":
            self.viol(I, st, "finished-order", "the list of finished tasks is replaced", ev.cx)
        elif own and f == R.ready:
            if new.k == "AGG" and new.a[2] == "None":
                pass
            else:
                self.viol(I, st, "queues-reopened", "the ready-queue senders are replaced while the service runs", ev.cx)
        elif own and f == R.shutdown[0]:
            vs = st.variants(new, R.shutdown[1])
            if vs == frozenset(["SoftShutdown"]):
                pass
            else:
                self.viol(I, st, "soft-shutdown-undone", "the shutdown state is set to %s" % show(new)[:40], ev.cx)
        elif f in ("num_ready", "num_inflight"):
            self.snapshot(I, st, ev, root, f, old, new)
        return True

    def onserver(self, root, path):
        return root.k == "SYM" or root.k in ("CELL", "DEREF") or len(path) == 1

    def step(self, I, st, ev, k, what, old, new, ops):
        if not (new.k == "OP" and new.a[0] in ops and new.a[1] is old and new.a[2] is C(1)):
            self.viol(I, st, "step-" + k, "%s changes from %s to %s instead of going up by one" % (what, show(old)[-40:], show(new)[-60:]), ev.cx)
        if self.kind(st)[0] not in ("F", "R"):
            self.viol(I, st, "step-" + k, "%s changes outside the handling of a Finished event" % what, ev.cx)
        self.inc(st, k)

    def nri(self, I, st, ev, old, new):
        if new.k == "OP" and new.a[0] in OPS_SUB and new.a[1] is old and new.a[2] is C(1):
            if self.kind(st)[0] not in ("F", "R"):
                self.viol(I, st, "outstanding-down", "the number of outstanding tasks goes down outside the handling of a Finished event", ev.cx)
            self.inc(st, "nri")
            self.discharge("outstanding-down:" + ev.cx.body.df.npath)
            return
        if new.k == "OP" and new.a[0] in OPS_ADD and new.a[1] is old:
            x = new.a[2]
            while x.k == "CAST":
                x = x.a[1]
            if x is C(1):
                if self.mode == "count":
                    if any(type(f) is tuple and f[0] == "one" for f in st.auto[3]):
                        self.viol(I, st, "outstanding-up-twice", "the number of outstanding tasks goes up twice for one task put on the ready queues", ev.cx)
                    self.flag(st, ("one", C(1)))
                self.see("outstanding up")
                self.discharge("outstanding-up:" + ev.cx.body.df.npath)
                return
            if x.k == "OP" and x.a[0] == "len" or x.k == "CALL" and x.a[0] == "len":
                c = x.a[1] if x.k == "OP" else x.a[2][0]
                c = I.canon(st, c)
                if self.mode == "count" and c.k == "COLL":
                    el = frozenset(peel(e) for e, _ in c.a[1])
                    if any(type(f) is tuple and f[0] == "up" and f[1] & el for f in st.auto[3]):
                        self.viol(I, st, "outstanding-up-twice", "the number of outstanding tasks goes up twice for one list of ready tasks", ev.cx)
                    self.flag(st, ("up", el))
                self.see("outstanding up")
                self.discharge("outstanding-up:" + ev.cx.body.df.npath)
                return
        self.viol(I, st, "outstanding-step", "the number of outstanding tasks changes from %s to %s" % (show(old)[-50:], show(new)[-80:]), ev.cx)

    def snapshot(self, I, st, ev, root, f, old, new):
        """queue counters: right queue, steps of one"""
        key = self.qkey(root)
        kind, x = self.kind(st)
        if f == "num_ready" and new is C(0):
            return
        d = None
        if new.k == "OP" and new.a[1] is old and new.a[2] is C(1):
            d = 1 if new.a[0] in OPS_ADD else -1 if new.a[0] in OPS_SUB else None
        c = self.cmdfield(I, st, key) if key is not None else None
        if d is None or c is None or not c[0].startswith("affin"):
            self.viol(I, st, "queue-counter-step", "%s of queue %s changes from %s to %s" % (f, show(key)[-60:] if key is not None else "?", show(old)[-40:], show(new)[-60:]), ev.cx)
            return
        if f == "num_ready" and d == 1:
            self.see("num_ready up")
            self.mark(I, st, "nr", c[1], ev.cx)
            self.discharge("num_ready-up", "keyed by the affinity of a task of the graph")
        elif f == "num_inflight" and d == -1:
            if kind not in ("F", "R") or not self.same(st, c[1], self.task(st)):
                self.viol(I, st, "queue-inflight-other", "num_inflight goes down for the queue of %s, not of the task that finished" % show(c[1])[-60:], ev.cx)
            self.inc(st, "infl")
            self.discharge("num_inflight-down", "for the queue of the finished task")
        else:
            self.viol(I, st, "queue-counter-step", "%s goes %s in the service loop" % (f, "up" if d > 0 else "down"), ev.cx)

    def same(self, st, a, b):
        if a is None or b is None:
            return False
        p = lambda v: peel(st.load(v) if v.k == "REF" else v)
        return p(a) is p(b)

    def qkey(self, root):
        for x in subterms(root):
            if x.k == "CALL" and x.a[0].split("::")[-1] in ("get_mut", "entry", "map.get", "get", "alter") and len(x.a[2]) >= 2 and self.R.fieldname(x.a[2][0]) == "queuestate":
                return x.a[2][1]
        return None

    # ------------------------------------------------------------ fizzles
    def elapsed_lt(self, I, st):
        """True/False/None: known that the task ran for less than the cutoff ; 'absent' when it never started"""
        for k, f in st.facts.items():
            for t in subterms(k):
                if t.k == "OP" and t.a[0] in ("Lt", "Le", "Gt", "Ge") and self.iselapsed(t.a[1]) or t.k == "CALL" and t.a[0] in ("lt", "le", "gt", "ge") and self.iselapsed(t.a[2][0]):
                    e = st.ev(t)
                    if e is not None:
                        o = t.a[0].lower()
                        return e if o in ("lt", "le") else not e
        return None

    def iselapsed(self, v):
        return has(v, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] == "now") and has(v, lambda t: self.R.fieldname(t) == self.N.inflight)

    def fizzled(self, I, st, ev):
        kind, x = self.kind(st)
        if kind != "F":
            return
        if self.R.success(st, x) is not False:
            self.viol(I, st, "fizzle-success", "a task that may have exited with code 0 is counted as fizzled", ev.cx)
        if self.elapsed_lt(I, st) is not True:
            self.viol(I, st, "fizzle-long", "a task that is not known to have run for less than the cutoff is counted as fizzled", ev.cx)

    # ------------------------------------------------------------ per event
    def soft(self, st):
        R = self.R
        v = st.read(self.selfroot, (("f", R.shutdown[0], None),)) if self.selfroot is not None else None
        if v is None:
            return None
        vs = st.variants(v, R.shutdown[1])
        return None if vs is None or len(vs) != 1 else "SoftShutdown" in vs

    selfroot = None

    def closed(self, st):
        return st.variants(self.selfval(st, self.R.ready), OPT) == frozenset(["None"])

    def boundary(self, I, st, cx, what):
        R = self.R
        kind, x = self.kind(st)
        self.endqueue(I, st, cx, None)
        cur, ct, rem, fl = st.auto
        d = dict(ct)
        n = lambda k: d.get(k, 0)
        if "soft" in fl and self.root == "serve" and self.mode == "stop":
            closed, state = self.closed(st), self.soft(st) is True
            if not closed:
                self.viol(I, st, "soft-not-closed", "after a soft shutdown is requested, %s without the ready queues having been closed: new tasks keep being handed out" % what, cx)
            elif not state:
                self.viol(I, st, "soft-state-not-set", "after a soft shutdown is requested, %s without the state having been set" % what, cx)
            else:
                self.discharge("soft-trigger", "closes the ready queues and records the state")
                self.see("soft handled")
        if kind == "?":
            self.viol(I, st, "event-not-handled", "%s without the kind of the last event having been looked at" % what, cx)
        elif kind == "S":
            if self.mode == "log":
                if n("start") != 1:
                    self.viol(I, st, "started-not-logged", "a task was reported started, and %s without a Started entry having been written" % what, cx)
                if n("ins") != 1:
                    self.viol(I, st, "running-map-insert-missing", "a task was reported started, and %s without it having been added to the map of running tasks" % what, cx)
            for k in ("nri", "infl", "order", "fail", "post", "fizz", "rem"):
                if n(k):
                    self.viol(I, st, "started-counted:" + k, "handling a Started event changes what a Finished event should (%s)" % k, cx)
            self.see("started handled")
        elif kind == "F":
            s = R.success(st, x)
            if self.mode == "log":
                if n("fin") != 1:
                    self.viol(I, st, "finished-not-logged", "a task was reported finished, and %s without a Finished entry having been written" % what, cx)
                if n("rem") != 1:
                    self.viol(I, st, "running-map-remove-missing", "a task was reported finished, and %s without it having been removed from the map of running tasks" % what, cx)
                elif n("start") == 0 and self.absent(I, st) is not False:
                    self.viol(I, st, "finished-without-started", "a Finished entry is written for a task that may have no Started entry", cx)
            if self.mode == "count":
                if n("nri") != 1:
                    self.viol(I, st, "outstanding-not-down", "a task was reported finished, and %s with the number of outstanding tasks having gone down %s times" % (what, n("nri")), cx)
                if n("infl") != 1:
                    self.viol(I, st, "queue-inflight-missing", "a task was reported finished, and %s with num_inflight of its queue having gone down %s times" % (what, n("infl")), cx)
                if n("post") != 1:
                    self.viol(I, st, "postamble-count", "a task was reported finished, and its postamble is called %s times" % n("post"), cx)
                if self.root == "serve" and n("order") != 1:
                    self.viol(I, st, "finished-order", "a task was reported finished, and it is put %s times on the list of finished tasks" % n("order"), cx)
                if s is True and n("fail") or s is False and n("fail") != 1 or s is None:
                    self.viol(I, st, "failed-count", "a task was reported finished (success: %s), and the number of failed tasks goes up %s times" % ({True: "yes", False: "no", None: "not looked at"}[s], n("fail")), cx)
            if self.mode == "stop" and self.root == "serve":
                self.knowlong(I, st)
                if s is False and n("fizz") == 0 and "long" not in st.auto[3]:
                    self.viol(I, st, "fizzle-missed", "a task that failed and may have run for less than the cutoff is not counted as fizzled", cx)
                self.finish_rules(I, st, cx, what)
            self.see("finished handled")

    def selfval(self, st, f):
        return st.read(self.selfroot, (("f", f, None),))

    def finish_rules(self, I, st, cx, what):
        """what has to happen after a Finished event before the loop goes on"""
        fl = st.auto[3]
        fz = self.fz(st)
        if fz is not False:
            missing = [n for n, k in (("running tasks are not cancelled", "cancel" in fl), ("the ready queues are not closed", self.closed(st)), ("the state is not set", self.soft(st) is True)) if not k]
            if missing:
                self.viol(I, st, "fizzle-no-shutdown", "the number of fizzled tasks may have reached the allowed number, and %s" % "; ".join(missing), cx)
            else:
                self.see("fizzle shutdown")
        elif "cancel" in fl:
            self.viol(I, st, "fizzle-early", "running tasks are cancelled although fewer tasks fizzled than are allowed", cx)
        if what.startswith("the next"):
            z = self.zero(st)
            if z is not False:
                self.viol(I, st, "continues-when-done", "after a Finished event the loop goes on although the number of outstanding tasks may be zero: the run never ends", cx)
            if self.soft(st) is not False and self.emptyinflight(I, st) is not False:
                self.viol(I, st, "soft-continues", "after a Finished event during a soft shutdown the loop goes on although no task may be running", cx)

    def emptyinflight(self, I, st):
        for k, f in st.facts.items():
            for t in subterms(k):
                if t.k == "CALL" and t.a[0] == "len" and has(t, lambda u: self.R.fieldname(u) == self.N.inflight):
                    e = st.ev(op("Eq", t, C(0)))
                    if e is not None:
                        return e
        return None


    def exit(self, I, st, cx):
        """the service loop ends normally"""
        v = self.selfval(st, self.R.ready)
        if st.variants(v, OPT) != frozenset(["None"]):
            self.viol(I, st, "exit-queues-open", "the service loop ends with the ready queues still open: runners waiting for work never learn that there is none", cx)
        else:
            self.discharge("exit-queues-closed", "the ready-queue senders are dropped on every normal exit")
        self.see("normal exit")


class Drain(Ledger):
    """drain: what is left in the channel, then every task still recorded as running"""
    # flags: ("rest", key) the entry of a still-running task being handled ; "walked"
    def on(self, I, st, ev):
        k = ev.kind
        if k in ("item", "step", "iterend"):
            it = ev.args[0]
            src = it.a[0]
            x = src.a[1]
            if type(x) is V and src.a[0] in ("map", "mapv", "opq", "val", "ref") and self.isrest(I, st, x, ev):
                self.endrest(I, st, ev.cx)
                if any(f[1] is x for f in self.keepcleared(st)):
                    self.viol(I, st, "drain-skips", "tasks still recorded as running are removed from the map before it is walked when the run ends", ev.cx)
                if k == "iterend":
                    st.auto = (None, (), None, frozenset(["walked"]) | self.keepcleared(st))
                elif k == "item":
                    bad = [s[0] for s in it.a[1] if s[0] in ("skip", "take", "filter", "filter_map", "step_by", "take_while", "skip_while", "map_while")]
                    if bad:
                        self.viol(I, st, "drain-skips", "tasks still recorded as running are left out when the run ends (%s)" % bad[0], ev.cx)
                    v = ev.val
                    if v.k == "AGG" and v.a[0] == "tuple":
                        v = v.a[4][0]
                    st.auto = (None, (), None, frozenset([("rest", v)]) | self.keepcleared(st))
                    self.see("remaining")
                return True
        return super().on(I, st, ev)

    def keepcleared(self, st):
        return frozenset(f for f in st.auto[3] if type(f) is tuple and f[0] == "cleared")

    def isrest(self, I, st, x, ev):
        y = I.canon(st, x)
        return has(y, lambda t: self.R.fieldname(t) == self.N.inflight) or has(x, lambda t: self.R.fieldname(t) == self.N.inflight)

    def rest(self, st):
        for f in st.auto[3]:
            if type(f) is tuple and f[0] == "rest":
                return f[1]
        return None

    def task(self, st):
        r = self.rest(st)
        return r if r is not None else super().task(st)

    def endrest(self, I, st, cx):
        if self.rest(st) is not None:
            d = dict(st.auto[1])
            for k, w in (("rest", "logged as finished"), ("nri", "taken off the number of outstanding tasks"), ("infl", "taken off num_inflight"), ("fail", "counted as failed"), ("post", "given to its postamble")):
                if k in self.track and d.get(k, 0) != 1:
                    self.viol(I, st, "drain-rest:" + k, "a task still recorded as running when the run ends is %s %s times" % (w, d.get(k, 0)), cx)

    def kind(self, st):
        r = self.rest(st)
        if r is not None:
            return "R", None
        return super().kind(st)

    def remaining(self, I, st, ev, fl):
        N = self.rest(st)
        self.inc(st, "rest")
        c = self.cmdfield(I, st, fl("key"))
        if c is None or c[0] != "key" or not self.same(st, c[1], N):
            self.viol(I, st, "finished-key", "when the run ends a Finished entry is written under %s, not under the key of the running task being handled" % show(fl("key"))[:80], ev.cx)
        v = fl("status")
        if not (v.k == "C" and type(v.a[0]) is int and v.a[0] < 0):
            self.viol(I, st, "finished-status", "a task that was still running when the run ends is logged with status %s, not a negative constant" % show(v)[:60], ev.cx)

    def same(self, st, a, b):
        p = lambda v: peel(st.load(v) if v.k == "REF" else v)
        return p(a) is p(b)

    def boundary(self, I, st, cx, what):
        if self.rest(st) is not None:
            self.endrest(I, st, cx)
            return
        if self.kind(st)[0] == "none":
            return
        super().boundary(I, st, cx, what)

    def exit(self, I, st, cx):
        if "walked" not in st.auto[3]:
            self.viol(I, st, "drain-not-walked", "the run ends without the tasks still recorded as running having been walked to the end", cx)
        else:
            self.discharge("drain-walked", "every task still recorded as running is looked at")


def run_ledger(prog, rep, R, keys, mode, roots=("serve", "drain")):
    from frame import Report
    res = []
    for r in roots:
        inner = Report(rep.pid)
        b = getattr(R, r)
        cls = Ledger if r == "serve" else Drain
        g = cls(prog, inner, R, r, mode)
        g.selfroot = mk("SYM", "param:self", (b.key, 0))
        out = g.start(b, CAP=CAP, HEADCAP=HEADCAP)
        n = 0
        for s, v in out:
            if v.k == "AGG" and v.a[2] == "Err":
                continue
            n += 1
            cx = g.I.rootcx(b, 0)
            g.boundary(g.I, s, cx, "the service returns")
            g.exit(g.I, s, cx)
        inner.take(g.I, g)
        for k, v in inner.viols.items():
            if k.split(":")[0] in keys:
                rep.viols[k] = v
        for k, v in inner.obs.items():
            if k.split(":")[0] in keys:
                rep.obs[k] = v
        rep.functions |= inner.functions
        rep.visits += inner.visits
        rep.calls += inner.calls
        rep.roots.append(b.df.path)
        for k, x in g.seen.items():
            rep.count("%s: %s" % (r, k), x)
        rep.seen = dict(getattr(rep, "seen", {}), **{r: g.seen})
        g.exits = n
        res.append(g)
    return res
