"""C36: what GET /status reports, and the statistics behind it."""
from ledger import *
from rules.c28 import Quiet
import math
RULE = ("status_handler, every path: it asks the tracker for the queues once, with the etag, timemin_ms and timeout_ms of the request, or zeros without a body; the reply's etag and queues are that answer, each queue's "
        "two counters under their own name and key, the rest comes from the tracker of this server: launch rate, rate limit, mean of the recent run times, number of tasks, unready tasks, and the provisioner's info. "
        "new_ready_tracker gives the client the number of tasks in the graph and the scheduler's own unready counter and run-time buffer. Service loop, every path: the unready counter is set to the number of tasks before the first batch "
        "and goes down by the length of each batch put on the ready queues, once; the run-time buffer gets the time since it started for each task that succeeded and was running, once, and nothing else. Dispatch: the launch counter is updated once, with the "
        "current time, exactly when a task is handed out. RateCounter: update, rate and start computed on sampled values agree with the exponentially decaying rate estimate.")
ASSUME = ["the mean of the buffer and the process metrics are not looked into", "the clock does not go back"]


def key(t):
    return t.a[0].split("::")[-1]


# ------------------------------------------------------------------ the handler
class Status(Base):
    opaque = ("get_queuestate", "collect_server_metrics", "RateCounter::get_rate", "RateLimiter::rate_per_second", "RingbufferForDurationAveragesReadonlyView::mean")

    def __init__(self, P, rep):
        super().__init__(P, rep)
        self.asked = 0

    # auto: (times asked, Once over the answer's queues)
    def init(self):
        return (0, Once.ZERO)

    def opt(self, st):
        """the variants of the optional body"""
        for k, f in st.facts.items():
            if k.k == "DISCR" and k.a[1] == OPT and has(k.a[0], lambda t: t.k == "SYM" and t.a[0].startswith("param:")) and not has(k.a[0], lambda t: t.k == "CALL"):
                return st.variants(k.a[0], OPT)
        return None

    def part(self, st):
        return (st.auto, self.opt(st))

    def keepfact(self, st, k):
        return k.k == "DISCR" and k.a[1] == OPT and not has(k.a[0], lambda t: t.k == "CALL")

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.path.endswith("::get_queuestate"):
            self.asked += 1
            st.auto = (min(2, st.auto[0] + 1), Once.ZERO)
            v = self.opt(st)
            a = [I.canon(st, x) for x in ev.args]
            for x, name, fn in ((a[1], "etag", None), (a[2], "timemin_ms", 10**6), (a[3], "timeout_ms", 10**6)):
                sample = 12347
                isreq = lambda t: t.k == "FLD" and t.a[1] == name and has(t, lambda u: u.k == "SYM" and u.a[0].startswith("param:"))
                n = number(x, [(isreq, sample)])
                want = 0 if v is not None and "Some" not in v else sample * (fn or 1)
                if has(x, isreq):
                    if v is not None and "Some" not in v:
                        n = None
                if n != want:
                    self.viol(I, st, "request:" + name, "the queues are asked for with %s for the request's %s%s" % (show(x)[:80], name, " although there is no body" if want == 0 else ""), ev.cx)
                else:
                    self.discharge("request:" + name, "the request's, or 0")
        n, e = st.auto
        if ev.kind in ("item", "step", "iterend", "itemdone"):
            e = Once.on(I, st, ev, e, lambda it: any(self.element(x, 1) for x in itsources(I, st, it)), ordered=False)
            if e[0] is not None and e[0].k == "AGG" and len(e[0].a[4]) == 2:
                e = (I.canon(st, e[0].a[4][0]),) + e[1:]
            st.auto = (n, e)
        elif ev.kind == "collect" and ev.val is not None:
            v = I.canon(st, ev.val)
            if v.k == "AGG" and len(v.a[4]) == 2 and self.entry(I, st, v):
                st.auto = (n, Once.use(e, v.a[4][0]))
        return True

    def tracker(self, t):
        """t lies in the tracker of the server's state"""
        return has(t, lambda u: u.k == "FLD" and u.a[1] == "tracker" and has(u, lambda w: w.k == "SYM" and w.a[0].startswith("param:")))

    def check(self, I, out, body):
        cx = I.rootcx(body, 0)
        n = 0
        for st, v in out:
            v = I.canon(st, v)
            agg = [x for x in subterms(v) if x.k == "AGG" and x.a[1] and x.a[1].split("::")[-1] == "StatusReply"]
            if v.k == "AGG" and v.a[2] == "Err" and not agg:
                self.viol(I, st, "reply:refused", "a status request is refused", cx)
                continue
            if len(agg) != 1:
                raise AnchorError("the StatusReply in the result of status_handler")
            n += 1
            f = {a: I.canon(st, b) for a, b in zip(agg[0].a[3], agg[0].a[4])}
            if st.auto[0] != 1:
                self.viol(I, st, "request:times", "the queues are asked for %d times for one reply" % st.auto[0], cx)
            for name, x in f.items():
                ok = self.field(I, st, name, x)
                if ok is None:
                    continue
                if ok:
                    self.discharge("reply:" + name, "reported from its own source")
                else:
                    self.viol(I, st, "reply:" + name, "the reply's %s is %s" % (name, show(x)[:140]), cx)
        self.rep.floor("replies", n, 1)

    def answer(self, t):
        return t.k == "CALL" and key(t) == "get_queuestate" and self.tracker(t)

    def element(self, x, i):
        """x is element i of the answer"""
        x = peel(x)
        return x.k == "FLD" and str(x.a[1]) == str(i) and has(x.a[0], self.answer) and x.a[0].k in ("CALL", "DEREF", "VF", "AWAIT")

    def field(self, I, st, name, x):
        if name == "etag":
            return self.element(x, 0)
        if name == "queues":
            return self.queues(I, st, x)
        if name == "rate":
            return iscall(x, "RateCounter::get_rate") and self.tracker(x)
        if name == "ratelimit":
            return self.under(x, "rate_per_second")
        if name == "average_recent_task_runtime":
            return x.k == "CALL" and key(x) in ("as_secs_f32", "as_secs_f64") and self.under(x.a[2][0], "mean") or x.k == "CAST" and self.field(I, st, name, x.a[1])
        if name == "num_unready_tasks":
            return x.k == "CALL" and key(x) == "load" and self.tracker(x) and infield(x.a[2][0], "n_unready_tasks")
        if name == "num_total_tasks":
            return peel(x).k == "FLD" and peel(x).a[1] == "n_total_tasks" and self.tracker(x)
        if name == "provisioner_info":
            x = peel(x)
            while x.k == "CALL" and key(x) in ("clone", "to_owned"):
                x = peel(x.a[2][0])
            return x.k == "FLD" and x.a[1] == "info" and has(x, lambda t: t.k == "FLD" and t.a[1] == "provisioner") and not has(x, lambda t: t.k == "CALL" and key(t) not in ("read", "write", "lock"))
        if name == "server_metrics":
            return iscall(x, "collect_server_metrics")
        return None

    def under(self, x, m):
        while x.k == "CAST":
            x = x.a[0] if type(x.a[0]) is V else x.a[1]
        x = peel(x)
        return x.k == "CALL" and key(x) == m and self.tracker(x)

    def queues(self, I, st, x):
        return x.k == "COLL" and st.auto[1][3] in ("empty", "done") and (bool(x.a[1]) or st.auto[1][3] == "empty") and all(self.entry(I, st, e) for e, _ in x.a[1])

    def entry(self, I, st, e):
        """(key, reply) of one queue of the answer"""
        if e.k != "AGG" or len(e.a[4]) != 2:
            return False
        k, v = (st.load(y) if y.k == "REF" else y for y in e.a[4])
        k = peel(I.canon(st, k))
        v = I.canon(st, v)
        if not (k.k == "CALL" and k.a[0] == "key" and self.element(peel(k.a[2][0]), 1)):
            return False
        if v.k != "AGG" or not v.a[3] or set(v.a[3]) != {"num_ready", "num_inflight"}:
            return False
        for name, val in zip(v.a[3], v.a[4]):
            val = peel(I.canon(st, val))
            if not (val.k == "FLD" and val.a[1] == name and has(val, lambda t: t.k == "CALL" and t.a[0] == "map.get" and peel(t.a[2][1]) is k and self.element(peel(t.a[2][0]), 1))):
                return False
        return True


# ------------------------------------------------------------------ the service loop
class Stats(Ledger):
    WANT = dict(Ledger.WANT, avg=())
    RMWSUB = ("fetch_sub",)

    def part(self, st):
        if self.selfroot is None or st.auto[0] is None:
            return None
        kind, x = self.kind(st)
        if kind != "F":
            return kind
        v = st.variants(proj(x, ("f", self.R.e_status, None)), self.R.xpath)
        return (kind, self.R.success(st, x), v is not None and "Code" in v, self.absent(None, st))

    def keepcleared(self, st):
        return frozenset(f for f in st.auto[3] if f == "set") | super().keepcleared(st)

    def on(self, I, st, ev):
        had = "set" in st.auto[3]
        if ev.kind == "call" and ev.path and "sync::atomic::Atomic" in ev.path and ev.args and self.unready(I, st, ev.args[0]):
            self.atomic(I, st, ev)
        r = super().on(I, st, ev)
        if had and "set" not in st.auto[3]:
            self.flag(st, "set")
        return r

    def unready(self, I, st, v):
        return self.R.fieldname(peel(I.canon(st, v))) == self.field

    def atomic(self, I, st, ev):
        m = ev.path.split("::")[-1]
        a = [I.canon(st, x) for x in ev.args]
        if m == "load":
            return
        if m == "store":
            x = self.uncast(a[1])
            c = x.a[1] if x.k == "OP" and x.a[0] == "len" else x.a[2][0] if x.k == "CALL" and x.a[0].split("::")[-1] in ("len", "node_count") else None
            c = peel(c) if c is not None else None
            if c is None or not (self.R.fieldname(c) == self.R.statuses or self.R.isg(c)) or st.auto[0] is not None or any(type(f) is tuple for f in st.auto[3]):
                self.viol(I, st, "unready-set", "the number of unready tasks is set to %s" % show(a[1])[:80], ev.cx)
            else:
                self.discharge("unready-set", "to the number of tasks, before anything is queued")
            self.flag(st, "set")
            self.see("unready set")
            return
        d = None
        if m == "fetch_sub":
            d = a[1]
        elif m in ("compare_exchange", "compare_exchange_weak", "compare_and_swap"):
            old, new = a[1], a[2]
            if new.k == "OP" and new.a[0] in OPS_SUB and new.a[1] is old and old.k == "CALL" and key(old) == "load" and self.unready(I, st, old.a[2][0]):
                d = new.a[2]
        if d is None:
            self.viol(I, st, "unready-step", "the number of unready tasks changes by %s(%s)" % (m, ", ".join(show(x)[-60:] for x in a[1:3])), ev.cx)
            return
        if "set" not in st.auto[3] and not self.preset:
            self.viol(I, st, "unready-set", "the number of unready tasks goes down on a path on which it was never set", ev.cx)
        d = self.uncast(d)
        if d is C(1):
            if any(type(f) is tuple and f[0] == "one" for f in st.auto[3]):
                self.viol(I, st, "unready-twice", "the number of unready tasks goes down twice for one task put on the ready queues", ev.cx)
            self.flag(st, ("one", C(1)))
        elif d.k == "OP" and d.a[0] == "len" or d.k == "CALL" and key(d) == "len":
            c = I.canon(st, d.a[1] if d.k == "OP" else d.a[2][0])
            if c.k != "COLL":
                self.viol(I, st, "unready-step", "the number of unready tasks goes down by %s" % show(d)[:80], ev.cx)
                return
            el = frozenset(peel(e) for e, _ in c.a[1])
            if any(type(f) is tuple and f[0] == "up" and f[1] & el for f in st.auto[3]):
                self.viol(I, st, "unready-twice", "the number of unready tasks goes down twice for one list of ready tasks", ev.cx)
            self.flag(st, ("up", el))
        else:
            self.viol(I, st, "unready-step", "the number of unready tasks goes down by %s" % show(d)[:80], ev.cx)
            return
        self.see("unready down")
        self.discharge("unready-step:" + ev.cx.body.df.npath)

    def uncast(self, x):
        while x.k == "CAST":
            x = x.a[1]
        return peel(x)

    def endqueue(self, I, st, cx, N):
        fl = st.auto[3]
        mine = [f for f in fl if type(f) is tuple and f[0] in ("q", "qq", "one") and (N is None or f[1] is N or f[0] == "one" and any(type(g) is tuple and g[0] == "q" and g[1] is N for g in fl))]
        for f in mine:
            if f[0] == "q" and "one" in [g[0] for g in mine] and self.upped(st, f[1]):
                self.viol(I, st, "unready-twice", "the number of unready tasks goes down for a task and for the list it is in", cx)
            if f[0] == "qq":
                if "one" not in [g[0] for g in mine] and not self.upped(st, f[1]):
                    self.viol(I, st, "unready-missing", "a task is put on the ready queues without the number of unready tasks having gone down for it", cx)
                else:
                    self.discharge("unready-missing", "each task put on the queues is taken off")
        if mine:
            st.auto = st.auto[:3] + (fl - frozenset(mine),)

    def called(self, I, st, ev):
        m = ev.path.split("::")[-1]
        if ev.path.endswith("RingbufferForDurationAverages::push"):
            T = self.task(st)
            v = I.canon(st, ev.args[1])
            k, e = self.kind(st)
            good = k == "F" and v.k == "CALL" and key(v) in ("sub", "duration_since", "saturating_duration_since") and len(v.a[2]) == 2 and iscall(v.a[2][0], "Instant::now", "now") and self.started(v.a[2][1], T) or \
                k == "F" and v.k == "CALL" and key(v) == "elapsed" and self.started(v.a[2][0], T)
            if not good:
                self.viol(I, st, "runtime-value", "%s is recorded as a run time, not the time since the finished task started" % show(v)[:100], ev.cx)
            elif self.R.success(st, e) is not True:
                self.viol(I, st, "runtime-failed", "the run time of a task that may have failed is recorded", ev.cx)
            else:
                self.discharge("runtime-value", "now - start of the finished task")
            self.inc(st, "avg")
            self.see("run time recorded")
        elif m == "remove" and self.isinflight(I, st, ev.args[0]):
            pass
        elif m.startswith("_rawlog"):
            pass
        return True

    def started(self, t, T):
        """the start time recorded for task T"""
        t = peel(t)
        return T is not None and has(t, lambda u: u.k == "CALL" and u.a[0] in ("map.get", "map.remove", "index") and self.R.fieldname(u.a[2][0]) == self.N.inflight and peel(u.a[2][1]) is T) and t.k in ("VF", "FLD", "CALL")

    def write(self, I, st, ev):
        return True

    def boundary(self, I, st, cx, what):
        self.endqueue(I, st, cx, None)
        kind, x = self.kind(st)
        if kind == "F":
            s = self.R.success(st, x)
            n = self.cnt(st, "avg")
            if n > 1:
                self.viol(I, st, "runtime-times", "the run time of a task is recorded twice", cx)
            elif n == 0 and s is not False and self.absent(I, st) is not True:
                self.viol(I, st, "runtime-missing", "the run time of a task that may have succeeded and been running is not recorded", cx)
            else:
                self.discharge("runtime-times", "once per success, else not at all")
            self.see("finished handled")

    def exit(self, I, st, cx):
        self.see("normal exit")


def service(P, rep, R, preset, field):
    b = R.serve
    g = Stats(P, rep, R, "serve", "avg")
    g.field = field
    g.preset = preset
    g.opaque = tuple(x for x in Ledger.opaque if x != "checked_sub")
    g.selfroot = mk("SYM", "param:self", (b.key, 0))
    out = g.start(b, CAP=CAP, HEADCAP=HEADCAP)
    for s, v in out:
        if v.k == "AGG" and v.a[2] == "Err":
            continue
        g.boundary(g.I, s, g.I.rootcx(b, 0), "the service returns")
        g.exit(g.I, s, g.I.rootcx(b, 0))
    rep.take(g.I, g)
    for k, x in g.seen.items():
        rep.count("service: " + k, x)
    rep.floor("unready counter updates", g.seen.get("unready down", 0), 1)
    rep.floor("run times recorded", g.seen.get("run time recorded", 0), 1)
    rep.floor("finished events handled", g.seen.get("finished handled", 0), 1)


# ------------------------------------------------------------------ dispatch
class Launch(Base):
    opaque = ("RateCounter::update", "RateLimiter::until_ready")

    def __init__(self, P, rep, R):
        super().__init__(P, rep)
        self.R = R
        self.n = 0

    def init(self):
        return 0

    def part(self, st):
        return st.auto

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.path.endswith("RateCounter::update"):
            self.n += 1
            v = I.canon(st, ev.args[1])
            if not iscall(v, "Instant::now", "now"):
                self.viol(I, st, "launch-time", "a launch is counted at %s" % show(v)[:80], ev.cx)
            if not (has(I.canon(st, ev.args[0]), lambda t: t.k == "SYM" and t.a[0] == "param:self")):
                self.viol(I, st, "launch-other", "a launch is counted on %s" % show(ev.args[0])[:80], ev.cx)
            st.auto = min(2, st.auto + 1)
        return True


def dispatch(P, rep, R):
    g = Launch(P, rep, R)
    n = 0
    for st, v in g.start(R.recv):
        cx = g.I.rootcx(R.recv, 0)
        vs = st.variants(v, RES)
        want = {"Ok": 1, "Err": 0}
        if vs is None or len(vs) != 1:
            if st.auto != 0:
                g.viol(g.I, st, "launch-count", "a launch is counted on a path that may fail to hand out a task", cx)
            elif vs is None:
                g.viol(g.I, st, "launch-count", "a task may be handed out uncounted", cx)
            continue
        k = next(iter(vs))
        if st.auto != want[k]:
            g.viol(g.I, st, "launch-count", "%s is counted as %d launches" % ("a task handed out" if k == "Ok" else "an attempt that hands out nothing", st.auto), cx)
        else:
            g.discharge("launch-count", "one per task handed out")
        n += k == "Ok"
    rep.take(g.I, g)
    rep.floor("ways to hand out a task", n, 1)


# ------------------------------------------------------------------ the rate estimate
def fl(v, env):
    v = peel(v)
    for p, x in env:
        if p(v):
            return x
    if v.k == "C":
        x = v.a[0]
        if type(x) in (int, float):
            return float(x)
        try:
            return float(str(x).replace("_f64", "").replace("f64", "").replace("_", ""))
        except ValueError:
            return None
    if v.k == "CAST":
        return fl(v.a[1] if type(v.a[1]) is V else v.a[0], env)
    if v.k == "OP":
        a = [fl(x, env) for x in v.a[1:3]]
        o = v.a[0]
        if o in ("neg", "Neg"):
            return None if a[0] is None else -a[0]
        if None in a:
            return None
        try:
            return {"Add": a[0] + a[1], "Sub": a[0] - a[1], "Mul": a[0] * a[1]}[o] if o != "Div" else a[0] / a[1]
        except KeyError:
            return {"Lt": a[0] < a[1], "Le": a[0] <= a[1], "Gt": a[0] > a[1], "Ge": a[0] >= a[1], "Eq": a[0] == a[1], "Ne": a[0] != a[1]}.get(o)
        except ZeroDivisionError:
            return None
    if v.k == "NOT":
        a = fl(v.a[0], env)
        return None if a is None else not a
    if v.k == "CALL":
        a = [fl(x, env) for x in v.a[2]]
        if None in a:
            return None
        m = key(v)
        f = {"exp": math.exp, "exp_m1": math.expm1, "exp2": lambda x: 2.0 ** x, "recip": lambda x: 1 / x, "neg": lambda x: -x, "as_secs_f64": lambda x: x, "ln": math.log, "sqrt": math.sqrt, "abs": abs}.get(m)
        try:
            if f and len(a) == 1:
                return f(a[0])
            if len(a) == 2:
                return {"sub": lambda: a[0] - a[1], "duration_since": lambda: a[0] - a[1], "saturating_duration_since": lambda: max(0., a[0] - a[1]), "add": lambda: a[0] + a[1], "mul": lambda: a[0] * a[1], "div": lambda: a[0] / a[1], "max": lambda: max(a), "min": lambda: min(a),
                        "powf": lambda: a[0] ** a[1]}[m]()
            if m == "mul_add":
                return a[0] * a[1] + a[2]
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return None
    return None


def holds(st, env):
    for k, (mode, vals) in st.facts.items():
        if k.k == "DISCR":
            continue
        b = fl(k, env)
        if b is None:
            continue
        if (b in vals) != (mode == "in"):
            return False
    return True


class Upd(Quiet):
    def init(self):
        return (None, None)

    def on(self, I, st, ev):
        if ev.kind == "write":
            names = [e[1] for e in ev.args[1] if e[0] == "f"]
            if names[-1:] == ["lambda_last"]:
                st.auto = (I.canon(st, ev.val), st.auto[1])
            elif names[-1:] == ["t_last"]:
                st.auto = (st.auto[0], I.canon(st, ev.val))
            elif not names and ev.val is not None and ev.val.k == "AGG" and "lambda_last" in (ev.val.a[3] or ()):
                d = dict(zip(ev.val.a[3], ev.val.a[4]))
                st.auto = (I.canon(st, d["lambda_last"]), I.canon(st, d["t_last"]))
        return True


def close(a, b):
    return a is not None and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


POINTS = [(0.1, 1.5, 0.0, 10.0, 12.5), (2.0, 0.25, 0.0, 3.0, 3.0), (0.02, 40.0, 5.0, 105.0, 110.0), (1.0, 0.0, 0.0, 0.0, 4.0), (0.5, 7.0, 2.0, 2.0, 2.0)]  # k, lambda, t0, t_last, now


def envof(k, lam, t0, tl, now):
    f = lambda n: lambda v: v.k == "FLD" and v.a[1] == n
    return [(f("k"), k), (f("lambda_last"), lam), (f("t0"), t0), (f("t_last"), tl), (lambda v: v.k == "CALL" and key(v) == "now" or v.k == "SYM" and v.a[0] == "param:now", now)]


def estimate(P, rep):
    b = P.fn("RateCounter::update", "execgraph")
    g = Upd(P, rep)
    exits = g.start(b)
    for pt in POINTS:
        k, lam, t0, tl, now = pt
        e = envof(*pt)
        hit = [st for st, v in exits if holds(st, e)]
        for st in hit or [None]:
            x = fl(st.auto[0], e) if st is not None and st.auto[0] is not None else None
            t = fl(st.auto[1], e) if st is not None and st.auto[1] is not None else None
            rep.need(close(x, k + math.exp(-k * (now - tl)) * lam), "rate-update", "after an event at %s the rate estimate is 1/tau + the decayed old one (k=%s, old %s at %s): it is %s" % (now, k, lam, tl, x), loc(b))
            rep.need(close(t, now), "rate-time", "the time of the last event is the time of this event", loc(b))
    rep.take(g.I, g)
    b = P.fn("RateCounter::get_rate", "execgraph")
    g = Quiet(P, rep)
    exits = g.start(b)
    for pt in POINTS:
        k, lam, t0, tl, now = pt
        e = envof(*pt)
        den = 1 - math.exp(-k * (now - t0))
        want = math.exp(-k * (now - tl)) * lam / den if den > 0 else 0.0
        hit = [(st, v) for st, v in exits if holds(st, e)]
        for st, v in hit or [(None, None)]:
            x = fl(g.I.canon(st, v), e) if st is not None else None
            rep.need(close(x, want), "rate-value", "the rate at %s is the decayed estimate over 1 - e^(-age/tau), or 0 at age 0: (k=%s, %s at %s, since %s) it is %s, not %s" % (now, k, lam, tl, t0, x, want), loc(b))
    rep.take(g.I, g)
    b = P.fn("RateCounter::new", "execgraph")
    g = Quiet(P, rep)
    for st, v in g.start(b):
        v = g.I.canon(st, v)
        d = {}
        for x in subterms(v):
            if x.k == "AGG" and x.a[3]:
                d.update(zip(x.a[3], (g.I.canon(st, y) for y in x.a[4])))
        for tau in (0.5, 8.0, 600.0):
            rep.need("k" in d and close(fl(d["k"], [(lambda v: v.k == "SYM" and v.a[0].startswith("param:"), tau)]), 1 / tau), "rate-new", "the decay rate is 1/tau", loc(b))
        rep.need("lambda_last" in d and close(fl(d["lambda_last"], []), 0.0), "rate-new", "the estimate starts at 0", loc(b))
        rep.need(all(n in d and iscall(d[n], "Instant::now", "now") for n in ("t0", "t_last")), "rate-new", "the times start at now", loc(b))
    rep.take(g.I, g)


# ------------------------------------------------------------------
def check(P, rep):
    R = Roles(P)
    h = P.fn("status_handler", "execgraph")
    s = Status(P, rep)
    s.check_out = s.start(h)
    s.check(s.I, s.check_out, h)
    rep.take(s.I, s)
    rep.floor("requests for the queues", s.asked, 1)
    # what the client is made of
    n, res = server_values(P, rep, R)
    field = None
    pre = True
    for st, a, b in res:
        cl = lambda f: n.I.canon(st, proj(b, ("f", f, None)))
        src = proj(cl("n_unready_tasks"), ("f", "value", None))
        names = [x for x in (a.a[3] if a.k == "AGG" else ()) if same_arc(n.I, st, proj(a, ("f", x, None)), src)]
        rep.need(len(names) == 1, "client-unready", "the client's number of unready tasks is a counter of the scheduler", loc(R.new))
        field = names[0] if len(names) == 1 else field
        t = cl("n_total_tasks")
        while t.k == "CAST":
            t = t.a[1]
        rep.need(istotal(R, t), "client-total", "the client's number of tasks is the number of tasks in the graph: %s" % show(t)[:80], loc(R.new))
        cap = proj(a, ("f", "recently_inflight_elapsed_time", None))
        vb = proj(cl("recently_inflight_elapsed_time"), ("f", "buffer", None))
        rep.need(same_arc(n.I, st, proj(cap, ("f", "buffer", None)), vb), "client-runtimes", "the client reads the scheduler's own run-time buffer", loc(R.new))
        init = [x for x in subterms(n.I.canon(st, src)) if x.k == "CALL" and "Atomic" in x.a[0] and key(x) == "new"]
        pre = pre and len(init) == 1 and istotal(R, uncast(init[0].a[2][0]))
    if field is None:
        return
    service(P, rep, R, pre, field)
    dispatch(P, rep, R)
    estimate(P, rep)


def uncast(x):
    while x.k == "CAST":
        x = x.a[1]
    return peel(x)


def istotal(R, t):
    t = uncast(t)
    return (t.k == "CALL" and key(t) in ("len", "count", "node_count") or t.k == "OP" and t.a[0] == "len") and (has(t, lambda u: iscall(u, "Graph::node_indices", "Graph::node_count")) or R.fieldname(t.a[1] if t.k == "OP" else t.a[2][0]) == R.statuses)


def same_arc(I, st, a, b):
    a, b = (I.canon(st, x) for x in (a, b))
    for _ in range(4):
        a, b = (peel(x.a[2][0]) if x.k == "CALL" and key(x) == "clone" else peel(x) for x in (a, b))
    return a is b
