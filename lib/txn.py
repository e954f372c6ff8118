"""Remote transactions: the handlers of the main server and the ping reaper."""
from servicer import *


def named_client(P, name):
    r = [b for b in P.by_path(name, "execgraph", "fn") if "ReadyTrackerClient" in b.df.npath]
    if len(r) != 1:
        raise AnchorError("ReadyTrackerClient::" + name)
    return r[0].df.npath


class Srv:
    """anchors in the main server"""

    def __init__(self, P, R):
        self.P = P
        self.R = R
        c = []
        for a in local_adts(P):
            if a["enum"]:
                continue
            for f in fields(a):
                t = f["ty"]
                if t.k == "adt" and t.name == "DashMap" and len(t.a) > 1 and t.a[1].k == "adt" and t.a[1].d.key in P.adts:
                    v = P.adts[t.a[1].d.key]
                    if not v["enum"] and any(g["ty"].k == "adt" and g["ty"].name == "NodeIndex" for g in fields(v)) and any(g["ty"].k == "adt" and g["ty"].name == "Cmd" for g in fields(v)):
                        c.append((a, f["name"], v))
        if len(c) != 1:
            raise AnchorError("the map of open transactions, found %d" % len(c))
        self.S, self.conns, self.CS = c[0]
        self.cspath = self.CS["def"].npath
        isn = lambda t, n: t.k == "adt" and t.name == n
        self.c_node = fieldof(P, self.CS, lambda t: isn(t, "NodeIndex"), "task id of a transaction")
        self.c_cmd = fieldof(P, self.CS, lambda t: isn(t, "Cmd"), "task of a transaction")
        self.c_timer = fieldof(P, self.CS, lambda t: isn(t, "TimerID"), "timer of a transaction")
        self.c_bools = [f["name"] for f in fields(self.CS) if f["ty"].k == "bool"]
        self.timeouts = fieldof(P, self.S, lambda t: isn(t, "TimeWheel"), "timers of the server")
        self.recv = R.recv.df.npath
        self.sst = named_client(P, "send_started")
        self.sfi = named_client(P, "send_finished")
        self.router = P.fn("server::router", "execgraph")
        self.routes = routes(P, self.router)
        self.reaper = P.fn("reap_pings_forever", "execgraph")

    def isconns(self, v):
        v = peel(v)
        return self.R.fieldname(v) == self.conns

    OPAQUE = ("CancellationToken::hard_cancelled", "CancellationToken::soft_cancelled", "Cmd::call_preamble", "Cmd::call_postamble", "AsyncFlag::wait")

    def opaque(self):
        return tuple("::".join(x.split("::")[-2:]) for x in (self.recv, self.sst, self.sfi)) + self.OPAQUE


def routes(P, router):
    """[(path, method, handler body)] of a router function"""
    out = []

    class Rt(Rule):
        def on(self, I, st, ev):
            if ev.kind == "call" and ev.path == "axum::Router::route":
                p = I.canon(st, ev.args[1])
                for x in subterms(I.canon(st, ev.args[2])):
                    if x.k == "CALL" and x.a[0].startswith("axum::routing::"):
                        for y in x.a[2]:
                            if y.k == "FN":
                                b = P.bodies.get(y.a[0])
                                if b is not None:
                                    out.append((p.a[0] if p.k == "C" else None, x.a[0].split("::")[-1], b))
            if ev.kind == "call" and ev.path == "axum::Router::fallback":
                f = I.canon(st, ev.args[1])
                if f.k == "FN" and f.a[0] in P.bodies:
                    out.append((None, "fallback", P.bodies[f.a[0]]))
            return True
    I = Interp(P, Rt())
    I.root(router)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


ENDS = ("rev", "enumerate", "map", "inspect", "cloned", "copied", "peekable", "fuse", "fst", "snd")


class Txn(Base):
    # auto: (claim, inserted key, removed and not yet reported, put aside, item in hand, reported start)
    def __init__(self, prog, rep, R, S, keys, role):
        super().__init__(prog, rep)
        self.R = R
        self.S = S
        self.keys = keys
        self.role = role
        self.opaque = S.opaque()
        self.n = {}

    def init(self):
        return (None, None, EMPTY, EMPTY, None, EMPTY)

    def part(self, st):
        return (st.auto, frozenset(x for x in st.auto[2] if self.live(st, x)))

    def keepfact(self, st, k):
        a = st.auto
        return a[0] is not None and k.k == "DISCR" and k.a[0] is a[0] or any(has(k, lambda t: t is x) for x in a[2])

    def V(self, I, st, key, msg, cx):
        if key.split(":")[0] in self.keys:
            self.viol(I, st, key, msg, cx)

    def good(self, key, what):
        if key.split(":")[0] in self.keys:
            self.discharge(key, what)

    def count(self, n):
        self.n[n] = self.n.get(n, 0) + 1

    def task(self, st):
        r = st.auto[0]
        if r is None:
            return None
        vs = st.variants(r, RES)
        if vs is not None and "Ok" not in vs:
            return None
        return proj(proj(r, ("v", "Ok")), ("f", "0", 0))

    def removed(self, v):
        """the removal a connection value v comes from"""
        for x in subterms(v):
            if x.k == "CALL" and "dashmap" in x.a[0] and x.a[0].split("::")[-1].startswith("remove") and x.a[2] and self.S.isconns(x.a[2][0]):
                return x
        return None

    def live(self, st, x):
        vs = st.variants(x, OPT)
        return vs is None or "Some" in vs

    def on(self, I, st, ev):
        k = ev.kind
        a = st.auto
        if a[2]:
            gone = frozenset(x for x in a[2] if not self.live(st, x))
            if gone:
                st.auto = a = a[:2] + (a[2] - gone,) + a[3:]
        if k == "yield":
            sending = ev.path == "await" and ev.args and iscall(ev.args[0], self.S.sfi.split("::")[-1])
            if self.task(st) is not None and a[1] is None:
                self.V(I, st, "suspend-claimed", "the request can be suspended (and dropped, when its client goes away) while a task is taken but not yet registered as an open transaction: the task would be lost", ev.cx)
            if not sending:
                for x in a[2]:
                    if self.live(st, x):
                        self.V(I, st, "suspend-removed", "the request can be suspended (and dropped) after a transaction was removed and before its task is reported finished: the report would be lost", ev.cx)
            if ev.path == "select" or not sending:
                self.boundary(I, st, ev.cx)
            return True
        if k == "await":
            c = ev.args[0]
            if c.k != "CALL":
                return True
            if c.a[0] == self.S.recv:
                if self.task(st) is not None and a[1] is None:
                    self.V(I, st, "claim-dropped", "another task is taken although the first is not registered", ev.cx)
                st.auto = (ev.val, None) + a[2:]
                self.count("requests for a task")
            elif c.a[0] == self.S.sfi:
                self.finished(I, st, c, ev.cx)
            elif c.a[0] == self.S.sst:
                self.started(I, st, c, ev.cx)
            return True
        if k in ("call", "ret") and ev.path and "dashmap" in ev.path and ev.args and self.S.isconns(I.canon(st, ev.args[0])) or \
                k in ("call", "ret") and ev.path and "dashmap" in ev.path and ev.args and has(I.canon(st, ev.args[0]), self.S.isconns):
            m = ev.path.split("::")[-1]
            if k == "call" and m in ("insert", "insert_entry", "or_insert"):
                self.insert(I, st, ev)
            elif k == "call" and m.startswith("remove"):
                x = [y for y in a[2] if self.live(st, y)]
                if x and (self.role == "reaper" or True):
                    self.V(I, st, "removed-lost", "a transaction is removed while the task of another removed one is not reported finished yet", ev.cx)
                    st.auto = a[:2] + (EMPTY,) + a[3:]
            elif k == "ret" and m.startswith("remove"):
                y = self.removed(ev.val) if ev.val is not None else None
                if y is not None:
                    st.auto = a[:2] + (a[2] | {y},) + a[3:]
                    self.count("removals")
                    self.removal(I, st, y, ev.cx)
            elif k == "call" and m in ("clear", "retain", "alter", "alter_all", "shrink_to_fit", "get_mut", "get", "iter", "entry", "contains_key", "len", "is_empty", "iter_mut", "view", "try_get", "try_get_mut"):
                if m in ("clear", "retain"):
                    self.V(I, st, "removed-lost", "open transactions are dropped by %s without their tasks being reported finished" % m, ev.cx)
            return True
        if k == "call" and ev.path and ev.args and ev.path.split("::")[-1] in ("push", "push_back", "insert", "push_front"):
            for z in ev.args[1:]:
                x = self.removed(I.canon(st, z))
                if x is not None and x in a[2]:
                    st.auto = a = a[:2] + (a[2] - {x}, a[3] | {x}) + a[4:]
            return True
        if k == "collect" and ev.val is not None:
            x = self.removed(I.canon(st, ev.val))
            if x is not None and x in a[2]:
                st.auto = a[:2] + (a[2] - {x}, a[3] | {x}) + a[4:]
            return True
        if k == "item" and ev.val is not None:
            x = self.removed(I.canon(st, ev.val))
            if x is not None and x in a[3]:
                self.batchend(I, st, ev.cx)
                bad = [s[0] for s in ev.args[0].a[1] if s[0] not in ENDS]
                if bad:
                    self.V(I, st, "reports-skipped", "the walk over the removed transactions leaves some out (%s)" % bad[0], ev.cx)
                st.auto = st.auto[:4] + (x,) + st.auto[5:]
            return True
        if k == "step" and a[4] is not None and self.removed_in(ev.args[0], a[4]):
            self.batchend(I, st, ev.cx)
            return True
        if k == "iterend":
            self.batchend(I, st, ev.cx) if a[4] is not None and self.removed_in(ev.args[0], a[4]) else None
            a = st.auto
            gone = frozenset(x for x in a[3] if self.removed_in(ev.args[0], x))
            if gone:
                st.auto = a[:3] + (a[3] - gone,) + a[4:]
            return True
        return True

    def removed_in(self, it, x):
        return has(it, lambda t: t is x)

    def batchend(self, I, st, cx):
        a = st.auto
        if a[4] is not None:
            self.V(I, st, "reports-skipped", "a removed transaction is passed over without its task being reported finished", cx)
            st.auto = a[:4] + (None,) + a[5:]

    def boundary(self, I, st, cx):
        a = st.auto
        if any(self.live(st, x) for x in a[2]) or a[3] or a[4] is not None:
            self.V(I, st, "removed-lost", "a transaction was removed and its task is not reported finished", cx)
            st.auto = a[:2] + (EMPTY, EMPTY, None) + a[5:]

    # ------------------------------------------------------------ registering
    def insert(self, I, st, ev):
        S, R = self.S, self.R
        a = st.auto
        t = self.task(st)
        if len(ev.args) < 2:
            return
        entry = not (len(ev.args) >= 3)
        key = I.canon(st, ev.args[1]) if not entry else None
        if entry:
            e = I.canon(st, ev.args[0])
            for x in subterms(e):
                if x.k == "CALL" and x.a[0].endswith("DashMap::entry") and len(x.a[2]) > 1:
                    key = I.canon(st, x.a[2][1])
        val = I.canon(st, ev.args[-1])
        if t is None:
            self.V(I, st, "registered-no-task", "a transaction is opened although no task was taken", ev.cx)
            return
        if a[1] is not None:
            self.V(I, st, "registered-twice", "one task is registered under two transactions", ev.cx)
        if I.canon(st, proj(val, ("f", S.c_node, None))) is not t:
            self.V(I, st, "registered-other", "the transaction is registered for %s, not for the task that was taken" % show(proj(val, ("f", S.c_node, None)))[-80:], ev.cx)
        c = I.canon(st, proj(val, ("f", S.c_cmd, None)))
        if not has(c, lambda x: x is t):
            self.V(I, st, "registered-other", "the transaction is registered with another task's definition: %s" % show(c)[:80], ev.cx)
        tm = I.canon(st, proj(val, ("f", S.c_timer, None)))
        tc = [x for x in subterms(tm) if x.k == "CALL" and any(y is key for y in x.a[2])] if key is not None else []
        armed = key is not None and has(tm, lambda x: x is key) or key is not None and any(f for f in a[5] if f[0] == "timer" and f[1] is key)
        for b in S.c_bools:
            v = I.canon(st, proj(val, ("f", b, None)))
            if v is not FALSE:
                self.V(I, st, "registered-begun", "a new transaction counts as begun already", ev.cx)
        st.auto = (a[0], key) + a[2:]
        self.count("registrations")
        self.good("registered:" + ev.cx.body.df.npath, "the transaction is opened for the task that was taken, before any suspension")

    # ------------------------------------------------------------ reports
    def finished(self, I, st, c, cx):
        S, R = self.S, self.R
        a = st.auto
        e = I.canon(st, c.a[2][1])
        i = I.canon(st, proj(e, ("f", R.e_id, None)))
        x = self.removed(i)
        if x is None or i.k not in ("FLD",) or i.a[1] != S.c_node:
            self.V(I, st, "finished-other", "a task is reported finished that is not the one of a transaction removed here: %s" % show(i)[-90:], cx)
            return
        if x is a[4]:
            st.auto = a[:4] + (None,) + a[5:]
        elif x in a[2]:
            st.auto = a[:2] + (a[2] - {x},) + a[3:]
        else:
            self.V(I, st, "finished-twice", "the task of a removed transaction is reported finished more than once", cx)
        self.count("finish reports")
        self.good("finished:" + cx.body.df.npath, "one finish report for the task of each removed transaction")
        s = proj(e, ("f", R.e_status, None))
        if self.role == "reaper":
            if s.k != "AGG" or s.a[2] not in ("Disconnected", "Cancelled"):
                self.V(I, st, "reaped-status", "a task whose runner was lost is reported with status %s" % show(s)[:60], cx)
        else:
            code = proj(proj(s, ("v", "Code")), ("f", "0", 0)) if s.k == "AGG" and s.a[2] == "Code" else None
            if code is None or not self.asked(I.canon(st, code), "status"):
                self.V(I, st, "end-status", "the status recorded is %s, not the one of the request" % show(s)[:60], cx)
            for f in ("stdout", "stderr", "values"):
                v = I.canon(st, proj(e, ("f", f, None)))
                if not self.asked(v, f):
                    self.V(I, st, "end-" + f, "the %s recorded is %s, not the one of the request" % (f, show(v)[:60]), cx)
            self.count("ends")

    def asked(self, v, f):
        """v is field f of the request"""
        v = peel(v)
        while v.k in ("CAST",):
            v = v.a[1]
        return v.k == "FLD" and v.a[1] == f and has(v, lambda t: t.k == "SYM" and t.a[0].startswith("param:"))

    def removal(self, I, st, x, cx):
        """at /end: the transaction named in the request, and only when the same job asks"""
        if self.role == "reaper":
            return
        key = I.canon(st, x.a[2][1]) if len(x.a[2]) > 1 else None
        if key is None or not self.asked(key, "transaction_id"):
            self.V(I, st, "end-other", "the transaction removed is %s, not the one of the request" % show(key)[:70] if key is not None else "?", cx)
        if not self.live(st, x):
            return
        same = False
        for f, v in st.facts.items():
            if f.k == "OP" and f.a[0] == "Eq" and v == ("in", frozenset([True])):
                p, q = f.a[1], f.a[2]
                for u, w in ((p, q), (q, p)):
                    if has(u, lambda t: t is x) and has(w, lambda t: t.k == "CALL" and t.a[0].endswith("HeaderMap::get")):
                        same = True
        if st.variants(x, OPT) == frozenset(["Some"]):
            self.count("ends checked")
            if not same:
                self.V(I, st, "end-other-job", "a transaction is closed by a request without the slurm job id of the request that opened it", cx)
            else:
                self.good("end-same-job", "a transaction is closed only by the job that opened it")

    def started(self, I, st, c, cx):
        S, R = self.S, self.R
        a = st.auto
        i = I.canon(st, c.a[2][1])
        base = i.a[0] if i.k == "FLD" and i.a[1] == S.c_node else None
        g = None
        if base is not None:
            for x in subterms(base):
                if x.k == "CALL" and x.a[0].split("::")[-1] in ("get_mut", "get", "map.get", "entry", "try_get_mut") and x.a[2] and S.isconns(x.a[2][0]):
                    g = x
        if g is None:
            self.V(I, st, "started-other", "a task is reported started that is not the one of an open transaction: %s" % show(i)[-90:], cx)
            return
        if not self.asked(I.canon(st, g.a[2][1]), "transaction_id"):
            self.V(I, st, "started-other", "the start is reported for another transaction than the one of the request", cx)
        for n, f in ((3, "host"), (4, "pid")):
            v = I.canon(st, c.a[2][n])
            if not self.asked(v, f):
                self.V(I, st, "begun-" + f, "the %s reported is %s, not the one of the request" % (f, show(v)[:60]), cx)
        once = False
        for b in S.c_bools:
            for ptr in self.pointers(st, base, g):
                now = st.load(ptr)
                now = proj(now, ("f", b, None))
                if now is TRUE:
                    was = [f for f, v in st.facts.items() if f.k == "FLD" and f.a[1] == b and has(f, lambda t: t is g) and v == ("in", frozenset([False]))]
                    once = once or bool(was)
        if not once:
            self.V(I, st, "started-twice", "a repeated request reports the start of the same transaction again: it is not known to be its first", cx)
        else:
            self.good("started-once", "the start of a transaction is reported once: the mark was clear and is set before")
        self.count("start reports")

    def pointers(self, st, base, g):
        out = []
        for r in st.mem:
            if r.k != "CELL" and has(r, lambda t: t is g):
                out.append(r)
        return out or [base]

    def finish(self, I, out, body):
        S = self.S
        for st, v in out:
            cx = I.rootcx(body, 0)
            a = st.auto
            self.boundary(I, st, cx)
            t = self.task(st)
            if t is not None and st.variants(a[0], RES) is not None:
                if a[1] is None:
                    self.V(I, st, "claim-dropped", "a task is taken and the request ends without registering it as an open transaction", cx)
                r = [x for x in subterms(I.canon(st, v)) if x.k == "AGG" and x.a[1] and x.a[1].split("::")[-1] == "StartResponse"]
                if not r:
                    self.V(I, st, "claim-not-answered", "a task is taken and registered but the answer does not carry it", cx)
                for x in r:
                    if I.canon(st, proj(x, ("f", "transaction_id", None))) is not a[1]:
                        self.V(I, st, "answer-other-id", "the answer carries another transaction id than the one registered", cx)
                    for f in ("cmdline", "fd_input"):
                        w = I.canon(st, proj(x, ("f", f, None)))
                        if not (has(w, lambda y: y is t) and has(w, lambda y: y.k == "FLD" and y.a[1] == f)):
                            self.V(I, st, "answer-other-task", "the %s answered is %s, not that of the task taken" % (f, show(w)[:70]), cx)
                    self.count("answers")
        self.rep.take(I, self)


C17KEYS = {"claim-dropped", "registered-no-task", "registered-twice", "registered-other", "registered-begun", "registered", "removed-lost", "reports-skipped",
           "finished-other", "finished-twice", "finished", "reaped-status", "end-status", "end-stdout", "end-stderr", "end-values", "end-other", "end-other-job",
           "end-same-job", "started-other", "started-twice", "started-once", "begun-host", "begun-pid", "claim-not-answered", "answer-other-id", "answer-other-task"}
C29KEYS = {"suspend-claimed", "suspend-removed"}


def run_txn(P, rep, R, keys):
    S = Srv(P, R)
    tot = {}
    hs = []
    for path, m, b in S.routes:
        if b not in hs:
            hs.append(b)
    for b in hs:
        t = Txn(P, rep, R, S, keys, "handler")
        out = t.start(b, CAP=1, HEADCAP=1)
        t.finish(t.I, out, b)
        for k, v in t.n.items():
            tot[k] = tot.get(k, 0) + v
    t = Txn(P, rep, R, S, keys, "reaper")
    out = t.start(S.reaper, CAP=1, HEADCAP=1)
    t.finish(t.I, out, S.reaper)
    for k, v in t.n.items():
        tot["reaper: " + k] = v
    return S, tot
