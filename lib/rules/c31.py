"""C31: the preamble and the postamble of a task run once each, with the right arguments."""
from servicer import *
from ledger import run_ledger
from txn import Srv
import frame
RULE = ("Every path of the local runner loop and of every routed handler of the main server: between a request that handed out a task and the first spawn, start report, "
        "registration of a transaction, next request or return, the preamble function is called exactly once, on the definition of the task handed out and nothing else. "
        "Service loop, per Finished event: the postamble function is called once, on the finished task's definition, with success exactly when its status is exit code 0, the "
        "task's run count and the number of nodes of the graph. Both functions: when the field is set the capsule is called once with the arguments passed on (the preamble: "
        "no success, 0, 0), when it is not set nothing is called, and they return normally only if the call gave Ok(0). The capsule: the pointer called is what "
        "PyCapsule_GetPointer gave for it and its arguments are the capsule's context, success, run count, 0, number of tasks, only after PyCapsule_CheckExact and "
        "PyCapsule_IsValid accepted it; otherwise the result is an error.")
ASSUME = ["the function the capsule holds does not unwind", "the C API of Python's capsules does what its documentation says"]
PKEYS = {"postamble-task", "postamble-success", "postamble-count", "postamble-args"}


def amble(P, name):
    r = [b for b in P.by_path(name, "execgraph", "fn") if "Cmd" in b.df.npath]
    if len(r) != 1:
        raise AnchorError("Cmd::" + name)
    return r[0]


def ofcmd(R, v, t, inner=False):
    """v is the definition of task t: the graph's weight at t, or a clone of it"""
    v = peel(v)
    while v.k == "CALL" and v.a[0].split("::")[-1] in ("clone", "deref", "as_ref", "borrow", "unwrap", "expect", "node_weight", "to_owned", "as_deref") and v.a[2] and len(v.a[2]) == 1 or v.k in ("DEREF", "VF"):
        v = peel(v.a[2][0] if v.k == "CALL" else v.a[0])
    return v.k == "CALL" and v.a[0].split("::")[-1] in ("index", "node_weight") and len(v.a[2]) == 2 and peel(v.a[2][1]) is t


class Once31(Base):
    # auto: (value of the last request, preamble calls)
    def __init__(self, P, rep, R, pre, spots, local):
        super().__init__(P, rep)
        self.R = R
        self.pre = pre.df.npath
        self.recv = R.recv.df.npath
        self.spots = spots
        self.local = local
        self.opaque = tuple("::".join(x.split("::")[-2:]) for x in (self.recv, self.pre) + spots) + ("CancellationToken::soft_cancelled", "CancellationToken::hard_cancelled", "AsyncFlag::wait")
        self.n = {}

    def init(self):
        return (None, 0)

    def part(self, st):
        r = st.auto[0]
        return (st.auto, r is not None and tuple(sorted(st.variants(r, RES) or ())))

    def keepfact(self, st, k):
        return st.auto[0] is not None and k.k == "DISCR" and k.a[0] is st.auto[0]

    def task(self, st):
        r = st.auto[0]
        if r is None:
            return None
        vs = st.variants(r, RES)
        if vs is not None and "Ok" not in vs:
            return None
        return proj(proj(r, ("v", "Ok")), ("f", "0", 0))

    def due(self, I, st, cx, what):
        if self.task(st) is None:
            return
        if st.auto[1] != 1:
            self.viol(I, st, "preamble-count", "%s after %s preamble calls for the task that was handed out" % (what, ("no", "one", "several")[st.auto[1]]), cx)
        else:
            self.discharge("preamble-once:" + cx.body.df.npath, "one preamble call before " + what)
            self.n["tasks"] = self.n.get("tasks", 0) + 1

    def on(self, I, st, ev):
        k = ev.kind
        a = st.auto
        if k == "await" and ev.args and ev.args[0].k == "CALL":
            p = ev.args[0].a[0]
            if p == self.recv:
                self.due(I, st, ev.cx, "the next request")
                st.auto = (ev.val, 0)
                self.n["requests"] = self.n.get("requests", 0) + 1
            elif p in self.spots and self.local:
                self.due(I, st, ev.cx, "a report for the task")
            return True
        if k == "call" and ev.path == self.pre:
            t = self.task(st)
            if t is None:
                self.viol(I, st, "preamble-no-task", "a preamble is called although no task was handed out", ev.cx)
            elif not ofcmd(self.R, I.canon(st, ev.args[0]), t):
                self.viol(I, st, "preamble-other", "the preamble called is that of %s, not of the task that was handed out" % show(I.canon(st, ev.args[0]))[-90:], ev.cx)
            else:
                self.discharge("preamble-of:" + ev.cx.body.df.npath, "the preamble of the task that was handed out")
                self.n["calls"] = self.n.get("calls", 0) + 1
            st.auto = (a[0], min(2, a[1] + 1))
            return True
        if k == "call" and self.local and ev.path and ev.path.startswith(("tokio::process::Command::", "std::process::Command::")) and ev.path.split("::")[-1] in ("spawn", "status", "output"):
            self.due(I, st, ev.cx, "a process is started")
        if k == "call" and not self.local and ev.path and "dashmap" in ev.path and ev.path.split("::")[-1] in ("insert", "insert_entry", "or_insert") and ev.args and \
                has(I.canon(st, ev.args[0]), self.S.isconns):
            self.due(I, st, ev.cx, "the transaction is registered")
        return True

    def finish(self, I, out, body):
        for st, v in out:
            vs = st.variants(v, RES)
            if v.k == "AGG" and v.a[1] == RES and v.a[2] == "Err":
                continue
            self.due(I, st, I.rootcx(body, 0), "the return")
        self.rep.take(I, self)


class Amble(Base):
    """Cmd::call_preamble / call_postamble"""
    # auto: (calls 0..2, result)
    def __init__(self, P, rep, field, want, what, capsule):
        super().__init__(P, rep)
        self.field = field
        self.want = want
        self.what = what
        self.cap = capsule.df.npath
        self.opaque = ("::".join(self.cap.split("::")[-2:]), "Cmd::display")
        self.n = 0

    def init(self):
        return (0, None)

    def part(self, st):
        return (st.auto, self.isset(st))

    def keepfact(self, st, k):
        return True

    def isset(self, st):
        for k in st.facts:
            if k.k == "DISCR":
                t = peel(k.a[0])
                while t.k == "CALL" and t.a[0].split("::")[-1] in ("as_ref", "as_deref", "clone") and t.a[2]:
                    t = peel(t.a[2][0])
                if t.k == "FLD" and t.a[1] == self.field and peel(t.a[0]).k == "SYM" and peel(t.a[0]).a[0] == "param:self":
                    vs = st.variants(k.a[0], OPT)
                    return None if vs is None or len(vs) > 1 else "Some" in vs
        return None

    def on(self, I, st, ev):
        if ev.kind == "ret" and ev.path == self.cap:
            a = [I.canon(st, x) for x in ev.args]
            s = peel(a[0])
            base = [x for x in subterms(s) if x.k == "FLD" and x.a[0].k in ("SYM", "DEREF")]
            if [x.a[1] for x in base] != [self.field]:
                self.viol(I, st, self.what + "-field", "the capsule called is %s, not the task's own %s" % (show(s)[:80], self.what), ev.cx)
            bad = [i for i, (x, w) in enumerate(zip(a[1:], self.want)) if not w(x, st)]
            if bad or len(a) != len(self.want) + 1:
                self.viol(I, st, self.what + "-arguments", "argument %s of the %s is %s" % (bad[0] + 1 if bad else "?", self.what, show(a[1 + bad[0]])[:60] if bad else len(a)), ev.cx)
            st.auto = (min(2, st.auto[0] + 1), ev.val)
            self.n += 1
        return True

    def finish(self, I, out, body):
        cx = I.rootcx(body, 0)
        for st, v in out:
            n, r = st.auto
            s = self.isset(st)
            if s is not False and n != 1:
                self.viol(I, st, self.what + "-calls", "the %s is set and the function returns after %d calls of it" % (self.what, n), cx)
            elif s is False and n:
                self.viol(I, st, self.what + "-calls", "the %s is not set and something is called" % self.what, cx)
            elif n == 1:
                ok = st.variants(r, RES) == frozenset(["Ok"])
                code = payload(r, "Ok")
                zero = st.ev(op("Eq", code, C(0)))
                if not ok or zero is not True:
                    self.viol(I, st, self.what + "-failure", "the function returns normally although the %s %s" % (self.what, "may have given a code other than 0" if ok else "could not be called"), cx)
                else:
                    self.discharge(self.what + "-called", "called once, returned normally with code 0 only")
            else:
                self.discharge(self.what + "-unset", "nothing is called when the task has none")
        self.rep.take(I, self)


def isparam(i, body):
    nm = "param:%s" % (body.locals[i + 1][1] or "arg%d" % (i + 1))
    return lambda v, st: v.k == "SYM" and v.a[0] == nm


class Call(Base):
    """Capsule::call"""
    def __init__(self, P, rep, body):
        super().__init__(P, rep)
        self.body = body
        self.n = 0

    def keepfact(self, st, k):
        return True

    def init(self):
        return (0, None, None)

    def part(self, st):
        return (st.auto, tuple(sorted(show(k) + str(v[0]) + ",".join(sorted(map(str, v[1]))) for k, v in st.facts.items())))

    def handed(self, t, st, i, wide=False):
        """t is the i-th parameter"""
        p = isparam(i, self.body)
        while t.k == "CAST":
            t = t.a[0]
        if p(t, st):
            return True
        if t.k == "CALL" and t.a[0].split("::")[-1] in ("from", "into") and len(t.a[2]) == 1:
            return p(t.a[2][0], st)
        if wide and t.k == "C":
            for k, f in st.facts.items():
                if p(k, st) and f in (("in", frozenset([True])), ("in", frozenset([False]))):
                    return int(next(iter(f[1]))) == int(t.a[0])
        return False

    def own(self, t):
        """t is the capsule's own object"""
        t = peel(t)
        return has(t, lambda x: x.k == "FLD" and peel(x.a[0]).k == "SYM" and peel(x.a[0]).a[0] == "param:self")

    def holds(self, st, name):
        for k, f in st.facts.items():
            if f == ("in", frozenset([True])) and self.positive(k, name, True) or f == ("in", frozenset([False])) and self.positive(k, name, False):
                return True
            if k.k == "CALL" and k.a[0].split("::")[-1] == name and self.own(k.a[2][0]) and (f[0] == "notin" and 0 in f[1] or f[0] == "in" and 0 not in f[1]):
                return True
        return False

    def positive(self, k, name, val):
        """the fact k == val says the call of that name gave a value other than 0"""
        if k.k != "OP" or len(k.a) < 3:
            return False
        def isc(t):
            while t.k == "CAST":
                t = t.a[0]
            return t.k == "CALL" and t.a[0].split("::")[-1] == name and self.own(t.a[2][0])
        o, a, b = k.a[0], k.a[1], k.a[2]
        def con(t):
            return t.a[0] if t.k == "C" else None
        F = {"Gt": lambda x, y: x > y, "Lt": lambda x, y: x < y, "Ge": lambda x, y: x >= y, "Le": lambda x, y: x <= y, "Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y}.get(o)
        if F is None:
            return False
        if isc(a) and con(b) is not None:
            return F(0, con(b)) is not val
        if isc(b) and con(a) is not None:
            return F(con(a), 0) is not val
        return False

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path == "dyncall":
            a = [I.canon(st, x) for x in ev.args]
            f = a[0]
            while f.k == "CAST":
                f = f.a[0]
            self.n += 1
            st.auto = (min(2, st.auto[0] + 1),) + st.auto[1:]
            if f.k != "CALL" or f.a[0].split("::")[-1] != "PyCapsule_GetPointer" or not self.own(f.a[2][0]):
                self.viol(I, st, "capsule-pointer", "the function called is %s, not the pointer in the capsule" % show(f)[:80], ev.cx)
            want = ("the capsule's context", "success", "the run count", "0", "the number of tasks")
            ok = len(a) == 6 and (a[1].k == "CALL" and a[1].a[0].split("::")[-1] == "PyCapsule_GetContext" and self.own(a[1].a[2][0]),
                                  self.handed(a[2], st, 1, True), self.handed(a[3], st, 2), a[4].k == "C" and a[4].a[0] == 0, self.handed(a[5], st, 3))
            if ok is False:
                self.viol(I, st, "capsule-arguments", "the capsule's function is called with %d arguments" % (len(a) - 1), ev.cx)
            else:
                for w, k, x in zip(want, ok, a[1:]):
                    if not k:
                        self.viol(I, st, "capsule-arguments", "the capsule's function gets %s in place of %s" % (show(x)[:60], w), ev.cx)
            for n in ("PyCapsule_CheckExact", "PyCapsule_IsValid"):
                if not self.holds(st, n):
                    self.viol(I, st, "capsule-unchecked", "a pointer is called on a path where %s has not accepted the object" % n, ev.cx)
            self.discharge("capsule-call", "the capsule's own pointer, with its context, success, run count, 0 and the number of tasks, after both checks")
        return True

    def finish(self, I, out, body):
        cx = I.rootcx(body, 0)
        for st, v in out:
            if st.variants(v, RES) == frozenset(["Err"]) or v.k == "AGG" and v.a[2] == "Err":
                if st.auto[0]:
                    self.viol(I, st, "capsule-result", "the capsule was called and an error is returned", cx)
                continue
            p = I.canon(st, payload(v, "Ok"))
            if st.auto[0] != 1 or not (p.k == "CALL" and p.a[0] == "dyncall"):
                self.viol(I, st, "capsule-result", "the result is %s after %d calls, not what the capsule's function gave" % (show(p)[:60], st.auto[0]), cx)
            else:
                self.discharge("capsule-result", "the code the capsule's function gave")
        self.rep.take(I, self)


def check(P, rep):
    R = Roles(P)
    pre, post = amble(P, "call_preamble"), amble(P, "call_postamble")
    sst = [b for b in P.by_path("send_started", "execgraph", "fn") if "ReadyTrackerClient" in b.df.npath][0].df.npath
    sfi = [b for b in P.by_path("send_finished", "execgraph", "fn") if "ReadyTrackerClient" in b.df.npath][0].df.npath
    root = P.fn("run_local_process_loop", "execgraph")
    bodies = set()
    o = Once31(P, rep, R, pre, (sst, sfi), True)
    out = o.start(root, CAP=1, HEADCAP=1)
    o.finish(o.I, out, root)
    bodies |= o.I.seen_bodies
    for n in ("requests", "calls", "tasks"):
        rep.floor("local runner: " + n, o.n.get(n, 0), 1)
    S = Srv(P, R)
    tot = {}
    for b in {id(x[2]): x[2] for x in S.routes}.values():
        o = Once31(P, rep, R, pre, (sst, sfi), False)
        o.S = S
        out = o.start(b, CAP=1, HEADCAP=1)
        o.finish(o.I, out, b)
        bodies |= o.I.seen_bodies
        for n in ("requests", "calls", "tasks"):
            tot[n] = tot.get(n, 0) + o.n.get(n, 0)
    for n in ("requests", "calls", "tasks"):
        rep.floor("handlers: " + n, tot.get(n, 0), 1)
    ism = lambda path: path == pre.df.npath
    outside(P, rep, R, bodies, "analysed as part of the local runner or a handler", scan.calls(P, ism, "execgraph"), "preamble-callers", "a preamble is called in %s, outside the local runner and the handlers")
    g = run_ledger(P, rep, R, PKEYS, "count")
    rep.floor("postamble calls seen", sum(1 for k in rep.obs if k.startswith("postamble-args")), 1)
    cap = P.fn("Capsule::call", "execgraph")
    zero = lambda v, st: v.k == "C" and v.a[0] == 0 and v.a[0] is not False
    no = lambda v, st: v is FALSE
    if not {"preamble", "postamble"} <= {f["name"] for f in fields(adt(P, "Cmd"))}:
        raise AnchorError("the fields of a task that hold its preamble and its postamble")
    for body, what, want in ((pre, "preamble", (no, zero, zero)), (post, "postamble", tuple(isparam(i, post) for i in (1, 2, 3)))):
        a = Amble(P, rep, what, want, what, cap)
        out = a.start(body)
        a.finish(a.I, out, body)
        rep.floor(what + " calls seen", a.n, 1)
    c = Call(P, rep, cap)
    out = c.start(cap)
    c.finish(c.I, out, cap)
    rep.floor("capsule calls seen", c.n, 1)
