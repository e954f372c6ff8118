"""C24: nobody who waits for a flag or a counter is left asleep, and what they are told is not older than it should be."""
from servicer import *
import ledger
RULE = ("AsyncFlag::wait and AsyncCounter::wait, every path: they return only after a load for which the flag is true / the counter is above `from` (and return that load), they await only a listener of the same object, and between making that listener and awaiting it they load the value and find it not so. "
        "set makes the flag true and incr adds one or more to the counter, each followed before the return by a notification of all listeners of the same object; nothing else raises the value, and the value is private to these two types. "
        "Scheduler: whatever raises num_ready is followed, before the next event is received, by an increment of the counter that the client waits for (the constructor gives both the same); the flag of a Finished event is set before the next event is received, and after the increment. "
        "get_queuestate: waits for the counter to go above the given etag for at most the given timeout, returns a value that was loaded before the first queue counter is read, all queues with their own counters, and not before timemin. end_handler: before it looks for the next task it awaits the flag it put into the Finished event, in a select with the hard cancellation.")
ASSUME = ["event_listener: a notification of usize::MAX listeners made after listen() wakes that listener", "atomic loads and stores with the orderings used here are sequentially consistent (a weaker ordering is not reported)",
          "the clock and tokio's sleep are monotone"]
LOADS = ("load",)
RAISES = ("store", "fetch_add", "fetch_or", "swap", "fetch_max", "compare_exchange", "compare_exchange_weak", "fetch_update", "compare_and_swap", "fetch_xor", "fetch_nand", "fetch_sub", "fetch_and", "fetch_min")


def isatomic(path):
    return "Atomic" in path or "atomic" in path


def owner(I, st, v):
    """the object that the atomic or the event belongs to: the place without its last field"""
    v = I.placeof(st, v) if v.k == "REF" else v
    n = 4
    while v.k in ("DEREF",) and n:
        v = v.a[0]
        n -= 1
    if v.k == "REF":
        return (v.a[0], v.a[1][:-1])
    if v.k == "FLD":
        return v.a[0]
    return v


class Wait(Base):
    """auto: (loads made since the start or the last wake, listener, loads made since the listener)"""

    def __init__(self, prog, rep, name, counter):
        super().__init__(prog, rep)
        self.name = name
        self.counter = counter
        self.n = 0

    def init(self):
        return (None, None, None)

    def keepfact(self, st, k):
        return has(k, lambda t: t.k == "CALL" and isatomic(t.a[0]))

    def part(self, st):
        return (st.auto, tuple(sorted(map(str, ((show(k), f[0], sorted(map(str, f[1]))) for k, f in st.facts.items() if self.keepfact(st, k))))))

    def good(self, st, load):
        """True/False/None: the load satisfies the predicate"""
        if not self.counter:
            return st.ev(load)
        r = set()
        for v in (1, 2, 3):
            for f in (1, 2, 3):
                if possible(st, [(lambda t: t is load, v), (lambda t: t.k == "SYM" and t.a[0].startswith("param:") and t.a[0] != "param:self", f)]):
                    r.add(v > f)
        return r.pop() if len(r) == 1 else None

    def on(self, I, st, ev):
        last, lis, since = st.auto
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        if k == "ret" and isatomic(ev.path) and m in LOADS:
            own = owner(I, st, ev.args[0])
            st.auto = ((ev.val, own), lis, ev.val if lis is not None and lis[1] == own else None)
        elif k == "call" and isatomic(ev.path) and m in RAISES:
            self.viol(I, st, "writes:" + self.name, "%s changes the value it waits for (%s)" % (self.name, m), ev.cx)
        elif k == "ret" and m in ("listen", "new") and "event_listener" in ev.path and "Listener" in ev.path + "Listener" and ev.args and m == "listen":
            st.auto = (last, (ev.val, owner(I, st, ev.args[0])), None)
        elif k == "yield" and ev.args and ev.path == "await":
            f = ev.args[0]
            if lis is None or not has(I.canon(st, f), lambda t: t is lis[0]):
                self.viol(I, st, "awaits:" + self.name, "%s awaits %s, not a listener made on this path" % (self.name, show(f)[:60]), ev.cx)
            elif since is None:
                self.viol(I, st, "lost:" + self.name, "%s does not look at the value between making the listener and awaiting it: a change in between is missed" % self.name, ev.cx)
            elif self.good(st, since) is not False:
                self.viol(I, st, "sleeps:" + self.name, "%s sleeps on a path where the value it has read may already be what it waits for" % self.name, ev.cx)
            else:
                self.n += 1
        elif k == "await":
            st.auto = (None, None, None)
        elif k == "call" and m in ("wait", "wait_timeout", "wait_deadline") and "event_listener" in ev.path:
            self.viol(I, st, "blocks:" + self.name, "%s blocks the thread" % self.name, ev.cx)
        return True

    def final(self, I, st, v, cx):
        last = st.auto[0]
        if last is None:
            self.viol(I, st, "blind:" + self.name, "%s returns without having looked at the value since it was woken" % self.name, cx)
        elif self.good(st, last[0]) is not True:
            self.viol(I, st, "early:" + self.name, "%s returns although the value it has read need not be what it waits for" % self.name, cx)
        elif self.counter and peel(I.canon(st, v)) is not last[0]:
            self.viol(I, st, "value:" + self.name, "%s returns %s, not the value it has read" % (self.name, show(v)[:50]), cx)
        else:
            self.n += 1


class Notify(Base):
    """auto: (objects changed and not yet announced, changed at all)"""

    def __init__(self, prog, rep, name):
        super().__init__(prog, rep)
        self.name = name
        self.n = 0

    def init(self):
        return (frozenset(), False)

    def part(self, st):
        return st.auto

    def on(self, I, st, ev):
        if ev.kind != "call" or not ev.path:
            return True
        m = ev.path.split("::")[-1]
        open_, did = st.auto
        if isatomic(ev.path) and m in RAISES:
            a = [peel(I.canon(st, x)) for x in ev.args]
            if m in ("store", "swap") and a[1] is FALSE:
                return True
            if m in ("store", "swap") and a[1] is TRUE or m == "fetch_or" and a[1] is TRUE or m == "fetch_add" and a[1].k == "C" and type(a[1].a[0]) is int and a[1].a[0] > 0:
                st.auto = (open_ | {owner(I, st, ev.args[0])}, True)
            else:
                self.viol(I, st, "change:" + self.name, "%s changes the value in a way this rule does not know: %s(%s)" % (self.name, m, ", ".join(show(x)[:20] for x in a[1:])), ev.cx)
        elif "event_listener" in ev.path and m in ("notify", "notify_relaxed", "notify_additional", "notify_additional_relaxed"):
            n = peel(I.canon(st, ev.args[1]))
            # usize::MAX, or what is as good as that
            if n.k == "C" and type(n.a[0]) is int and n.a[0] >= (1 << 31) - 1 and not m.endswith("_relaxed"):
                st.auto = (open_ - {owner(I, st, ev.args[0])}, did)
        return True

    def final(self, I, st, must, cx):
        if st.auto[0]:
            self.viol(I, st, "untold:" + self.name, "%s returns without having notified all listeners after it changed the value" % self.name, cx)
        elif must and not st.auto[1]:
            self.viol(I, st, "nothing:" + self.name, "%s does not raise the value on some path" % self.name, cx)
        else:
            self.n += 1


class Serve(Base):
    """auto: (event under way, num_ready raised and not announced, its flag set)"""
    opaque = ledger.Ledger.opaque

    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.R = R
        self.seen = {}
        self.e_flag = fieldof(prog, R.E, lambda t: t.k == "adt" and t.name == "Option" and t.a and t.a[0].k == "adt" and t.a[0].name == "AsyncFlag", "flag of a finished event")
        self.counter = fieldof(prog, R.S, lambda t: t.k == "adt" and t.name == "AsyncCounter", "the scheduler's counter")

    def init(self):
        return (None, False, False)

    def see(self, k):
        self.seen[k] = self.seen.get(k, 0) + 1

    def flagfact(self, k):
        return k.k == "DISCR" and infield(k.a[0], self.e_flag)

    def keepfact(self, st, k):
        return self.flagfact(k)

    def part(self, st):
        if st.auto[0] is None:
            return st.auto
        return (self.kind(st), st.auto[1:], tuple(sorted(str((f[0], sorted(map(str, f[1])))) for k, f in st.facts.items() if self.flagfact(k))))

    def kind(self, st):
        v = st.variants(self.payload(st.auto[0]), self.R.eventpath)
        return "?" if v is None else "+".join(sorted(v))

    def payload(self, v):
        """the event itself inside what the receive gave"""
        return proj(proj(v, ("v", "Ok")), ("f", "0", 0))

    def boundary(self, I, st, cx):
        e, raised, done = st.auto
        if raised:
            self.viol(I, st, "unannounced", "num_ready was raised, and the next event is received without the counter that pollers wait for having been incremented", cx)
        if e is None:
            return
        R = self.R
        vs = st.variants(self.payload(e), R.eventpath)
        if vs is not None and R.v_fin not in vs:
            return
        none = any(self.flagfact(k) and f == ("in", frozenset(["None"])) for k, f in st.facts.items())
        if not done and not none:
            self.viol(I, st, "flag-unset", "a Finished event is done with, and its flag has not been set: an /end request that waits for it hangs", cx)
        else:
            self.see("flag")

    def on(self, I, st, ev):
        R = self.R
        k = ev.kind
        e, raised, done = st.auto
        if k == "yield" and ev.path == "await" or k == "call" and ev.path in R.RECVS and ev.args:
            x = I.canon(st, ev.args[0])
            if has(x, lambda t: R.fieldname(t) == R.completed):
                self.boundary(I, st, ev.cx)
                st.auto = (None, False, False)
        elif (k == "await" or k == "ret" and ev.path in R.TRYRECV) and R.is_event(ev.val):
            st.auto = (ev.val, False, False)
            self.see("event")
        elif k == "write":
            root, path = ev.args
            f = path[-1][1] if path and path[-1][0] == "f" else None
            if f == "num_ready" and ev.val is not C(0):
                self.see("raise")
                if done:
                    self.viol(I, st, "flag-early", "a task is made ready after the flag of the event was set", ev.cx)
                st.auto = (e, True, done)
        elif k == "call" and ev.path and ev.path.endswith("AsyncCounter::incr"):
            if infield(I.placeof(st, ev.args[0]), self.counter):
                self.see("incr")
                st.auto = (e, False, done)
        elif k == "call" and ev.path and ev.path.endswith("AsyncFlag::set"):
            if has(I.canon(st, ev.args[0]), lambda t: infield(t, self.e_flag)) or infield(I.placeof(st, ev.args[0]), self.e_flag) or has(I.placeof(st, ev.args[0]), lambda t: infield(t, self.e_flag)):
                if raised:
                    self.viol(I, st, "flag-early", "the flag of the event is set before the tasks made ready by it have been announced", ev.cx)
                st.auto = (e, raised, True)
        elif k == "ret" and ev.path and ev.path.split("::")[-1] in ("_rawlog", "flush_logging") or k == "ret" and ev.path and "LogFile" in ev.path and ev.path.split("::")[-1] in ("write", "flush"):
            return st.restrict(discr(ev.val, "std::result::Result"), ["Ok"])
        return True


class Query(Base):
    """get_queuestate; auto: (the waits made, loads before the first read of a queue, reading begun, slept until, loads after)"""
    opaque = ("AsyncCounter::wait", "AsyncCounter::load")

    def __init__(self, prog, rep, counter, queues):
        super().__init__(prog, rep)
        self.counter = counter
        self.queues = queues
        self.n = {}
        self.timed = set()

    def init(self):
        return (0, frozenset(), False, False, Each.ZERO)

    def keepfact(self, st, k):
        return k.k in ("OP", "CALL", "NOT")

    def part(self, st):
        return (st.auto, tuple(sorted(map(str, ((show(k), f[0], sorted(map(str, f[1]))) for k, f in st.facts.items() if self.keepfact(st, k))))))

    def mine(self, I, st, it):
        return any(infield(t, self.queues) for t in itsources(I, st, it))

    def on(self, I, st, ev):
        waits, loads, begun, slept, each = st.auto
        k = ev.kind
        if k == "yield" and ev.path == "timeout":
            d, f = (I.canon(st, x) for x in ev.args[0].a[2])
            if d.k == "SYM" and d.a[0] == "param:timeout" and f.k == "CALL" and f.a[0].endswith("AsyncCounter::wait") and infield(I.placeof(st, f.a[2][0]), self.counter) and I.canon(st, f.a[2][1]).k == "SYM" and I.canon(st, f.a[2][1]).a[0] == "param:etag":
                waits = min(2, waits + 1)
                self.timed.add(f)
            else:
                self.viol(I, st, "wait", "waits for %s for at most %s" % (show(f)[:60], show(d)[:40]), ev.cx)
        elif k == "yield" and ev.path == "await" and has(ev.args[0], lambda t: t.k == "CALL" and t.a[0].endswith("AsyncCounter::wait")):
            f = I.canon(st, ev.args[0])
            if f in self.timed:
                waits = min(2, waits + 1)
            else:
                self.viol(I, st, "wait", "waits for the counter without a time limit", ev.cx)
        elif k == "await" and ev.args and ev.args[0].k == "CALL" and ev.args[0].a[0].endswith("AsyncCounter::wait"):
            loads = loads | {ev.val} if not begun else loads
        elif k == "ret" and ev.path.endswith("AsyncCounter::load") and infield(I.placeof(st, ev.args[0]), self.counter):
            if not begun:
                loads = loads | {ev.val}
        elif k == "await" and ev.args and ev.args[0].k == "CALL" and ev.args[0].a[0].endswith(("time::sleep_until", "time::sleep")):
            if self.until(I, st, ev.args[0]):
                slept = True
        elif k in ("item", "step", "iterend", "itemout", "itemdone") and ev.args and self.mine(I, st, ev.args[0]):
            begun = True
            each = Each.on(I, st, ev, each, lambda it: self.mine(I, st, it))
        elif k == "collect" and each[0] is not None:
            if self.entry(I, st, ev.val):
                each = Each.use(each, ev.val)
                self.n["entry"] = 1
        elif k == "call" and ev.path.split("::")[-1] in ("get", "iter", "get_mut", "iter_mut") and ev.args and infield(I.placeof(st, ev.args[0]), self.queues):
            begun = True
        st.auto = (waits, loads, begun, slept, each)
        return True

    def entry(self, I, st, v):
        """a pair of a queue's key and its own counters"""
        v = peel(I.canon(st, v))
        if v.k != "AGG" or len(v.a[4]) != 2:
            return False
        a, b = (peel(I.canon(st, deref(st, x))) for x in v.a[4])
        ea = [t for t in subterms(a) if iscall(t, "elem")]
        eb = [t for t in subterms(b) if iscall(t, "elem")]
        return bool(ea and eb) and ea[0] is eb[0] and a is not b

    def until(self, I, st, f):
        """a sleep that ends no earlier than timemin after a time read in this call"""
        x = peel(I.canon(st, f.a[2][0]))
        p = lambda t: has(t, lambda u: u.k == "SYM" and u.a[0] == "param:timemin")
        now = lambda t: t.k == "CALL" and t.a[0].endswith("Instant::now")
        if f.a[0].endswith("sleep_until"):
            a = args2(x, "add", "Add")
            return a is not None and any(now(y) for y in a) and any(y.k == "SYM" and p(y) for y in a)
        a = args2(x, "sub", "Sub") or args2(x, "saturating_sub", "SatSub")
        if a is None:
            return x.k == "SYM" and p(x)
        return a[0].k == "SYM" and p(a[0]) and self.elapsed(a[1])

    def elapsed(self, x):
        now = lambda t: t.k == "CALL" and t.a[0].endswith("Instant::now")
        a = args2(x, "sub", "Sub")
        return a is not None and all(now(y) for y in a) or x.k == "CALL" and x.a[0].endswith("elapsed") and now(peel(x.a[2][0]))

    def enough(self, st):
        """a fact says that timemin has elapsed"""
        el = next((t for k in st.facts for t in subterms(k) if t.k in ("CALL", "OP") and self.elapsed(t)), None)
        if el is None:
            return False
        for e in (1, 2, 3):
            for m in (1, 2, 3):
                if e < m and possible(st, [(lambda t: t is el, e), (lambda t: t.k == "SYM" and t.a[0] == "param:timemin", m)]):
                    return False
        return True

    def final(self, I, st, v, cx):
        waits, loads, begun, slept, each = st.auto
        v = peel(I.canon(st, v))
        tag = peel(I.canon(st, v.a[4][0])) if v.k == "AGG" and len(v.a[4]) == 2 else None
        if tag is None or tag not in {peel(x) for x in loads}:
            self.viol(I, st, "etag", "the etag returned is %s, not a value of the counter from before the queues were read: a change in between is missed by the next poll" % (show(tag)[:50] if tag is not None else "?"), cx)
        elif waits != 1:
            self.viol(I, st, "unwaited", "the queues are reported without a wait for the counter", cx)
        elif each[3] is not True:
            self.viol(I, st, "some", "not every queue is reported once, with its own counters", cx)
        elif not slept and not self.enough(st):
            self.viol(I, st, "soon", "the queues are reported before timemin on some path", cx)
        else:
            self.n["exit"] = self.n.get("exit", 0) + 1


def args2(x, m, o):
    if x.k == "CALL" and x.a[0].split("::")[-1] == m and len(x.a[2]) == 2:
        return [peel(y) for y in x.a[2]]
    if x.k == "OP" and x.a[0] == o:
        return [peel(x.a[1]), peel(x.a[2])]
    return None


def deref(st, v, n=8):
    while v.k == "REF" and n:
        v = st.load(v)
        n -= 1
    return peel(v)


class End(Base):
    """auto: (flag sent, waited for it or cancelled)"""
    opaque = ("CancellationToken::hard_cancelled", "AsyncFlag::wait", "start_request_impl", "send_finished")

    def __init__(self, prog, rep, R, e_flag):
        super().__init__(prog, rep)
        self.R = R
        self.e_flag = e_flag
        self.selects = {}
        self.n = {}

    def init(self):
        return (None, False)

    def part(self, st):
        return st.auto

    def on(self, I, st, ev):
        flag, ok = st.auto
        k = ev.kind
        if k == "call" and ev.path.endswith("send_finished"):
            f = proj(I.canon(st, ev.args[1]), ("f", self.e_flag, None))
            f = peel(f)
            flag = f.a[4][0] if f.k == "AGG" and f.a[2] == "Some" else None
            ok = False
        elif k == "yield" and ev.path == "await" and ev.args and ev.args[0].k == "CALL":
            m = "::".join(ev.args[0].a[0].split("::")[-2:])
            if m in ("AsyncFlag::wait", "CancellationToken::hard_cancelled"):
                key = (ev.cx.body.key, ev.cx.span[:2])
                self.selects.setdefault(key, {})[m] = "%s:%d (in %s)" % (ev.cx.span[0], ev.cx.span[1], ev.cx.body.df.path)
        elif k == "await" and ev.args and ev.args[0].k == "CALL":
            c = ev.args[0]
            if c.a[0].endswith("AsyncFlag::wait"):
                w = peel(I.canon(st, deref(st, c.a[2][0])))
                if flag is not None and peel(I.canon(st, deref(st, flag))) is w:
                    ok = True
                    self.n["waited"] = 1
                else:
                    self.viol(I, st, "other-flag", "awaits a flag that is not in the Finished event it sent", ev.cx)
            elif c.a[0].endswith("hard_cancelled"):
                ok = True
        elif k == "call" and ev.path.endswith("start_request_impl"):
            if not ok:
                self.viol(I, st, "unwaited-end", "the next task is looked for before the end of the last one has been worked in", ev.cx)
            else:
                self.n["next"] = 1
        st.auto = (flag, ok)
        return True


def check(P, rep):
    R = Roles(P)
    S = R.S
    fns = {}
    for b in P.bodies.values():
        if b.kind == "fn" and b.key.startswith("execgraph::") and len(b.df.npath.split("::")) >= 2:
            fns.setdefault("::".join(b.df.npath.split("::")[-2:]), b)
    for x in ("AsyncFlag::wait", "AsyncFlag::set", "AsyncCounter::wait", "AsyncCounter::incr"):
        if x not in fns:
            raise AnchorError(x)
    for x, cnt in (("AsyncFlag::wait", False), ("AsyncCounter::wait", True)):
        w = Wait(P, rep, x, cnt)
        for st, v in w.start(fns[x]):
            w.final(w.I, st, v, w.I.rootcx(fns[x], 0))
        rep.take(w.I, w)
        rep.floor(x, w.n, 2)
    n = 0
    inner = []
    for x in ("AsyncFlag", "AsyncCounter"):
        inner += [f["ty"] for f in fields(adt(P, x))]
    ity = {t.a[0].path if t.name == "Arc" else t.path for t in inner if t.k == "adt"}
    for x, b in sorted(fns.items()):
        if x.split("::")[0] in ("AsyncFlag", "AsyncCounter") and not x.endswith(("::wait", "::fmt")) and b.vis:
            w = Notify(P, rep, x)
            for st, v in w.start(b):
                w.final(w.I, st, x in ("AsyncFlag::set", "AsyncCounter::incr"), w.I.rootcx(b, 0))
            rep.take(w.I, w)
            n += w.n
    rep.floor("notifiers", n, 2)
    # who else writes the value: any atomic write through a field of the inner type outside of these types' own methods
    for body, span, path, t in scan.calls(P, lambda p: isatomic(p) and p.split("::")[-1] in RAISES, "execgraph"):
        fn = scan.enclosing_fn(P, body)
        o = fn.df.npath.split("::")
        if body.df.npath.split("::")[0] == fns["AsyncFlag::wait"].df.npath.split("::")[0] and not (len(o) > 1 and o[-2] in ("AsyncFlag", "AsyncCounter")):
            # a helper in the same module: reached from the methods above, or unknown
            if not any(fn.df.npath == c[2] for c in scan.calls(P, lambda p: p == fn.df.npath, "execgraph")):
                rep.viol("writer:" + fn.df.path, "the value is written outside of AsyncFlag and AsyncCounter", "%s:%d (in %s)" % (span[0], span[1], fn.df.path))
    # the constructor
    k = Base(P, rep)
    seen = {}

    class New(Base):
        opaque = ("AsyncFlag::new", "AsyncCounter::new")

        def on(self, I, st, ev):
            if ev.kind == "agg" and ev.path in (R.S["def"].npath, adt(P, "ReadyTrackerClient")["def"].npath):
                a = adt(P, "ReadyTrackerServer") if ev.path == R.S["def"].npath else adt(P, "ReadyTrackerClient")
                for f in fields(a):
                    if f["ty"].k == "adt" and f["ty"].name in ("AsyncFlag", "AsyncCounter"):
                        seen.setdefault(f["ty"].name, {}).setdefault(ev.path, set()).add(peel(I.canon(st, proj(ev.val, ("f", f["name"], None)))))
            return True
    k = New(P, rep)
    k.start(R.new)
    rep.take(k.I, k)
    for ty in ("AsyncFlag", "AsyncCounter"):
        got = seen.get(ty, {})
        same = len(got) == 2 and len(set().union(*got.values())) == 1 and all(len(x) == 1 for x in got.values())
        rep.need(same, "shared:" + ty, "the scheduler and its client %s %s" % ("share one" if same else "do not have the same", ty), loc(R.new))
    s = Serve(P, rep, R)
    s.start(R.serve)
    rep.take(s.I, s)
    for x in ("event", "raise", "incr", "flag"):
        rep.floor("scheduler " + x, s.seen.get(x, 0), 1)
    q = Query(P, rep, fieldof(P, adt(P, "ReadyTrackerClient"), lambda t: t.k == "adt" and t.name == "AsyncCounter", "the client's counter"), "queuestate")
    b = P.fn("get_queuestate", "execgraph")
    for st, v in q.start(b):
        q.final(q.I, st, v, q.I.rootcx(b, 0))
    rep.take(q.I, q)
    for x in ("entry", "exit"):
        rep.floor("get_queuestate " + x, q.n.get(x, 0), 1)
    e = End(P, rep, R, s.e_flag)
    e.start(P.fn("end_handler", "execgraph"))
    rep.take(e.I, e)
    rep.floor("end waits", e.n.get("waited", 0) + e.n.get("next", 0), 2)
    for key, d in e.selects.items():
        if "AsyncFlag::wait" in d:
            both = "CancellationToken::hard_cancelled" in d
            rep.need(both, "alone", "the flag is awaited %s the hard cancellation as a way out" % ("with" if both else "without"), d["AsyncFlag::wait"])
