"""C18: heartbeats: a remote runner that stops pinging is given up, one that pings is not."""
from txn import *
RULE = ("Every path of every handler of the main server: an open transaction is registered with a timer armed for its own id; a timer that is armed is stored in the transaction it is for, "
        "and the timer it replaces there is cancelled; /ping re-arms the timer of the transaction it names whenever that exists. The ping reaper turns the wheel exactly once per period and "
        "ends only when told to stop. The wheel (terms of its functions, evaluated for its constants): a timer is put in the slot that its id names, cancelling removes the key from that slot, "
        "a turn takes the next slot; a timer never expires before more than one ping interval has passed, nor later than one turn of the wheel.")
ASSUME = ["tokio's interval and clock keep time", "a transaction id drawn at random is not in use"]

WHEEL = ("TimeWheel::insert", "TimeWheel::cancel", "TimeWheel::tick", "TimeWheel::tick_duration")


class Hb(Base):
    # auto: (armed and not stored timers, cancelled timers, overwritten timers not yet cancelled, looked up transactions, those re-armed)
    def __init__(self, prog, rep, R, S, path):
        super().__init__(prog, rep)
        self.R, self.S, self.path = R, S, path
        self.opaque = S.opaque() + WHEEL
        self.n = {}
        self.durs = {}
        self.intervals = {}

    def init(self):
        return (EMPTY, EMPTY, EMPTY, EMPTY, EMPTY)

    def part(self, st):
        return (st.auto, tuple(sorted((show(x), tuple(sorted(st.variants(x, OPT) or ()))) for x in st.auto[3])))

    def keepfact(self, st, k):
        return k.k == "DISCR" and k.a[0] in st.auto[3]

    def count(self, n):
        self.n[n] = self.n.get(n, 0) + 1

    def wheel(self, v):
        return self.R.fieldname(peel(v)) == self.S.timeouts

    def on(self, I, st, ev):
        k, a = ev.kind, st.auto
        m = ev.path.split("::")[-1] if ev.path else None
        if k == "ret" and ev.path and ev.path.endswith("TimeWheel::insert") and self.wheel(I.canon(st, ev.args[0])):
            st.auto = (a[0] | {ev.val},) + a[1:]
            d = number(I.canon(st, ev.args[1]))
            self.durs.setdefault(d, where(ev.cx))
            self.count("timers armed")
        elif k == "call" and ev.path and ev.path.endswith("TimeWheel::cancel") and self.wheel(I.canon(st, ev.args[0])):
            t = I.canon(st, ev.args[1])
            st.auto = (a[0] - {t}, a[1] | {t}, a[2] - {t}) + a[3:]
        elif k == "call" and ev.path and "dashmap" in ev.path and m in ("insert", "insert_entry", "or_insert") and ev.args and has(I.canon(st, ev.args[0]), self.S.isconns):
            v = I.canon(st, ev.args[-1])
            key = None
            if len(ev.args) >= 3:
                key = I.canon(st, ev.args[1])
            else:
                for x in subterms(I.canon(st, ev.args[0])):
                    if x.k == "CALL" and x.a[0].endswith("DashMap::entry") and len(x.a[2]) > 1:
                        key = I.canon(st, x.a[2][1])
            self.stored(I, st, I.canon(st, proj(v, ("f", self.S.c_timer, None))), key, ev.cx, "registered")
        elif k == "ret" and ev.path and "dashmap" in ev.path and m in ("get_mut", "try_get_mut") and self.S.isconns(I.canon(st, ev.args[0])):
            st.auto = a[:3] + (a[3] | {ev.val}, a[4])
        elif k == "write" and ev.args[1] and self.lastfield(ev.args[1]) == self.S.c_timer:
            base = ev.args[0]
            g = [x for x in subterms(base) if x.k == "CALL" and "dashmap" in x.a[0] and x.a[2] and self.S.isconns(x.a[2][0])]
            if g:
                new = I.canon(st, ev.val)
                old = self.oldof(I, st, base, ev)
                self.stored(I, st, new, I.canon(st, g[0].a[2][1]), ev.cx, "renewed")
                a = st.auto
                st.auto = a[:2] + (a[2] if old is None or old in a[1] else a[2] | {old}, a[3], a[4] | {g[0]})
        elif k in ("call", "ret") and m == "StartResponse":
            pass
        if k == "agg" and ev.val is not None and ev.val.k == "AGG" and ev.val.a[1] and ev.val.a[1].split("::")[-1] == "StartResponse":
            x = [f for f in ev.val.a[3] if "interval" in f]
            if len(x) == 1:
                self.intervals.setdefault(number(I.canon(st, proj(ev.val, ("f", x[0], None)))), where(ev.cx))
        return True

    def lastfield(self, path):
        for el in reversed(path):
            if type(el) is tuple and el[0] == "f":
                return el[1]
        return None

    def oldof(self, I, st, base, ev):
        """the timer that is overwritten: the value the field had when the transaction was looked up"""
        return I.canon(st, ev.extra) if type(ev.extra) is V else None

    def stored(self, I, st, t, key, cx, what):
        a = st.auto
        if t not in a[0]:
            self.viol(I, st, "timer-not-armed", "a transaction is %s with %s as its timer, which was not just armed" % (what, show(t)[:80]), cx)
            return
        if key is None or I.canon(st, t.a[2][2]) is not key:
            self.viol(I, st, "timer-other-id", "the timer of transaction %s is armed for %s" % (show(key)[:60] if key is not None else "?", show(t.a[2][2])[:60]), cx)
        else:
            self.discharge("timer-%s:%s" % (what, self.path), "the timer is armed for the transaction it is stored in")
        self.count("timers " + what)
        st.auto = (a[0] - {t},) + a[1:]

    def finish(self, I, out, body):
        for st, v in out:
            cx = I.rootcx(body, 0)
            a = st.auto
            for t in a[0]:
                self.viol(I, st, "timer-lost", "a timer is armed and not stored in a transaction, so that nothing can cancel it", cx)
            for t in a[2]:
                self.viol(I, st, "timer-not-cancelled", "the timer of a transaction is replaced and the old one is not cancelled: it will end the transaction although its runner pings", cx)
            if self.path == "/ping":
                for g in a[3]:
                    if st.variants(g, OPT) == frozenset(["Some"]):
                        if g not in a[4]:
                            self.viol(I, st, "ping-ignored", "a ping for an open transaction does not renew its timer", cx)
                        else:
                            self.count("pings")
                            self.discharge("ping", "a ping renews the timer of its transaction")
                    if g.a[2] and not (lambda k: k.k == "FLD" and has(k, lambda t: t.k == "SYM" and t.a[0].startswith("param:")))(peel(I.canon(st, g.a[2][1]))):
                        self.viol(I, st, "ping-other", "the transaction renewed is not the one named in the request", cx)
        self.rep.take(I, self)


class Reap(Base):
    # auto: turns since the last wait (0,1,2) | None before the first
    def __init__(self, prog, rep, R, S):
        super().__init__(prog, rep)
        self.R, self.S = R, S
        self.opaque = S.opaque() + WHEEL
        self.n = {"turns": 0, "periods": 0, "ends": 0}
        self.vals = set()

    def init(self):
        return (0, False, frozenset())

    def part(self, st):
        return st.auto

    def on(self, I, st, ev):
        k, a = ev.kind, st.auto
        if k == "call" and ev.path and ev.path.endswith("TimeWheel::tick"):
            if a[0] >= 1:
                self.viol(I, st, "turned-twice", "the wheel is turned twice in one period: timers expire early", ev.cx)
            st.auto = (min(2, a[0] + 1),) + a[1:]
            self.n["turns"] += 1
        if k == "ret" and ev.path and ev.path.endswith("TimeWheel::tick"):
            st.auto = st.auto[:2] + (frozenset([ev.val]),)
        if k == "step" and a[2]:
            src = I.canon(st, ev.args[0]) if type(ev.args[0]) is V else None
            if src is not None:
                gone = frozenset(t for t in st.auto[2] if has(src, lambda y: y is t))
                if gone:
                    st.auto = st.auto[:2] + (st.auto[2] - gone,)
        if k == "await" and ev.args[0].k == "CALL" and ev.args[0].a[0].split("::")[-1] in ("tick", "sleep", "sleep_until"):
            c = ev.args[0]
            if not any(x.k == "CALL" and x.a[0].endswith("TimeWheel::tick_duration") for x in subterms(c)):
                self.viol(I, st, "period-other", "the time between two turns is not the wheel's tick: %s" % show(c)[:90], ev.cx)
            if a[0] == 0:
                self.viol(I, st, "not-turned", "a period passes without a turn of the wheel", ev.cx)
            for t in a[2]:
                vs = st.variants(t, OPT)
                if vs is None or "Some" in vs:
                    self.viol(I, st, "expired-ignored", "the timers that expired in a turn are not looked at", ev.cx)
            st.auto = (0, False, frozenset())
            self.n["periods"] += 1
            self.discharge("period:" + ev.cx.body.df.npath, "one turn of the wheel per tick")
        elif k == "await" and has(ev.args[0], lambda t: t.k == "SYM" and t.a[0].startswith("param:") and t.a[0] != "param:self"):
            st.auto = (a[0], True) + a[2:]
        return True

    def finish(self, I, out, body):
        for st, v in out:
            if not st.auto[1]:
                self.viol(I, st, "reaper-ends", "the reaper ends without having been told to stop", I.rootcx(body, 0))
            else:
                self.n["ends"] += 1
                self.discharge("reaper-ends", "the reaper ends only when told to stop")
        self.rep.take(I, self)


def lockidx(v):
    """index terms X of lock(index(slots, X)) in v"""
    out = []
    for x in subterms(v):
        if x.k == "CALL" and x.a[0].split("::")[-1] in ("lock", "try_lock", "get_mut", "write", "read") and x.a[2]:
            for y in subterms(x.a[2][0]):
                if y.k == "CALL" and y.a[0].split("::")[-1] in ("index", "index_mut", "get", "get_mut", "get_unchecked") and len(y.a[2]) == 2:
                    out.append(y.a[2][1])
                elif y.k == "IDX":
                    out.append(y.a[1])
    return out


def nocast(v):
    v = peel(v)
    while v.k == "CAST" or v.k == "CALL" and v.a[0].split("::")[-1] in ("from", "into", "try_into", "unwrap") and len(v.a[2]) == 1:
        v = peel(v.a[1] if v.k == "CAST" else v.a[2][0])
    return v


def wrap(w, env):
    """additions that wrap around at the type of the position"""
    out = []
    for t in w.wraps:
        if t.k == "OP":
            x = [number(y, env) for y in t.a[1:3]]
            if None not in x:
                out.append(((lambda y, t=t: y is t), int(x[0] + x[1]) % 256))
    return out


class Wheel(Base):
    def __init__(self, prog, rep, W):
        super().__init__(prog, rep)
        self.W = W
        self.ops = []
        self.wraps = set()

    def init(self):
        return (0, EMPTY)

    def part(self, st):
        return st.auto

    def on(self, I, st, ev):
        if ev.kind in ("call", "ret") and ev.path:
            m = ev.path.split("::")[-1]
            if ev.kind == "ret" and ev.path.startswith("std::sync::atomic") and m.startswith("fetch_"):
                d = {"fetch_add": 1, "fetch_sub": -1}.get(m, 0) * (number(I.canon(st, ev.args[1])) or 0)
                st.auto = (st.auto[0] + d if abs(st.auto[0]) < 3 else 3, st.auto[1] | {(ev.val, 0)})
            elif ev.kind == "ret" and ev.path.startswith("std::sync::atomic") and m == "load":
                st.auto = (st.auto[0], st.auto[1] | {(ev.val, st.auto[0])})
            elif ev.kind == "ret" and m == "wrapping_add" and ev.val is not None:
                self.wraps.add(ev.val)
            elif ev.path.startswith("slotmap") and m in ("insert", "insert_with_key", "try_insert", "remove") and ev.kind == "ret":
                self.ops.append((m, I.canon(st, ev.args[0]) if True else None, I.placeof(st, ev.args[0]) if ev.args[0].k == "REF" else None, [I.canon(st, x) for x in ev.args[1:]], ev.val, st, ev.cx))
        return True


def check_wheel(P, rep, durs, intervals):
    W = adt(P, "TimeWheel")
    T = adt(P, "TimerID")
    f_dur = fieldof(P, W, lambda t: t.k == "adt" and t.name == "Duration", "turn of the wheel")
    t_key = fieldof(P, T, lambda t: t.k == "adt" and t.name.endswith("Key"), "key of a timer")
    t_slot = [f["name"] for f in fields(T) if f["name"] != t_key]
    if len(t_slot) != 1:
        raise AnchorError("slot of a timer")
    t_slot = t_slot[0]
    n = {"inserts": 0, "removes": 0, "turns": 0}

    def fn(name):
        r = [b for b in P.by_path(name, "execgraph", "fn") if "TimeWheel" in b.df.npath]
        if len(r) != 1:
            raise AnchorError("TimeWheel::" + name)
        return r[0]
    # insert
    b = fn("insert")
    w = Wheel(P, rep, W)
    out = w.start(b)
    steps = []
    w_ins = w
    for st, v in out:
        v = w.I.canon(st, v)
        key, slot = w.I.canon(st, proj(v, ("f", t_key, None))), nocast(w.I.canon(st, proj(v, ("f", t_slot, None))))
        o = [x for x in w.ops if x[0] != "remove" and x[4] is key]
        if not o:
            rep.viol("insert-key", "the timer id returned does not carry the key of the entry put in the wheel: %s" % show(key)[:80], loc(b))
            continue
        for x in o:
            n["inserts"] += 1
            idx = [nocast(y) for t in (x[1], x[2]) if t is not None for y in lockidx(t)]
            if not any(y is slot for y in idx):
                rep.viol("insert-slot", "the timer is put in slot %s, its id says %s" % (show(idx[0])[:80] if idx else "?", show(slot)[:80]), loc(b))
            else:
                rep.ob("insert-slot", "the timer is put in the slot its id names")
            if not any(y.k == "SYM" and y.a[0].startswith("param:") for y in x[3]):
                rep.viol("insert-entry", "the entry put in the wheel is %s" % show(x[3][0])[:60], loc(b))
        steps.append((st, slot))
    # cancel
    b = fn("cancel")
    w = Wheel(P, rep, W)
    out = w.start(b)
    for x in w.ops:
        if x[0] != "remove":
            continue
        n["removes"] += 1
        idx = [nocast(y) for t in (x[1], x[2]) if t is not None for y in lockidx(t)]
        okk = any(y.k == "FLD" and y.a[1] == t_slot for y in idx) and x[3] and x[3][0].k == "FLD" and x[3][0].a[1] == t_key
        rep.need(okk, "cancel-slot", "cancelling removes the key of the timer id from the slot it names", loc(b))
    # tick
    b = fn("tick")
    w = Wheel(P, rep, W)
    out = w.start(b)
    for st, v in out:
        n["turns"] += 1
        v = w.I.canon(st, v)
        if st.auto[0] != 1:
            rep.viol("turn-step", "a turn moves the wheel by %d slots" % st.auto[0], loc(b))
        for i in lockidx(v) or [None]:
            for c in (7, 255):
                env = [((lambda t, x=x: t is x), (c + d) % 256) for x, d in st.auto[1]]
                r = number(i, env + wrap(w, env)) if i is not None else None
                if r is None:
                    rep.viol("turn-slot", "the slot taken by a turn, %s, is not a function of the position" % (show(v)[:80]), loc(b))
                elif r != (c + 1) % 256:
                    rep.viol("turn-slot", "at position %d a turn takes slot %d" % (c, r), loc(b))
                else:
                    rep.ob("turn-slot:%d" % c, "the slot after the current one is taken")
    # constants
    D = None
    s = P.fn("server::State::new", "execgraph")

    class Mk(Base):
        ds = set()
        def on(self, I, st, ev):
            if ev.kind == "agg" and ev.val is not None and ev.val.k == "AGG" and ev.val.a[1] == W["def"].npath:
                self.ds.add(number(I.canon(st, proj(ev.val, ("f", f_dur, None)))))
            return True
    mk_ = Mk(P, rep)
    mk_.start(s)
    if len(mk_.ds) != 1 or None in mk_.ds:
        raise AnchorError("the duration of the server's wheel: %s" % mk_.ds)
    D = list(mk_.ds)[0]
    td = fn("tick_duration")
    w = Wheel(P, rep, W)
    isdur = lambda t: t.k == "FLD" and t.a[1] == f_dur
    tick = None
    for st, v in w.start(td):
        tick = number(w.I.canon(st, v), [(isdur, D)])
    if tick is None:
        raise AnchorError("tick duration")
    rep.need(abs(tick * 256 - D) <= 256, "tick", "256 ticks make one turn of %d ms (tick %.3f ms)" % (D // 10**6, float(tick) / 1e6), loc(td))
    for d, at in sorted(durs.items(), key=str):
        if d is None:
            raise AnchorError("the time-out of a timer is not a constant at " + at)
        rep.need(d <= D, "timeout-fits:%d" % d, "a time-out of %d ms is at most one turn of the wheel (%d ms): longer ones panic" % (d // 10**6, D // 10**6), at)
        for iv, iat in sorted(intervals.items(), key=str):
            if iv is None:
                raise AnchorError("the ping interval is not a constant at " + iat)
            ivns = iv * 10**6
            for st, slot in steps:
                pos = 100
                env = [((lambda t, x=x: t is x), (pos + dd) % 256) for x, dd in st.auto[1]] + [(isdur, D), (lambda t: t.k == "SYM" and t.a[0] == "param:dur", d)]
                env += wrap(w_ins, env)
                r = number(slot, env)
                ps = {t for t in subterms(slot) if t.k == "SYM" and t.a[0].startswith("param:") and t.a[0] != "param:self"}
                if r is None and len(ps) == 1:
                    p = list(ps)[0]
                    r = number(slot, env + [(lambda t: t is p, d)])
                if r is None:
                    rep.count("slot arithmetic not evaluated")
                    continue
                k = (r - pos) % 256 or 256
                rep.need((k - 1) * tick > ivns, "expiry-early", "a timer expires after %d ticks, %.1f s at the earliest, with a ping every %.1f s" % (k, (k - 1) * tick / 1e9, ivns / 1e9), loc(fn("insert")))
                rep.need(k * tick <= D and (k + 1) * tick >= d, "expiry-late", "a timer of %.3f s expires after %d ticks (%.3f s)" % (d / 1e9, k, k * tick / 1e9), loc(fn("insert")))
    return n


def check(P, rep):
    R = Roles(P)
    S = Srv(P, R)
    tot, durs, ivs = {}, {}, {}
    hs = []
    for path, m, b in S.routes:
        if b in hs:
            continue
        hs.append(b)
        t = Hb(P, rep, R, S, path)
        out = t.start(b, CAP=1, HEADCAP=1)
        t.finish(t.I, out, b)
        for k, v in t.n.items():
            tot[k] = tot.get(k, 0) + v
        durs.update(t.durs)
        ivs.update(t.intervals)
    for k in ("timers armed", "timers registered", "timers renewed", "pings"):
        rep.floor(k, tot.get(k, 0), 1)
    rep.floor("ping intervals answered", len(ivs), 1)
    t = Reap(P, rep, R, S)
    out = t.start(S.reaper, CAP=1, HEADCAP=1)
    t.finish(t.I, out, S.reaper)
    for k, v in t.n.items():
        rep.floor("reaper: " + k, v, 1)
    for k, v in check_wheel(P, rep, durs, ivs).items():
        rep.floor("wheel: " + k, v, 1)
