"""C23: cancellation only ever gets stronger, and reaches exactly what it is meant for."""
from servicer import *
RULE = ("CancellationToken, every path. cancel: for every current state and every requested one, the state after it is the stronger of the two (hard before soft, soft with the earlier cutoff before soft with the later), decided and written in one step under the channel's lock, and the waiters are told of a change. "
        "No other function writes the state. soft_cancelled(time) returns exactly when the state it has read last is hard or soft with a cutoff earlier than time, hard_cancelled exactly when it is hard; both wait for a change only after a read, made through the receiver that they wait on, that did not say so. is_soft_cancelled returns the state as it is. "
        "The server's reaper, when the state is soft, takes for removal the key of each connection whose start is later than the cutoff and of no other, and removes each key taken. Every soft cancel asked for has the cutoff now minus a fixed, positive time; the start that the local runner waits with is the time read since it received the task.")
ASSUME = ["tokio's watch channel: send_if_modified is atomic; changed() returns if the value was changed since the receiver last saw it"]
TOK = "CancellationToken"
WATCH = "tokio::sync::watch::"
CUR = ("None", "Soft", "Hard")
TIMES = (1, 2, 3)


def worlds(st, v, kinds=CUR):
    """the kinds of state that the facts allow for the value v (an Option of CancellationState)"""
    o = st.variants(v, OPT)
    out = []
    p = some_of(v)
    for w in kinds:
        if o is not None and ("None" if w == "None" else "Some") not in o:
            continue
        if w != "None":
            c = st.variants(p, STATE[0])
            if c is not None and NAMES[w] not in c:
                continue
        out.append(w)
    return out


NAMES = {"Soft": "CancelledAfterTime", "Hard": "HardCancelled"}
STATE = [None]


def some_of(v):
    return proj(proj(v, ("v", "Some")), ("f", "0", 0))


def cutoff_of(p):
    return proj(proj(p, ("v", "CancelledAfterTime")), ("f", "0", 0))


def deref(st, v, n=8):
    while v.k == "REF" and n:
        v = st.load(v)
        n -= 1
    return peel(v)


class Cancel(Base):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.seen = 0
        self.cases = set()

    def keepfact(self, st, k):
        return True

    def part(self, st):
        return (st.auto, tuple(sorted(map(str, ((show(k), f[0], sorted(map(str, f[1]))) for k, f in st.facts.items())))))

    def init(self):
        return 0

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path.startswith(WATCH + "Sender::") and ev.path.split("::")[-1] in ("send", "send_replace"):
            self.viol(I, st, "replaced", "the state is replaced with %s, whatever it is at that moment" % ev.path.split("::")[-1], ev.cx)
        if ev.kind == "watch":
            self.seen += 1
            st.auto = min(2, st.auto + 1)
            ref, old = ev.args
            new = I.canon(st, deref(st, ref))
            param = next((t for t in subterms(new) if t.k == "SYM" and t.a[0] == "param:state"), None)
            P = mk("SYM", "param:state", (ev.cx.body.key, 0)) if param is None else param
            for k in st.facts:
                for t in subterms(k):
                    if t.k == "SYM" and t.a[0] == "param:state":
                        P = t
            req = st.variants(P, STATE[0])
            ec, pc = cutoff_of(some_of(old)), cutoff_of(P)
            pre = {"None": lambda t: False}
            for w in worlds(st, old):
                for q in ("Soft", "Hard"):
                    if req is not None and NAMES[q] not in req:
                        continue
                    for t0 in (TIMES if w == "Soft" else (0,)):
                        for t1 in (TIMES if q == "Soft" else (0,)):
                            env = [(lambda v, e=ec: v is e, t0), (lambda v, e=pc: v is e, t1)]
                            if possible(st, env):
                                self.case(I, st, ev, w, q, t0, t1, old, P, new, env)
        return True

    def case(self, I, st, ev, w, q, t0, t1, old, P, new, env):
        want = ("Hard", 0) if "Hard" in (w, q) else ("Soft", t1 if w == "None" else min(t0, t1))
        got = self.state(st, new, old, w, t0, P, q, t1, env)
        had = (w, t0)
        name = "%s%s on %s%s" % (q, "@%d" % t1 if t1 else "", w, "@%d" % t0 if t0 else "")
        if got is None:
            self.viol(I, st, "state", "what cancel leaves cannot be followed: %s" % show(new)[:80], ev.cx)
        elif got != want:
            self.viol(I, st, "weaker:" + q + w, "cancel with a %s request on a %s state leaves %s, not %s (%s)" % (q.lower(), w.lower(), got, want, name), ev.cx)
        elif got != had and I.canon(st, ev.val) is not TRUE and not ev.path.endswith("send_modify"):
            self.viol(I, st, "untold:" + q + w, "cancel changes the state without telling the waiters (%s)" % name, ev.cx)
        else:
            self.cases.add(name)

    def state(self, st, new, old, w, t0, P, q, t1, env):
        new = peel(new)
        if new is old:
            return (w, t0)
        if new.k == "AGG" and new.a[2] == "None":
            return ("None", 0)
        if new.k != "AGG" or new.a[2] != "Some":
            return None
        p = peel(new.a[4][0])
        if p is P:
            return (q, t1)
        if p is some_of(old):
            return (w, t0)
        if p.k == "AGG" and p.a[2] == "HardCancelled":
            return ("Hard", 0)
        if p.k == "AGG" and p.a[2] == "CancelledAfterTime":
            n = number(p.a[4][0], env)
            return None if n is None else ("Soft", n)
        return None


class Waits(Base):
    """an async fn that waits for a state: auto = (receiver made, the read that counts)"""

    def __init__(self, prog, rep, name, soft):
        super().__init__(prog, rep)
        self.fn = name
        self.soft = soft
        self.n = 0

    def init(self):
        return (None, None)

    def keepfact(self, st, k):
        return has(k, lambda t: self.isread(t))

    def part(self, st):
        return (st.auto, tuple(sorted(map(str, ((show(k), f[0], sorted(map(str, f[1]))) for k, f in st.facts.items() if self.keepfact(st, k))))))

    def isread(self, t):
        return t.k == "CALL" and t.a[0].startswith(WATCH) and t.a[0].split("::")[-1] in ("borrow", "borrow_and_update")

    def on(self, I, st, ev):
        rx, read = st.auto
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        if k == "ret" and ev.path.startswith(WATCH) and m == "subscribe":
            st.auto = (ev.val, None)
        elif k == "call" and (m == "clone" and "watch" in ev.path or m == "subscribe"):
            st.auto = (rx, None)
        elif k == "ret" and self.isread(ev.val) and ev.path.startswith(WATCH):
            at = self.where(I, st, ev.args[0])
            st.auto = (at, ev.val)
        elif k == "call" and m in ("changed", "wait_for") and ev.path.startswith(WATCH):
            if m == "wait_for":
                self.viol(I, st, "wait_for:" + self.fn, "%s waits with wait_for, whose closure this rule does not read" % self.fn, ev.cx)
            elif read is None:
                self.viol(I, st, "unread:" + self.fn, "%s waits for a change without having looked at the state since the last one" % self.fn, ev.cx)
            elif rx is not None and self.where(I, st, ev.args[0]) != rx:
                self.viol(I, st, "other-receiver:" + self.fn, "%s waits on a receiver other than the one it has read: a change in between is lost" % self.fn, ev.cx)
            else:
                for w, t, c in self.cases(st, read):
                    if self.due(w, t, c):
                        self.viol(I, st, "sleeps:%s:%s" % (self.fn, w), "%s waits on although the state is %s" % (self.fn, self.say(w, t, c)), ev.cx)
                    else:
                        self.n += 1
        elif k == "await" and has(ev.args[0], lambda t: t.k == "CALL" and t.a[0].endswith("::changed")):
            st.auto = (rx, None)
        elif k in ("yield", "await") and ev.args and not has(ev.args[0], lambda t: t.k == "CALL" and t.a[0].endswith(("::changed", "::wait_for"))):
            self.viol(I, st, "awaits:" + self.fn, "%s awaits something other than a change of the state: %s" % (self.fn, show(ev.args[0])[:60]), ev.cx)
        return True

    def where(self, I, st, v):
        if v.k != "REF":
            return show(v)
        return show(I.placeof(st, v)) if v.a[0].k != "CELL" else (v.a[0], v.a[1])

    def cases(self, st, read):
        v = self.stateof(st, read)
        e = cutoff_of(some_of(v))
        for w in worlds(st, v):
            for t in TIMES if self.soft else (0,):
                for c in TIMES if w == "Soft" else (0,):
                    env = [(lambda x, e=e: x is e, c), (lambda x: x.k == "SYM" and x.a[0] == "param:time", t)]
                    if possible(st, env):
                        yield w, t, c

    def stateof(self, st, read):
        """the term that the facts about the read speak of"""
        for k in st.facts:
            for t in subterms(k):
                if t.k == "DEREF" and t.a[0] is read:
                    return t
        return read

    def due(self, w, t, c):
        return w == "Hard" or self.soft and w == "Soft" and t > c

    def say(self, w, t, c):
        return w.lower() + (" with cutoff %d, begun at %d" % (c, t) if w == "Soft" and self.soft else "")

    def final(self, I, st, v, cx):
        rx, read = st.auto
        if read is None:
            self.viol(I, st, "blind:" + self.fn, "%s returns without having looked at the state since the last change" % self.fn, cx)
            return
        for w, t, c in self.cases(st, read):
            if not self.due(w, t, c):
                self.viol(I, st, "early:%s:%s" % (self.fn, w), "%s returns although the state is %s" % (self.fn, self.say(w, t, c)), cx)
            else:
                self.n += 1
        if self.soft and not has(I.canon(st, v), lambda t: t is read):
            self.viol(I, st, "value:" + self.fn, "%s returns %s, not the state it has read" % (self.fn, show(v)[:50]), cx)


class Reaper(Base):
    # auto: (connection under way, key taken, its keys' removal, soft state asked for)
    opaque = ("send_finished", "is_soft_cancelled", "CancellationToken::is_soft_cancelled")

    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.n = {}
        self.R = R

    def init(self):
        return (None, 0, Once.ZERO)

    def keepfact(self, st, k):
        return has(k, lambda t: iscall(t, "is_soft_cancelled") or infield(t, "start_time_approx"))

    def part(self, st):
        return (st.auto, tuple(sorted(map(str, ((show(k), f[0], sorted(map(str, f[1]))) for k, f in st.facts.items() if self.keepfact(st, k))))))

    def overconns(self, I, st, it):
        for x in subterms(it):
            if x.k == "SRC":
                for y in x.a[1:]:
                    if type(y) is V:
                        y = deref(st, I.canon(st, y))
                        if y.k != "COLL" and not has(y, lambda t: t.k == "COLL" or iscall(t, "remove")) and has(y, lambda t: infield(t, self.conns)):
                            return True
        return False

    def overkeys(self, I, st, it):
        return any(t.k == "COLL" and any(iscall(x, "key") or infield(x, "key") or has(x, lambda y: infield(y, self.conns)) for x, f in t.a[1]) for t in itsources(I, st, it)) \
            and not any(t.k == "COLL" and any(iscall(y, "remove") for x, f in t.a[1] for y in subterms(x)) for t in itsources(I, st, it))

    def on(self, I, st, ev):
        cur, took, keys = st.auto
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        if k in ("item", "step", "iterend") and ev.args and self.overconns(I, st, ev.args[0]):
            if cur is not None:
                self.judge(I, st, ev.cx, cur, took)
            cur, took = (ev.val, 0) if k == "item" else (None, 0)
        elif k == "collect" and cur is not None and has(ev.val, lambda t: t is cur):
            took = min(2, took + 1)
        if k in ("item", "step", "iterend", "itemdone") and ev.args:
            keys = Once.on(I, st, ev, keys, lambda it: self.overkeys(I, st, it), ordered=False)
            if k == "iterend" and self.overkeys(I, st, ev.args[0]):
                if not Once.ok(keys):
                    self.viol(I, st, "kept", "not every connection taken for removal is removed", ev.cx)
                else:
                    self.n["removed"] = 1
                keys = Once.ZERO
        if k == "call" and m in ("remove", "remove_if") and ev.args and infield(I.placeof(st, ev.args[0]), self.conns):
            keys = Once.use(keys, deref(st, ev.args[1]))
        st.auto = (cur, took, keys)
        return True

    def judge(self, I, st, cx, cur, took):
        soft = next((t for k in st.facts for t in subterms(k) if iscall(t, "is_soft_cancelled")), None)
        e = cutoff_of(some_of(soft)) if soft is not None else None
        asked = False
        for c in TIMES:
            for s in TIMES:
                env = [(lambda x: x is e, c), (lambda x: x.k == "FLD" and x.a[1] == "start_time_approx" and has(x, lambda t: t is cur), s)]
                if not possible(st, env):
                    continue
                want = 1 if s > c else 0
                if soft is None:
                    self.viol(I, st, "hit-any", "a connection is %s although the state was not asked for" % ("taken" if took else "passed over"), cx)
                    return
                if took != want:
                    self.viol(I, st, "hit:%d" % want, "a task begun at %d is %s by a soft cancel with cutoff %d" % (s, "taken" if took else "not taken", c), cx)
                else:
                    self.n["judged"] = self.n.get("judged", 0) + 1
        w = worlds(st, soft) if soft is not None else []
        if took and w != ["Soft"]:
            self.viol(I, st, "hit-not-soft", "connections are taken although the state may not be soft", cx)


def check(P, rep):
    STATE[0] = adt(P, "CancellationState")["def"].npath
    tok = adt(P, TOK)
    fns = {b.df.npath.split("::")[-1]: b for b in P.bodies.values() if b.kind == "fn" and b.key.startswith("execgraph::") and len(b.df.npath.split("::")) >= 2 and b.df.npath.split("::")[-2] == TOK}
    for x in ("cancel", "soft_cancelled", "hard_cancelled", "is_soft_cancelled"):
        if x not in fns:
            raise AnchorError("CancellationToken::" + x)
    a = Cancel(P, rep)
    for st, v in a.start(fns["cancel"]):
        if st.auto != 1:
            a.viol(a.I, st, "steps", "cancel decides and writes in %d steps on some path" % st.auto, a.I.rootcx(fns["cancel"], 0))
    rep.take(a.I, a)
    rep.floor("cancel cases", len(a.cases), 16)
    cancelbodies = {b.df.path for b in P.bodies.values() if b.key in a.I.seen_bodies}
    # who else sends on the channel
    n = 0
    for body, span, path, t in scan.calls(P, lambda p: p.startswith(WATCH + "Sender::")):
        m = path.split("::")[-1]
        if not body.key.startswith("execgraph::") or m in ("borrow", "subscribe", "receiver_count", "is_closed", "closed"):
            continue
        o = t[2][0]
        ty = o[1][2] if o[0] in ("c", "m") else None
        while ty is not None and ty.k == "ref":
            ty = ty.a[0]
        if ty is None or "CancellationState" not in ty.s:
            continue
        n += 1
        if body.df.path not in cancelbodies:
            rep.viol("sender:" + body.df.path, "the cancellation state is written with %s outside of cancel" % m, "%s:%d (in %s)" % (span[0], span[1], body.df.path))
    rep.floor("writers of the state", n, 1)
    for nm, soft in (("soft_cancelled", True), ("hard_cancelled", False)):
        w = Waits(P, rep, nm, soft)
        for st, v in w.start(fns[nm]):
            w.final(w.I, st, v, w.I.rootcx(fns[nm], 0))
        rep.take(w.I, w)
        rep.floor(nm + " cases", w.n, 3)
    # is_soft_cancelled: the state as it is
    w = Waits(P, rep, "is_soft_cancelled", True)
    for st, v in w.start(fns["is_soft_cancelled"]):
        v = I_val(w.I, st, v)
        ok = w.isread(v)
        rep.need(ok, "is_soft_cancelled", "is_soft_cancelled returns %s" % ("the state it reads" if ok else show(v)[:60]), loc(fns["is_soft_cancelled"]))
    rep.take(w.I, w)
    # the reaper
    r = Reaper(P, rep, None)
    r.conns = next(f["name"] for f in fields(adt(P, "State")) if f["ty"].k == "adt" and f["ty"].name == "DashMap")
    b = P.fn("reap_pings_forever", "execgraph")
    r.start(b)
    rep.take(r.I, r)
    rep.floor("connections judged", r.n.get("judged", 0), 9)
    rep.floor("keys removed", r.n.get("removed", 0), 1)
    # who asks for a soft cancel, and with which cutoff
    n = 0
    for fn in askers(P):
        a = Asks(P, rep)
        a.start(fn)
        rep.take(a.I, a)
        n += a.n
    rep.floor("soft cancels", n, 1)
    a = Starts(P, rep)
    a.start(P.fn("run_local_process_loop", "execgraph"))
    rep.take(a.I, a)
    rep.floor("local waits", a.n, 1)


def askers(P):
    """the functions that make a soft state, or the nearest callers of those that call cancel"""
    cancels = {scan.enclosing_fn(P, c[0]).key for c in scan.calls(P, lambda p: p.endswith(TOK + "::cancel"), "execgraph")}
    todo = [scan.enclosing_fn(P, b[0]) for b in scan.builders(P, STATE[0], "CancelledAfterTime") if b[0].key.startswith("execgraph::") and "::" + TOK + "::" not in scan.enclosing_fn(P, b[0]).df.npath]
    seen, out = set(), []
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        if f.key in cancels:
            out.append(f)
            continue
        up = [scan.enclosing_fn(P, c[0]) for c in scan.calls(P, lambda p: p == f.df.npath, "execgraph")]
        if not up and f.df.kind != "Const":
            raise AnchorError("a soft cancellation state is made in %s, which nothing calls" % f.df.path)
        todo += up
    return sorted(out, key=lambda f: f.key)


class Asks(Base):
    opaque = ("soft_cancelled", "hard_cancelled", "cancel", "CancellationToken::cancel")

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.n = 0

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path.endswith(TOK + "::cancel") and len(ev.args) == 2:
            v = peel(I.canon(st, ev.args[1]))
            if v.k == "AGG" and v.a[2] == "CancelledAfterTime":
                c = I.canon(st, v.a[4][0])
                if fixed(c):
                    self.n += 1
                else:
                    self.viol(I, st, "cutoff", "a soft cancel is asked for with the cutoff %s" % show(c)[:80], ev.cx)
            elif not (v.k == "AGG" and v.a[2] == "HardCancelled"):
                self.viol(I, st, "request", "a cancel is asked for with %s" % show(v)[:80], ev.cx)
        return True


def fixed(c):
    c = peel(c)
    if c.k == "CALL" and c.a[0].split("::")[-1] == "sub" and len(c.a[2]) == 2:
        a, b = (peel(x) for x in c.a[2])
    elif c.k == "OP" and c.a[0] == "Sub":
        a, b = peel(c.a[1]), peel(c.a[2])
    elif c.k == "VF" or c.k == "FLD":
        x = next((t for t in subterms(c) if t.k == "CALL" and t.a[0].split("::")[-1] == "checked_sub"), None)
        if x is None:
            return False
        a, b = (peel(y) for y in x.a[2])
    else:
        return False
    return a.k == "CALL" and a.a[0].endswith("Instant::now") and b.k == "AGG" and not has(b, lambda t: t.k in ("CALL", "SYM", "VF", "FLD")) and any(t.k == "C" and type(t.a[0]) is int and t.a[0] > 0 for t in subterms(b))


class Starts(Base):
    """auto: the time read last, since the last task was received"""
    opaque = ("send_started", "send_finished", "wait_with_output", "write_all_input", "send_unable_to_start", "soft_cancelled", "hard_cancelled", "ReadyTrackerClient::recv", "ReadyTrackerClient::try_recv")

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.n = 0

    def init(self):
        return ()

    def on(self, I, st, ev):
        if ev.kind == "ret" and ev.path.endswith("Instant::now"):
            st.auto = tuple(sorted({*st.auto, ev.val}, key=show))
        elif ev.kind == "call" and ev.path.split("::")[-1] in ("recv", "try_recv"):
            st.auto = ()
        elif ev.kind == "call" and ev.path.endswith(TOK + "::soft_cancelled"):
            v = I.canon(st, ev.args[1])
            if v in st.auto:
                self.n += 1
            else:
                self.viol(I, st, "start", "the local runner waits for a cancel with the start %s, not with the time it read after it received the task" % show(v)[:60], ev.cx)
        return True


def I_val(I, st, v):
    v = I.canon(st, v)
    n = 6
    while n and (v.k == "REF" or v.k == "CALL" and v.a[0].split("::")[-1] in ("clone", "cloned", "to_owned")):
        v = st.load(v) if v.k == "REF" else v.a[2][0]
        n -= 1
    return peel(v)
