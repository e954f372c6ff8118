"""C28: a task is handed out only with a permit of the rate limiter, and a permit takes its share of the rate."""
from servicer import *
from rules.c37 import fieldmap
RULE = ("ReadyTrackerClient::recv: every path that returns a task has awaited RateLimiter::until_ready of the tracker's limiter to its end, once, before it takes the task from a queue; no other function takes tasks from the ready queues. "
        "RateLimiter::until_ready: it returns only right after a compare-and-swap of tat succeeded that started from the value of tat it had read and granted a permit; evaluated on every path for each order and distance of the clock, tat and tau (boundaries included): with t = max(tat, now) + tau a permit is granted if and only if tau is 0 or t - 1 s <= now, a grant stores t (tau 0: tat unchanged), a refusal leaves max(tat, now), and it sleeps exactly until the permit can be granted. "
        "new and reset: tau = 1 s / rate (0 for rate 0), tat = now + tau * rate; nothing else writes them. rate_per_second is 1 s / tau, or 0. new_ready_tracker, set_ratelimit and get_launch_ratelimit pass the rate on unchanged.")
ASSUME = ["the clock does not go back", "compare_exchange and tokio's sleep", "rates up to 10^9 per second (beyond that tau is 0: no limit)"]
P = 10**9
RATES = (0, 1, 7, 1000, 1 << 20, (1 << 32) - 1)


def last(t):
    return t.a[0].split("::")[-1]


class Quiet(Base):
    opaque = ()

    def keepfact(self, st, k):
        return not has(k, lambda t: t.k in ("OLD", "PHI"))

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.keepfact(st, k))))


ATOMIC_READ = ("load",)
CAS = ("compare_exchange", "compare_exchange_weak")


class Limiter(Quiet):
    """auto: (the last compare-and-swap, with the state's facts still to be judged; sleeps seen)"""

    def __init__(self, prog, rep, tau, tat):
        super().__init__(prog, rep)
        self.tau = tau
        self.tat = tat
        self.waits = []

    def init(self):
        return None

    def on(self, I, st, ev):
        m = ev.path.split("::")[-1] if ev.path else ""
        if ev.kind == "ret" and "sync::atomic::Atomic" in (ev.path or ""):
            if m in CAS:
                st.auto = I.canon(st, ev.val)
            elif m not in ATOMIC_READ:
                self.viol(I, st, "write:" + m, "until_ready changes the limiter with %s" % m, ev.cx)
        elif ev.kind == "call" and m in ("sleep", "sleep_until"):
            self.waits.append((st.copy(), m, I.canon(st, ev.args[0]), ev.cx))
        elif ev.kind == "await" and peel(ev.args[0]).k == "CALL" and last(peel(ev.args[0])) == "sleep":
            st.auto = None
            for k in list(st.facts):
                st.facts.pop(k)
        return True


def env(tau, tat, now, ftau, ftat):
    at = lambda f: lambda t: t.k == "CALL" and last(t) == "load" and t.a[2] and infield(t.a[2][0], f)
    return [(at(ftau), tau), (at(ftat), tat), (lambda t: t.k == "FLD" and str(t.a[1]) == "tv_sec", now // P), (lambda t: t.k == "FLD" and str(t.a[1]) == "tv_nsec", now % P)]


def samples():
    now = 100 * P
    for tau in (0, 1, 7, P // 50, P // 2, P):
        for d in sorted({-50 * P, -P, -tau - 1, -1, 0, 1, P - tau - 1, P - tau, P - tau + 1, P - 1, P, P + 1, 3 * P}):
            yield tau, now + d, now


def check_limiter(P_, rep, ftau, ftat):
    b = [x for x in P_.by_path("RateLimiter::until_ready", "execgraph", "fn")]
    if len(b) != 1:
        raise AnchorError("RateLimiter::until_ready")
    b = b[0]
    r = Limiter(P_, rep, ftau, ftat)
    exits = list(r.start(b))
    seen = set()
    for tau, tat, now in samples():
        e = env(tau, tat, now, ftau, ftat)
        t = max(tat, now) + tau
        grant = tau == 0 or t - P <= now
        some = False
        for st, v in exits:
            if not possible(st, e):
                continue
            some = True
            cas = st.auto
            what = "for tau=%d, tat=now%+d" % (tau, tat - now)
            if cas is None or st.variants(cas, RES) != frozenset({"Ok"}):
                rep.viol("permit:cas", "until_ready returns without having taken a permit %s" % what, loc(b))
                continue
            place, old, new = cas.a[2][:3]
            ok = infield(place, ftat) and number(old, e) == tat and any(peel(old).k == "CALL" and last(peel(old)) == "load" for _ in (0,))
            rep.need(ok, "permit:old", "the swap starts from the value of tat that was read" if ok else "the swap starts from %s" % show(old)[:50], loc(b))
            n = number(new, e)
            want = (tat, max(tat, now)) if tau == 0 else (t,)
            if not grant:
                rep.viol("permit:early", "until_ready gives a permit too early %s" % what, loc(b))
            else:
                rep.need(n in want, "permit:new", "a permit moves tat by its share" if n in want else "a permit stores tat=now%s, not now%+d (%s)" % ("?" if n is None else "%+d" % (n - now), want[0] - now, what), loc(b))
            seen.add("grant" if tau else "nolimit")
        if grant and not some:
            rep.viol("permit:late", "until_ready gives no permit for tau=%d, tat=now%+d" % (tau, tat - now), loc(b))
        for st, m, d, cx in r.waits:
            if grant and tau and possible(st, e) and number(d, e) not in (None, 0):
                pass
            if possible(st, e):
                x = number(d, e)
                cas = st.auto
                if grant:
                    rep.viol("wait:granted", "until_ready sleeps although it took a permit for tau=%d, tat=now%+d" % (tau, tat - now), "%s:%s" % tuple(cx.span[:2]))
                    continue
                ok = m == "sleep" and x == t - P - now
                rep.need(ok, "wait", "it sleeps until the permit can be granted" if ok else "it sleeps %s ns instead of %d" % (x, t - P - now), loc(b))
                if cas is not None:
                    n = number(cas.a[2][2], e)
                    rep.need(n in (tat, max(tat, now)), "refuse", "a refusal takes nothing" if n in (tat, max(tat, now)) else "a refusal stores tat=now%s" % ("?" if n is None else "%+d" % (n - now)), loc(b))
                seen.add("refuse")
    rep.take(r.I, r)
    rep.need({"grant", "refuse", "nolimit"} <= seen, "cases", "grants, refusals and the unlimited case were judged" if {"grant", "refuse", "nolimit"} <= seen else "only %s were found" % sorted(seen), loc(b))


class Sets(Quiet):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)

    def init(self):
        return ()

    def on(self, I, st, ev):
        m = ev.path.split("::")[-1] if ev.path else ""
        if ev.kind == "ret" and "sync::atomic::Atomic" in (ev.path or "") and m not in ("load", "new", "from"):
            st.auto = st.auto + ((m, I.canon(st, ev.args[0]), I.placeof(st, ev.args[0]), I.canon(st, ev.args[1]) if len(ev.args) > 1 else None),)
        return True


def inner(v):
    v = peel(v)
    while v.k == "CALL" and last(v) in ("new", "from", "into") and v.a[2]:
        v = peel(v.a[2][0])
    return v


def check_sets(P_, rep, ftau, ftat, LP):
    bodies = {b.df.npath.split("::")[-1]: b for b in P_.bodies.values() if b.kind == "fn" and b.key.startswith("execgraph::") and b.df.npath.split("::")[-2:-1] == ["RateLimiter"]}
    for name, b in sorted(bodies.items()):
        if name == "until_ready" or not b.vis:
            continue
        r = Sets(P_, rep)
        for st, v in r.start(b):
            v = peel(r.I.canon(st, v))
            got = {}
            if v.k == "AGG" and v.a[1] and v.a[1].split("::")[-1] == "RateLimiter":
                fs = fieldmap(v)
                got = {ftau: inner(r.I.canon(st, fs[ftau])), ftat: inner(r.I.canon(st, fs[ftat]))}
            for m, val, place, x in st.auto:
                f = next((f for f in (ftau, ftat) if infield(place, f) or infield(val, f)), None)
                if f is None:
                    continue
                if m != "store":
                    if b.vis:
                        rep.viol("write:%s" % name, "RateLimiter::%s changes %s with %s" % (name, f, m), loc(b))
                    continue
                got[f] = x
            if not got:
                if name == "rate_per_second":
                    for tau in (0, 1, 3, P // 50, P):
                        e = [(lambda t: t.k == "CALL" and last(t) == "load" and infield(t.a[2][0], ftau), tau)]
                        if possible(st, e):
                            x = number(v, e)
                            ok = x == (P // tau if tau else 0)
                            rep.need(ok, "rate", "rate_per_second is the rate" if ok else "rate_per_second is %s for tau=%d" % (x, tau), loc(b))
                continue
            if not b.vis:
                continue
            rep.see = None
            if set(got) != {ftau, ftat}:
                rep.viol("set:" + name, "RateLimiter::%s sets only %s" % (name, sorted(got)), loc(b))
                continue
            if not b.argc:
                continue
            now = 100 * P
            for rate in (0, 1, 2, 3, 50, 1000, 10**6):
                e = [(lambda t: t.k == "SYM" and str(t.a[0]).startswith("param:") and "self" not in str(t.a[0]), rate)] + env(None, None, now, "-", "-")[2:]
                if not possible(st, e):
                    continue
                tau = P // rate if rate else 0
                a, c = number(got[ftau], e), number(got[ftat], e)
                rep.need(a == tau, "set:tau", "tau is one second divided by the rate" if a == tau else "RateLimiter::%s: tau is %s for a rate of %d" % (name, a, rate), loc(b))
                rep.need(c == now + tau * rate, "set:tat", "a new rate starts with an empty bucket" if c == now + tau * rate else "RateLimiter::%s: tat is now%s for a rate of %d" % (name, "?" if c is None else "%+d" % (c - now), rate), loc(b))
                rep.count("rates set")
        rep.take(r.I, r)
    for n in ("new", "reset", "rate_per_second"):
        if n not in bodies:
            raise AnchorError("RateLimiter::" + n)


class Takes(Base):
    """auto: (permits, tasks taken)"""
    opaque = ("RateLimiter::until_ready",)

    def __init__(self, prog, rep, flim, item):
        super().__init__(prog, rep)
        self.flim = flim
        self.item = item
        self.n = 0

    def init(self):
        return (0,)

    def keepfact(self, st, k):
        return False

    def part(self, st):
        return st.auto

    def on(self, I, st, ev):
        if ev.kind == "await" and ev.args and peel(ev.args[0]).k == "CALL":
            f = peel(ev.args[0])
            if pathis(f.a[0], "RateLimiter::until_ready"):
                ok = infield(f.a[2][0], self.flim) or infield(I.placeof(st, f.a[2][0]), self.flim)
                if not ok:
                    self.viol(I, st, "limiter", "waits for another limiter", ev.cx)
                st.auto = (min(2, st.auto[0] + 1),)
            elif last(f) == "recv":
                self.n += 1
                if st.auto[0] != 1:
                    self.viol(I, st, "permit:%d" % st.auto[0], "a task is taken from a queue with %d permits" % st.auto[0], ev.cx)
        return True


class Passes(Base):
    opaque = ("RateLimiter::new", "RateLimiter::reset", "RateLimiter::rate_per_second")

    def init(self):
        return ()

    def on(self, I, st, ev):
        if ev.kind == "call" and "RateLimiter::" in ev.path:
            self.got.append((ev.path.split("::")[-1], [I.canon(st, a) for a in ev.args], I.placeof(st, ev.args[0]) if ev.args else None, ev.cx))
        return True


def check(P_, rep):
    L = adt(P_, "RateLimiter")
    LP = L["def"].npath
    fs = [f["name"] for f in fields(L)]
    # tau is the one that rate_per_second reads
    b = P_.by_path("RateLimiter::rate_per_second", "execgraph", "fn")
    if len(b) != 1 or len(fs) != 2:
        raise AnchorError("the two fields of RateLimiter")
    r = Quiet(P_, rep)
    used = set()
    for st, v in r.start(b[0]):
        for k in list(st.facts) + [r.I.canon(st, v)]:
            used |= {f for f in fs if infield(k, f)}
    if len(used) != 1:
        raise AnchorError("the interval of RateLimiter")
    ftau = used.pop()
    ftat = next(f for f in fs if f != ftau)
    check_limiter(P_, rep, ftau, ftat)
    check_sets(P_, rep, ftau, ftat, LP)
    rep.floor("rates set", rep.n.get("rates set", 2) if hasattr(rep, "n") else 2, 1)
    R = Roles(P_)
    K = R.K
    flim = fieldof(P_, K, lambda t: t.k == "adt" and t.path == LP, "rate limiter of the tracker")
    if R.recv is None:
        raise AnchorError("ReadyTrackerClient::recv")
    t = Takes(P_, rep, flim, R.ipath)
    n = 0
    for st, v in t.start(R.recv):
        v = peel(t.I.canon(st, v))
        if v.k == "AGG" and v.a[2] == "Err":
            continue
        n += 1
        rep.need(st.auto[0] == 1, "recv", "a task is handed out with one permit" if st.auto[0] == 1 else "a task is handed out with %d permits" % st.auto[0], loc(R.recv))
    rep.take(t.I, t)
    rep.floor("tasks handed out by recv", n, 1)
    rep.floor("takings from a queue", t.n, 1)
    key = R.recv.key
    for b, span, path, term in scan.calls(P_, lambda p: p.split("::")[-1] in ("recv", "try_recv", "recv_blocking") and "Receiver" in p, "execgraph"):
        ga = term[1][1][3]
        if any(getattr(x, "path", None) == R.ipath for g in ga for x in ([g] if not isinstance(g, (list, tuple)) else g)):
            ok = b.key == key or b.key.startswith(key + "::")
            top = scan.enclosing_fn(P_, b) if hasattr(scan, "enclosing_fn") else b
            if not ok:
                callers = getattr(top, "key", top)
                ok = callers == key or callers in t.I.inlined if hasattr(t.I, "inlined") else False
            rep.need(ok, "taker:" + b.df.npath.split("::")[-1], "the ready queues are read by recv only" if ok else "%s takes from a ready queue" % b.df.npath, "%s:%s" % tuple(span[:2]))
    # passing the rate on
    for fn, what, arg in (("new_ready_tracker", "new", "ratelimit_per_second"), ("ReadyTrackerClient::set_ratelimit", "reset", None), ("ReadyTrackerClient::get_launch_ratelimit", "rate_per_second", None)):
        b = P_.by_path(fn, "execgraph", "fn")
        if len(b) != 1:
            raise AnchorError(fn)
        b = b[0]
        p = Passes(P_, rep)
        p.got = []
        outs = list(p.start(b))
        here = "%s passes the rate on" % fn
        if not p.got:
            rep.viol("pass:" + fn, "%s does not use the limiter" % fn, loc(b))
        for m, args, place, cx in p.got:
            if m != what:
                rep.viol("pass:" + fn, "%s calls %s" % (fn, m), loc(b))
                continue
            if what == "rate_per_second":
                ok = infield(place, flim) or infield(args[0], flim)
                for st, v in outs:
                    v = p.I.canon(st, v)
                    ok = ok and all(number(v, [(lambda t: t.k == "CALL" and last(t) == "rate_per_second", n)]) == n for n in RATES)
            else:
                x = args[-1]
                ints = [i for i in range(b.argc) if b.locals[i + 1][0].k == "uint"]
                names = ["param:" + str(b.params[i]) for i in ints]
                want = [nm for nm in names if arg is None or nm.endswith(arg)]
                ok = len(want) == 1 and all(number(x, [(lambda t: t.k == "SYM" and t.a[0] == want[0], n)]) == n for n in RATES)
                if what == "reset":
                    ok = ok and (infield(place, flim) or infield(args[0], flim))
            rep.need(ok, "pass:" + fn, here if ok else "%s does not pass the rate on unchanged: %s" % (fn, [show(a)[:40] for a in args]), loc(b))
        rep.take(p.I, p)
