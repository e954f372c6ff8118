"""C20: the remote runner's side of a transaction."""
from servicer import *
import c22
import txn
RULE = ("run_command, on every path: the transaction is the one of the start response that was handed in, or, if none was, of the reply to the one /start that is sent; a /begun and then an /end are sent for it, each at most once; an /end is sent only when the /begun was answered without an error; "
        "Ok is returned only when both were sent and answered without an error, with exactly the start response of the /end's reply; an error only where something failed, the token was cancelled or the last message was sent. Every wait for /begun, for the process and for the last /end is a select! with the cancellation of the token. "
        "An /end asks for another task exactly when still_accepting_tasks says so, with the runner's own type and message (and a runner about to be killed does not). The ping task goes on until the token is cancelled, sends one ping with the transaction's id at each tick of an interval of at most the ping interval, and cancels the token exactly when a ping fails; "
        "the watcher cancels it exactly when no answer came for longer than the ping interval. The token is cancelled when run_command ends. main: the first run_command gets no start response, each later one that of the one before; the loop ends on an error or when there is none. Every request is one that a route of the server takes: path, method, type of body.")
ASSUME = ["tokio's select!, interval and timeout, tokio_util's CancellationToken and its drop guard", "reqwest and hyper deliver a request once; a reply of status 4xx or 5xx makes error_for_status an error"]
OPAQUE = c22.REMOTE + ("still_accepting_tasks", "wait_with_output", "write_all_input", "make_pipes", "cleanup_child_processes_carefully", "TimingInfo::debug_average_times", "SigtermChildBeforeSchedulerDeadline::message", "SigtermChildBeforeSchedulerDeadline::new", "set_current_process_as_child_subreaper", "async_watcher")
BODY = {"start": "StartRequest", "begun": "BegunRequest", "end": "EndRequest", "ping": "Ping"}
TOKEN = "CancellationToken"


def last(t):
    return t.a[0].split("::")[-1] if t.k == "CALL" else ""


def adtname(v):
    v = peel(v)
    return v.a[1].split("::")[-1] if v.k == "AGG" and v.a[1] else None


class Request:
    """a request that is being sent: send(postcard(post(client, join(base, route)?), body)?)"""

    def __init__(self, I, st, f):
        self.route = self.body = self.method = None
        f = peel(f)
        if last(f) not in ("send", "execute"):
            return
        for t in [f] + list(subterms(f.a[2][0])):
            if t.k == "CALL" and last(t) == "postcard" and len(t.a[2]) == 2 and self.body is None:
                self.body = peel(I.canon(st, t.a[2][1]))
            if t.k == "CALL" and last(t) in ("get", "post", "put", "request", "delete", "patch", "head") and len(t.a[2]) > 1 and self.method is None:
                self.method = last(t)
            if t.k == "CALL" and last(t) == "join" and self.route is None:
                c = [x.a[0] for x in subterms(t) if x.k == "C" and type(x.a[0]) is str]
                self.route = c[0] if len(c) == 1 else None


class Runner(Base):
    opaque = OPAQUE

    def __init__(self, prog, rep, params):
        super().__init__(prog, rep)
        self.params = params
        self.sent = set()
        self.tokens = set()
        self.n = {}
        self.tasks = []
        self.routes = {}
        self.kind = None

    def init(self):
        return ()

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def get(self, st, k, d=None):
        for a, b in st.auto:
            if a == k:
                return b
        return d

    def put(self, st, **kw):
        m = dict(st.auto)
        m.update(kw)
        st.auto = tuple(sorted(m.items(), key=lambda x: x[0]))

    def kept(self, k):
        if k.k == "OP":
            return has(k, lambda t: last(t) == "status")
        if k.k == "CALL":
            return last(k) in ("still_accepting_tasks", "is_success", "is_cancelled")
        if k.k != "DISCR":
            return False
        x = peel(k.a[0])
        return x.k == "SYM" and x.a[0].startswith("param:") or x.k == "FLD" and str(x.a[1]) == "fd_input" or last(x) in ("spawn", "fd_mappings", "error_for_status") or last(x) == "await" and not has(x, lambda t: last(t) in ("recv", "wait_with_output"))

    def keepfact(self, st, k):
        return self.kept(k)

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.kept(k))))

    # ------------------------------------------------------------------
    def tx(self, I, st, v):
        """the start response that a term is a part of: "given", or the reply to /start"""
        v = peel(I.canon(st, v))
        while v.k in ("FLD", "VF"):
            if v.k == "VF" and peel(v.a[0]).k == "SYM" and peel(v.a[0]).a[0] == self.params["start"]:
                return "given"
            if v.k == "VF" and v.a[1] == "Ok" and last(peel(v.a[0])) == "await" and has(v, lambda t: last(t) == "postcard"):
                for t in subterms(v):
                    if last(t) == "send":
                        if Request(I, st, t).route == "start":
                            return "asked"
            v = peel(v.a[0])
        if v.k == "SYM" and v.a[0] == self.params["start"]:
            return "given"
        return None

    def good(self, st, val):
        """the answer to a request is known not to be an error (of the connection, or of the server)"""
        if st.variants(val, RES) != frozenset({"Ok"}):
            return False
        return any(k.k == "DISCR" and last(peel(k.a[0])) == "error_for_status" and has(k, lambda t: t is val) and f == ("in", frozenset({"Ok"})) for k, f in st.facts.items())

    def token(self, I, st, v):
        """the token that a value stands for"""
        v = peel(I.canon(st, v))
        for _ in range(6):
            if v.k == "REF":
                v = peel(I.canon(st, st.load(v)))
            elif v.k == "CALL" and last(v) in ("clone", "child_token") and v.a[2]:
                if last(v) == "child_token":
                    return None
                v = peel(v.a[2][0])
            else:
                break
        if v.k == "CALL" and v.a[0].endswith(TOKEN + "::new"):
            self.tokens.add(v)
            return v
        return None

    def cancelling(self, I, st, f):
        f = peel(f)
        return self.token(I, st, f.a[2][0]) if last(f) in ("cancelled", "cancelled_owned") and TOKEN in f.a[0] else None

    # ------------------------------------------------------------------
    def on(self, I, st, ev):
        k = ev.kind
        m = (ev.path or "").split("::")[-1]
        task = self.get(st, "in")
        if k == "call" and ev.path in SPAWN:
            self.spawn(I, st, ev)
        elif k == "yield" and ev.path == "timeout" and task == "task":
            d = self.duration(I, st, ev.args[0].a[2][0])
            if d is None or d <= 10**9:
                self.viol(I, st, "timeout", "an answer counts as late after %s" % show(I.canon(st, ev.args[0].a[2][0]))[:60], ev.cx)
            if self.get(st, "elapsed") and not self.get(st, "cancel"):
                self.viol(I, st, "late:ignored", "an answer that is late does not cancel the token", ev.cx)
            if self.kind is not None:
                self.kind.add("timeout")
            self.put(st, elapsed=True)
        elif k == "yield" and ev.path == "select":
            found = set()
            todo = [I.canon(st, ev.args[0].a[2][0])]
            seen = set()
            while todo and len(seen) < 60:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                for t in subterms(x):
                    if t.k == "REF":
                        todo.append(I.canon(st, st.load(t)))
                    elif t.k == "CALL" and last(t) in ("cancelled", "cancelled_owned"):
                        found.add("cancelled:%s" % (self.cancelling(I, st, t) is not None))
            self.put(st, sel="cancelled:True" in found)
        elif k == "await" and ev.args:
            self.awaited(I, st, ev, task)
        elif k == "call" and TOKEN in (ev.path or "") and m == "cancel":
            if self.token(I, st, ev.args[0]) is not None:
                self.put(st, cancel=True)
                if task == "task":
                    if not self.get(st, "elapsed") and not self.get(st, "cancelled"):
                        self.viol(I, st, "cancel:early", "a background task cancels the token although no answer is late", ev.cx)
        elif k == "ret" and TOKEN in (ev.path or "") and m == "drop_guard":
            if self.token(I, st, ev.args[0]) is not None:
                self.put(st, guard=I.canon(st, ev.val))
        elif k == "call" and m in ("disarm", "forget") and self.get(st, "guard") is not None and ev.args and has(I.canon(st, ev.args[0]), lambda t: t is self.get(st, "guard")):
            self.put(st, guard=None)
        elif k == "call" and TOKEN in (ev.path or "") and m in ("child_token", "run_until_cancelled"):
            self.viol(I, st, "token:" + m, "the token is used with %s" % m, ev.cx)
        elif k == "drop" and "DropGuard" in str(ev.extra) and self.get(st, "guard") is not None and has(I.canon(st, ev.val), lambda t: t is self.get(st, "guard")):
            self.put(st, guard=None, cancel=True)
        elif k == "ret" and m == "spawn" and "Command" in (ev.path or ""):
            self.put(st, spawned=True)
        elif k == "call" and m in ("interval", "interval_at") and "time" in ev.path:
            p = self.duration(I, st, ev.args[-1])
            ok = p is not None and 0 < p <= 10**9
            self.see("interval")
            if not ok:
                self.viol(I, st, "interval", "pings are sent every %s" % show(I.canon(st, ev.args[-1]))[:60], ev.cx)
        elif k == "agg" and ev.val is not None and adtname(ev.val) in ("StartRequest",):
            self.judge_start(I, st, ev)
        return True

    def duration(self, I, st, v):
        """a duration, when the ping interval is a second"""
        return number(I.canon(st, v), [(lambda t: t.k == "FLD" and str(t.a[1]) == "ping_interval_msecs" and self.tx(I, st, t) is not None, 1000)])

    def judge_start(self, I, st, ev):
        fs = dict(zip([str(x) for x in ev.val.a[3]], ev.val.a[4]))
        for f in ("runnertypeid", "disconnect_error_message"):
            v = peel(I.canon(st, fs[f]))
            ok = v.k == "FLD" and str(v.a[1]) == f and peel(v.a[0]).k in ("SYM", "DEREF") and has(v, lambda t: t.k == "SYM" and t.a[0] == self.params["opt"])
            if not ok:
                self.viol(I, st, "startrequest:" + f, "asks for a task with %s = %s" % (f, show(v)[:60]), ev.cx)
        self.see("startrequest")

    def fields(self, v):
        return dict(zip([str(x) for x in v.a[3]], v.a[4])) if v.k == "AGG" else {}

    def awaited(self, I, st, ev, task):
        f = peel(ev.args[0])
        cx = ev.cx
        if self.cancelling(I, st, f) is not None:
            self.put(st, cancelled=True, elapsed=False, sel=False)
            return
        r = Request(I, st, f)
        if last(f) == "send" and r.route is None and r.method is not None:
            self.viol(I, st, "route", "a request to %s" % show(f)[:60], cx)
            return
        if r.route is not None:
            self.request(I, st, ev, r, task)
            return
        if last(f) == "postcard":
            q = [Request(I, st, t) for t in subterms(f) if last(t) == "send"]
            if q and q[0].route == "end":
                self.put(st, reply=ev.val)
            return
        if last(f) == "wait_with_output" or last(f) == "wait" and "Child" in f.a[0]:
            if task is None:
                if not self.get(st, "sel"):
                    self.viol(I, st, "unguarded:process", "the process is waited for without a look at the token", cx)
                if not self.get(st, "begun") or not self.good(st, self.get(st, "begun")):
                    self.viol(I, st, "begun:late", "the process is waited for before its start was reported", cx)
                self.put(st, waited_for=True)
        elif last(f) == "tick":
            if task == "task":
                if self.get(st, "tick") and not self.get(st, "pinged"):
                    self.viol(I, st, "ping:missing", "a tick passes without a ping", cx)
                self.put(st, tick=True, pinged=False)
                self.kind.add("tick")
        elif last(f) == "recv" and task == "task":
            self.put(st, elapsed=False, sel=False, recv=True)
            self.see("pong received")
        elif last(f) == "send" and len(f.a[2]) == 2 and task == "reply":
            self.put(st, pong=True)
        elif last(f).startswith("sleep") and task == "task":
            p = self.duration(I, st, f.a[2][0])
            self.put(st, tick=True, pinged=False)
            self.kind.add("tick")
            if p is None or not 0 < p <= 10**9:
                self.viol(I, st, "interval", "pings are sent every %s" % show(f)[:60], cx)
            self.see("interval")

    def request(self, I, st, ev, r, task):
        cx = ev.cx
        n = adtname(r.body) if r.body is not None else None
        self.routes.setdefault(r.route, set()).add((r.method, n))
        if BODY.get(r.route) != n:
            self.viol(I, st, "body:%s" % r.route, "/%s is sent %s" % (r.route, n), cx)
            return
        self.sent.add(r.route)
        fs = self.fields(r.body)
        if r.route == "start":
            if self.get(st, "start") is not None:
                self.viol(I, st, "twice:start", "/start is sent twice", cx)
            if not any(k.k == "DISCR" and peel(k.a[0]).k == "SYM" and peel(k.a[0]).a[0] == self.params["start"] and fv == ("in", frozenset({"None"})) for k, fv in st.facts.items()):
                self.viol(I, st, "start:given", "/start is sent although a start response was handed in", cx)
            self.put(st, start=ev.val)
            return
        if task is None and self.get(st, "cancel"):
            self.viol(I, st, "token:gone:%s" % r.route, "/%s is sent although the token has been cancelled" % r.route, cx)
        t = self.tx(I, st, fs["transaction_id"])
        x = peel(I.canon(st, fs["transaction_id"]))
        if t is None or not (x.k == "FLD" and str(x.a[1]) == "transaction_id"):
            self.viol(I, st, "transaction:%s" % r.route, "/%s names the transaction %s" % (r.route, show(x)[:60]), cx)
        if r.route == "ping":
            if task is None:
                self.viol(I, st, "ping:where", "a ping is sent outside of the ping task", cx)
            self.put(st, ping=ev.val, pinged=True)
            return
        if task is not None:
            self.viol(I, st, "request:task", "a background task sends /%s" % r.route, cx)
            return
        if r.route == "begun":
            if not self.get(st, "pinging") or not self.get(st, "watching"):
                self.viol(I, st, "noping", "/begun is sent before the ping task and its watcher are started", cx)
            if not self.get(st, "spawned") and not any(k.k == "DISCR" and last(peel(k.a[0])) == "fd_mappings" and fv == ("in", frozenset({"Err"})) for k, fv in st.facts.items()):
                self.viol(I, st, "begun:early", "/begun is sent before the process is started", cx)
            if self.get(st, "begun") is not None:
                self.viol(I, st, "twice:begun", "/begun is sent twice", cx)
            if not self.get(st, "sel"):
                self.viol(I, st, "unguarded:begun", "/begun is waited for without a look at the token", cx)
            self.put(st, begun=ev.val, sel=False)
        elif r.route == "end":
            b = self.get(st, "begun")
            if b is None or not self.good(st, b):
                self.viol(I, st, "end:order", "/end is sent although no /begun was answered without an error", cx)
            if self.get(st, "end") is not None:
                self.viol(I, st, "twice:end", "/end is sent twice", cx)
            self.put(st, end=ev.val, guarded=bool(self.get(st, "sel")), sel=False)
            s = peel(I.canon(st, fs["start_request"]))
            acc = [fv for fk, fv in st.facts.items() if fk.k == "CALL" and last(fk) == "still_accepting_tasks"]
            vs = st.variants(s, OPT)
            if vs == frozenset({"Some"}):
                if adtname(payload(s, "Some")) != "StartRequest" or ("in", frozenset({True})) not in acc:
                    self.viol(I, st, "more:unasked", "/end asks for another task although still_accepting_tasks did not allow it", cx)
                self.put(st, more=True)
                self.see("asks for more")
            elif vs == frozenset({"None"}):
                self.put(st, more=False, declined=("in", frozenset({False})) in acc)
            else:
                ok = last(s) in ("then", "then_some") and has(s, lambda t: last(t) == "still_accepting_tasks")
                if not ok:
                    self.viol(I, st, "more:unknown", "/end asks for another task with %s" % show(s)[:60], cx)

    def spawn(self, I, st, ev):
        """a background task: analysed on its own with the state at its spawn"""
        task = self.get(st, "in")
        if task == "task":
            if self.pings(I, st, ev.args[0]):
                self.put(st, pinged=True)
                for s, v in self.detached(I, st, ev, (("in", "reply"),)):
                    self.reply(I, s, ev.cx)
            return
        if task is not None:
            return
        kind = set()
        self.kind = kind
        outs = list(self.detached(I, st, ev, (("in", "task"),)))
        self.kind = None
        for s, v in outs:
            gone = any(last(k) == "is_cancelled" and f == ("in", frozenset({True})) and self.token(I, s, k.a[2][0]) is not None for k, f in s.facts.items() if k.k == "CALL" and k.a[2])
            if not self.get(s, "cancelled") and not gone and not (self.get(s, "elapsed") and self.get(s, "cancel")):
                self.viol(I, s, "task:ends", "the task that %s ends although the token is not cancelled" % ("sends the pings" if "tick" in kind else "watches the answers"), ev.cx)
            if self.get(s, "elapsed") and not self.get(s, "cancel"):
                self.viol(I, s, "late:ignored", "an answer that is late does not cancel the token", ev.cx)
        if "tick" in kind:
            self.put(st, pinging=True)
            self.see("ping task")
        if "timeout" in kind:
            self.put(st, watching=True)
            self.see("watcher")

    def pings(self, I, st, v):
        """a future that holds a ping that is being sent, or one that is to be sent"""
        todo = [I.canon(st, v)]
        seen = set()
        while todo and len(seen) < 60:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for t in subterms(x):
                if t.k == "REF":
                    todo.append(I.canon(st, st.load(t)))
                elif last(t) == "send" and Request(I, st, t).route == "ping" or last(t) == "join" and any(y.k == "C" and y.a[0] == "ping" for y in subterms(t)):
                    return True
        return False

    def reply(self, I, st, cx):
        p = self.get(st, "ping")
        if p is None:
            return self.viol(I, st, "ping:unsent", "a ping is not sent", cx)
        ok = st.variants(p, RES) == frozenset({"Ok"})
        good = ok and any(f == ("in", frozenset({True})) and (k.k == "OP" and k.a[0] == "Eq" or last(k) == "is_success") and has(k, lambda t: last(t) == "status") and has(k, lambda t: t is p) for k, f in st.facts.items()) or self.good(st, p)
        if self.get(st, "pong"):
            self.see("pong")
            if not good:
                self.viol(I, st, "pong:bad", "a ping that failed counts as answered", cx)
        elif good:
            self.viol(I, st, "pong:missing", "an answered ping does not count", cx)
        elif not self.get(st, "cancel"):
            self.viol(I, st, "ping:ignored", "a ping that failed does not cancel the token", cx)
        else:
            self.see("failed ping")


def check_runner(P, rep):
    b = P.fn("run_command", "execgraph_remote")
    ty = lambda i: str(getattr(b.locals[i + 1], "s", None) or getattr(b.locals[i + 1][0], "s", b.locals[i + 1]))
    def par(s, what):
        x = [i for i in range(b.argc) if s in ty(i)]
        if len(x) != 1:
            raise AnchorError("the %s parameter of run_command" % what)
        return "param:%s" % b.params[x[0]]
    r = Runner(P, rep, {"start": par("StartResponse", "start response"), "opt": par("CommandLineArguments", "options")})
    n = 0
    for st, v in r.start(b):
        v = peel(r.I.canon(st, v))
        at = loc(b)
        if not self_ended(r, st):
            rep.viol("token:leaked", "run_command can end without the token being cancelled: the pings go on", at)
        if v.k == "AGG" and v.a[2] == "Err":
            if not (r.get(st, "cancelled") or r.get(st, "end") is not None or has(v, lambda t: t.k == "VF" and t.a[1] == "Err")):
                rep.viol("err", "run_command gives up although nothing failed: %s" % show(v)[:60], at)
            continue
        n += 1
        o = payload(v, "Ok")
        resp = peel(r.I.canon(st, proj(o, ("f", "1", 1))))
        e, reply = r.get(st, "end"), r.get(st, "reply")
        if e is None or r.get(st, "begun") is None:
            rep.viol("ok:end", "run_command ends well without having reported the start and the end", at)
            continue
        ok = r.good(st, e) and reply is not None and st.variants(reply, RES) == frozenset({"Ok"})
        rep.need(ok, "ok:answer", "it ends well only when the end was answered without an error" if ok else "run_command ends well although the answer to /end is an error", at)
        ok = resp.k == "FLD" and str(resp.a[1]) == "start_response" and peel(resp.a[0]).k == "VF" and peel(peel(resp.a[0]).a[0]) is peel(reply) if reply is not None else False
        rep.need(ok, "ok:next", "the next start response is the one of the reply" if ok else "run_command gives %s as the next start response" % show(resp)[:60], at)
        rep.need(bool(r.get(st, "guarded")), "ok:guarded", "the reply to /end is waited for with a look at the token" if r.get(st, "guarded") else "the reply to /end is waited for without a look at the token", at)
        ok = r.get(st, "more") is not False or bool(r.get(st, "declined"))
        rep.need(ok, "ok:more", "another task is asked for when still_accepting_tasks allows it" if ok else "another task is not asked for although still_accepting_tasks was not asked or allows it", at)
    rep.take(r.I, r)
    rep.need(len(r.tokens) == 1, "token", "everything uses one token" if len(r.tokens) == 1 else "%d different tokens are used: what one part cancels another does not see" % len(r.tokens), loc(b))
    rep.floor("ends of run_command that are Ok", n, 2)
    for k, least in (("ping task", 1), ("watcher", 1), ("pong", 1), ("failed ping", 1), ("interval", 1), ("startrequest", 2), ("asks for more", 2)):
        rep.floor("remote: " + k, r.n.get(k, 0), least)
    rep.need(r.sent == set(BODY), "requests", "all four requests are sent" if r.sent == set(BODY) else "only the requests %s are sent" % sorted(r.sent), loc(b))
    return r


def self_ended(r, st):
    return not r.get(st, "pinging") or r.get(st, "guard") is not None or r.get(st, "cancel") or r.get(st, "cancelled")


class Main(Base):
    opaque = ("run_command",) + OPAQUE

    def __init__(self, prog, rep, nstart):
        super().__init__(prog, rep)
        self.i = nstart
        self.n = 0

    def init(self):
        return None

    def keepfact(self, st, k):
        return k.k == "DISCR" and has(k, lambda t: last(t) == "ran")

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.keepfact(st, k) and st.auto is not None and has(k, lambda t: t is st.auto))))

    def on(self, I, st, ev):
        if ev.kind == "await" and ev.args and last(peel(ev.args[0])) == "run_command":
            f = peel(ev.args[0])
            s = peel(I.canon(st, f.a[2][self.i]))
            prev = st.auto
            if prev is None:
                if not (s.k == "AGG" and s.a[2] == "None"):
                    self.viol(I, st, "first", "the first run_command is given %s" % show(s)[:60], ev.cx)
                else:
                    self.n |= 1
            else:
                ok = st.variants(prev, RES) == frozenset({"Ok"})
                t = [x for x in subterms(s) if x.k == "FLD" and str(x.a[1]) == "1" and peel(x.a[0]).k == "VF" and peel(peel(x.a[0]).a[0]) is prev]
                if not ok or not t:
                    self.viol(I, st, "next", "run_command is called again with %s%s" % (show(s)[:60], "" if ok else " after an error"), ev.cx)
                elif st.variants(t[0], OPT) != frozenset({"Some"}):
                    self.viol(I, st, "next:none", "run_command is called again although there is no start response: it asks for a task on its own", ev.cx)
                else:
                    self.n |= 2
            ev.val = call("ran", ev.cx.site)
            st.kill(ev.val)
            st.auto = ev.val
        return True


def check_main(P, rep):
    b = P.fn("run_command", "execgraph_remote")
    i = [i for i in range(b.argc) if "StartResponse" in str(getattr(b.locals[i + 1], "s", None) or getattr(b.locals[i + 1][0], "s", b.locals[i + 1]))][0]
    m = P.fn("main", "execgraph_remote")
    r = Main(P, rep, i)
    outs = list(r.start(m))
    rep.take(r.I, r)
    for st, v in outs:
        prev = st.auto
        if prev is None:
            continue
        vs = st.variants(prev, RES)
        t = proj(payload(prev, "Ok"), ("f", "1", 1))
        ok = vs == frozenset({"Err"}) or vs == frozenset({"Ok"}) and st.variants(t, OPT) == frozenset({"None"})
        rep.need(ok, "stop", "the runner stops on an error or when it has no start response" if ok else "the runner stops although it has a start response: the task that was handed to it is lost", loc(m))
    rep.need(r.n == 3, "loop", "the first call and a later one were found" if r.n == 3 else "the calls of run_command were not understood", loc(m))


def check(P, rep):
    r = check_runner(P, rep)
    check_main(P, rep)
    S = {p.strip("/"): (m, b) for p, m, b in txn.routes(P, P.fn("server::router", "execgraph")) if p}
    for route, uses in sorted(r.routes.items()):
        for method, body in sorted(uses, key=str):
            m, b = S.get(route, (None, None))
            types = [] if b is None else [str(getattr(b.locals[i + 1][0], "s", "")) for i in range(b.argc)]
            ok = b is not None and m == method and any("Postcard" in t and t.rstrip(">").endswith("::" + str(body)) for t in types)
            rep.need(ok, "route:%s" % route, "the server has the route, with the method and the type of body that is sent" if ok else "%s /%s with %s is not what the server takes (%s with %s)" % (method, route, body, m, [t[-40:] for t in types]), loc(b) if b else "-")
