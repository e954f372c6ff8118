"""C16: nothing happens for a request without the run's bearer token."""
from txn import *
RULE = ("Every handler routed by the main server, except GET /status and the fallback: on each path, no use of the server's shared state other than its secret (no call, await or "
        "write whose arguments involve a field of it) before the test that the bearer token of the request equals the secret came out true, and an unauthorised path "
        "answers with an error. /status and the fallback change nothing: no writing operation on the state on any path. The secret is fixed when the server state is made, is "
        "derived from random bits only, and the same value is given to the server and, in its environment, to the provisioner.")
ASSUME = ["axum's TypedHeader<Authorization<Bearer>> extractor delivers the token of the request's Authorization header, or rejects the request before the handler runs"]

WRITES = {"insert", "remove", "remove_if", "remove_if_mut", "clear", "retain", "get_mut", "entry", "alter", "alter_all", "iter_mut", "try_get_mut", "write", "try_write",
          "store", "swap", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_max", "fetch_min", "fetch_update", "compare_exchange", "compare_exchange_weak",
          "send", "try_send", "send_if_modified", "send_modify", "send_replace", "close", "recv", "try_recv", "notify", "notify_one", "notify_waiters", "set", "update"}


def state_params(P, S, body):
    """the parameters of a handler through which it reaches the server state"""
    def holds(t):
        return t is not None and (t.k == "adt" and t.d.key == S.S["def"].key or any(holds(x) for x in (t.a or ())))
    out = set()
    for i in range(1, body.argc + 1):
        if holds(body.locals[i][0]):
            out.add("param:%s" % (body.locals[i][1] or "arg%d" % i))
    return out


class Auth(Base):
    # auto: nothing: the test is looked up among the facts
    def __init__(self, prog, rep, R, S, path, secret, params):
        super().__init__(prog, rep)
        self.R = R
        self.S = S
        self.path = path
        self.opaque = S.opaque()
        self.names = {f["name"] for f in fields(S.S)}
        self.secret = secret
        self.uses = 0
        self.bypath = {b.df.npath for b in prog.bodies.values()}
        self.open = path in ("/status", None)
        self.params = params

    def init(self):
        return 0

    def part(self, st):
        return self.authorised(st)

    def keepfact(self, st, k):
        return k.k == "OP" and k.a[0] == "Eq" and has(k, lambda t: self.R.fieldname(t) == self.secret)

    def istok(self, v):
        v = peel(v)
        while v.k == "CALL" and v.a[0].split("::")[-1] in ("as_str", "as_bytes", "as_ref", "deref", "borrow", "to_owned", "to_string", "as_deref") and v.a[2]:
            v = peel(v.a[2][0])
        return v.k == "CALL" and v.a[0].split("::")[-1] == "token" and "uthorization" in v.a[0] + show(v) and has(v, lambda t: t.k == "SYM" and t.a[0].startswith("param:"))

    def issecret(self, v):
        v = peel(v)
        while v.k == "CALL" and v.a[0].split("::")[-1] in ("as_str", "as_bytes", "as_ref", "deref", "borrow", "to_owned", "to_string", "as_deref") and v.a[2]:
            v = peel(v.a[2][0])
        return self.R.fieldname(v) == self.secret

    def authorised(self, st):
        for f, v in st.facts.items():
            if f.k == "OP" and f.a[0] == "Eq" and v == ("in", frozenset([True])):
                p, q = f.a[1], f.a[2]
                if self.istok(p) and self.issecret(q) or self.istok(q) and self.issecret(p):
                    return True
        return False

    def touched(self, I, st, v):
        """the fields of the server state that v is made from"""
        out = set()
        for x in subterms(v):
            n = x.a[1] if x.k == "FLD" else None
            if n in self.names and n != self.secret:
                r = x.a[0]
                while r.k in ("FLD", "DEREF"):
                    r = r.a[0]
                if r.k == "SYM" and r.a[0] in self.params:
                    out.add(n)
        return out

    def on(self, I, st, ev):
        k = ev.kind
        if k in ("call", "await", "write") and (ev.args or ev.val is not None):
            if k == "call" and self.entered(ev.path):
                return True                      # judged inside
            t = set()
            for a in ev.args:
                if type(a) is V:
                    t |= self.touched(I, st, I.canon(st, a)) | self.touched(I, st, I.placeof(st, a) if a.k == "REF" else a)
            if not t:
                return True
            m = (ev.path or "").split("::")[-1]
            if (ev.path or "").split("::")[-1] in ("clone", "deref", "borrow", "as_ref", "drop", "fmt", "new", "into_future"):
                return True
            if self.open:
                if m in WRITES and k == "call" and "::mem::" not in ev.path and type(ev.args[0]) is V:
                    a = I.canon(st, ev.args[0])
                    t = set() if a.k == "COLL" else self.touched(I, st, a) | self.touched(I, st, I.placeof(st, ev.args[0]) if ev.args[0].k == "REF" else a)
                    if not t:
                        return True                  # a collection of its own
                if m in WRITES or k == "write":
                    self.viol(I, st, "open-writes", "%s, which anybody may call, changes %s (%s)" % (self.path or "the fallback", ", ".join(sorted(t)), m), ev.cx)
                else:
                    self.uses += 1
                    self.discharge("open:%s" % self.path, "reads only")
                return True
            self.uses += 1
            if not self.authorised(st):
                self.viol(I, st, "unauthorised:" + str(self.path), "%s uses %s (%s) before the bearer token of the request is known to be the secret of this run" % (self.path, ", ".join(sorted(t)), m or k), ev.cx)
            else:
                self.discharge("authorised:%s" % self.path, "every use of the state follows the successful token test")
        return True

    def entered(self, path):
        return path in self.bypath and not any(path.endswith(o) for o in self.opaque)

    def finish(self, I, out, body):
        if not self.open:
            for st, v in out:
                if not self.authorised(st) and not (st.variants(I.canon(st, v), RES) == frozenset(["Err"])):
                    w = I.canon(st, v)
                    if w.k == "AGG" and w.a[2] == "Err":
                        continue
                    self.viol(I, st, "unauthorised-answer:" + str(self.path), "%s answers %s to a request whose bearer token is not known to be the secret" % (self.path, show(w)[:80]), I.rootcx(body, 0))
        self.rep.take(I, self)


class Secret(Base):
    """the run: where the secret comes from and who gets it"""
    def __init__(self, prog, rep, R, S, secret):
        super().__init__(prog, rep)
        self.R, self.S, self.secret = R, S, secret
        self.opaque = ("execgraph::get_subgraph", "new_ready_tracker", "run_local_process_loop", "server::router", "reap_pings_forever", "run_admin_service_forever",
                       "background_serve", "ReadyTrackerServer::drain")
        self.n = {"servers": 0, "provisioners": 0}
        self.seen = {}

    def random(self, v):
        return calls_in(v, "random") or any("rand" in x.a[0] for x in subterms(v) if x.k == "CALL")

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path in SPAWN:
            self.detached(I, st, ev)
        if ev.kind == "agg" and ev.val is not None and ev.val.k == "AGG" and ev.val.a[1] == self.S.S["def"].npath:
            v = I.canon(st, proj(ev.val, ("f", self.secret, None)))
            self.n["servers"] += 1
            self.judge(I, st, v, ev.cx, "server")
        if ev.kind == "call" and ev.path and ev.path.endswith("Command::env") and len(ev.args) == 3:
            k = I.canon(st, ev.args[1])
            if k.k == "C" and k.a[0] == "EXECGRAPH_AUTHORIZATION_TOKEN":
                self.n["provisioners"] += 1
                self.judge(I, st, I.canon(st, ev.args[2]), ev.cx, "provisioner")
        return True

    def judge(self, I, st, v, cx, who):
        if not self.random(v):
            self.viol(I, st, "secret-" + who, "the secret given to the %s is %s, which is not made from random bits" % (who, show(v)[:90]), cx)
            return
        bad = [x for x in subterms(v) if x.k == "SYM" and x.a[0].startswith("param:")]
        self.seen.setdefault(who, set()).add(v)
        self.discharge("secret-" + who, "made from random bits")

    def finish(self, I, out, body):
        self.rep.take(I, self)
        if self.n["servers"] and self.n["provisioners"]:
            a, b = self.seen.get("server", set()), self.seen.get("provisioner", set())
            if a != b or len(a) != 1:
                self.rep.viol("secret-differs", "the provisioner is given another token than the server checks: %s / %s" % (sorted(map(show, b))[:2], sorted(map(show, a))[:2]), loc(body))
            else:
                self.rep.ob("secret-same", "server and provisioner get the same token")


def check(P, rep):
    R = Roles(P)
    S = Srv(P, R)
    cand = [f["name"] for f in fields(S.S) if f["ty"].k == "adt" and f["ty"].name == "String"]
    if len(cand) != 1:
        raise AnchorError("the secret of the server state")
    secret = cand[0]
    from scan import field_writers, builders
    done = {}
    for path, m, b in S.routes:
        if path is None and m != "fallback":
            rep.viol("route", "a route whose path is not a constant", loc(b))
            continue
        r = Auth(P, rep, R, S, path if not (path == "/status" and m != "get") else "/status " + m, secret, state_params(P, S, b))
        out = r.start(b, CAP=1, HEADCAP=1)
        r.finish(r.I, out, b)
        done[path] = r
    rep.floor("handlers that need the token", sum(1 for r in done.values() if not r.open and r.uses), 5)
    rep.floor("open handlers", sum(1 for r in done.values() if r.open), 2)
    rep.floor("uses of the state", sum(r.uses for r in done.values()), 20)
    for b, span, f in field_writers(P, S.S["def"].npath, {secret}):
        rep.viol("secret-changes:" + b.df.npath, "the secret of the server state is changed after it was made", "%s:%s" % (span[0], span[1]))
    x = P.fn("ExecGraph::execute", "execgraph")
    s = Secret(P, rep, R, S, secret)
    out = s.start(x, CAP=1, HEADCAP=1)
    s.finish(s.I, out, x)
    rep.floor("servers made", s.n["servers"], 1)
    rep.floor("provisioners given the token", s.n["provisioners"], 1)
