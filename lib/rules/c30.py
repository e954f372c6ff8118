"""C30: the admin socket carries out what it is asked, and nobody else can ask."""
from servicer import *
from txn import Srv, routes
import frame
RULE = ("Every handler of the admin router, every path that answers with success: /ratelimit calls the tracker's set_ratelimit once, with the per_second of its request; /provisioner_info "
        "stores the provisioner_info of its request in the provisioner's record once; /shutdown calls trigger_soft_shutdown once if the request says soft and not otherwise, "
        "and cancels the run's token with HardCancelled once if it does not and not otherwise; none of them has another of these effects, and GET /status has none. No handler of the main server and no "
        "other function in the crate has them, except the cancellations that C23 accounts for. The admin router is given only to a server that "
        "accepts from a tokio UnixListener, bound to the path whose old file was removed before, served until the token is hard-cancelled, and whose file is removed before the function returns after that. The "
        "clean-up of the directory removes a file only if it is a socket, its name matched and the process of the number in the name does not exist.")
ASSUME = ["axum calls the handler it was given for a path, and its Json extractor delivers the request's body", "/run/user/UID is accessible to that user only",
          "sysinfo's refresh_process says whether a process exists"]


class Admin(Base):
    # auto: frozenset of (kind, value) with at most 2 entries of a kind
    OPQ = ("ReadyTrackerClient::set_ratelimit", "ReadyTrackerClient::trigger_soft_shutdown", "CancellationToken::cancel", "server::status_handler")

    def __init__(self, P, rep, R, S, path, admin):
        super().__init__(P, rep)
        self.R = R
        self.path = path
        self.admin = admin
        self.opaque = self.OPQ if admin else self.OPQ[:3] + S.opaque()
        self.n = {}

    def init(self):
        return ()

    def part(self, st):
        return (st.auto, self.soft(st)) if self.admin else st.auto

    def keepfact(self, st, k):
        return self.admin

    def isparam(self, v, name):
        """field name of the request"""
        v = peel(v)
        while v.k == "CALL" and v.a[0].split("::")[-1] in ("clone", "into", "from", "to_owned", "as_ref", "take") and v.a[2]:
            v = peel(v.a[2][0])
        if v.k == "CAST":
            return self.isparam(v.a[0], name)
        if v.k != "FLD" or v.a[1] != name:
            return False
        r = v.a[0]
        while r.k in ("FLD", "DEREF"):
            r = r.a[0]
        return r.k == "SYM" and r.a[0].startswith("param:")

    def soft(self, st):
        for k in st.facts:
            if self.isparam(k, "soft"):
                return st.ev(k)
        return None

    def effect(self, st, kind):
        st.auto = st.auto + (kind,) if st.auto.count(kind) < 2 else st.auto
        self.n[kind] = self.n.get(kind, 0) + 1

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path:
            m = "::".join(ev.path.split("::")[-2:])
            if m == "ReadyTrackerClient::set_ratelimit":
                v = I.canon(st, ev.args[1])
                if self.admin and not self.isparam(v, "per_second"):
                    self.viol(I, st, "rate-value", "the launch rate is set to %s, not to the per_second of the request" % show(v)[:80], ev.cx)
                self.effect(st, "rate")
            elif m == "ReadyTrackerClient::trigger_soft_shutdown":
                self.effect(st, "soft")
            elif m == "CancellationToken::cancel":
                v = I.canon(st, ev.args[1])
                if self.admin and not (v.k == "AGG" and v.a[2] == "HardCancelled"):
                    self.viol(I, st, "hard-kind", "the shutdown asks for %s" % show(v)[:80], ev.cx)
                if self.admin:
                    self.effect(st, "hard")
            elif m.endswith(("::replace", "::swap", "::take")) and m.split("::")[0] == "mem" and ev.args and self.info(I, st, ev.args[0]):
                v = I.canon(st, ev.args[1]) if len(ev.args) > 1 else None
                self.stored(I, st, v, ev)
        if ev.kind == "write" and ev.args and ev.val is not None:
            b, proj_ = ev.args[0], ev.args[1]
            names = [e[1] for e in proj_ if len(e) > 1]
            if names and self.guard(I.canon(st, b)):
                if names[-1] == self.infofield:
                    self.stored(I, st, ev.val, ev)
                elif self.admin:
                    self.viol(I, st, "provisioner-other", "the admin request changes %s of the provisioner" % names[-1], ev.cx)
        return True

    def guard(self, v):
        return has(v, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] in ("write", "lock", "get_mut") and self.R.fieldname(peel(t.a[2][0])) == "provisioner")

    def info(self, I, st, v):
        p = I.placeof(st, v) if v.k == "REF" else v
        return p.k == "REF" and p.a[1] and len(p.a[1][-1]) > 1 and p.a[1][-1][1] == self.infofield or self.R.fieldname(peel(I.canon(st, v))) == self.infofield

    def stored(self, I, st, v, ev):
        if self.admin and (v is None or not self.isparam(I.canon(st, v), "provisioner_info")):
            self.viol(I, st, "info-value", "the provisioner information is set to %s, not to what the request carries" % (show(v)[:80] if v is not None else "its default"), ev.cx)
        self.effect(st, "info")

    def want(self, st):
        if self.path == "/ratelimit":
            return ("rate",)
        if self.path == "/provisioner_info":
            return ("info",)
        if self.path == "/shutdown":
            s = self.soft(st)
            return None if s is None else ("soft",) if s else ("hard",)
        return ()

    def finish(self, I, out, body):
        cx = I.rootcx(body, 0)
        for st, v in out:
            if v.k == "AGG" and v.a[1] == RES and v.a[2] == "Err" and not st.auto:
                continue
            w = self.want(st)
            name = self.path or "fallback"
            if w is None or tuple(sorted(st.auto)) != w:
                self.viol(I, st, ("effect:" if self.admin else "main-effect:") + name, "a request for %s%s has the effects: %s" % (
                    name, {True: " (soft)", False: " (not soft)", None: ""}[self.soft(st) if self.path == "/shutdown" else None], ", ".join(sorted(st.auto)) or "none"), cx)
            else:
                self.discharge("effect:" + ("admin" if self.admin else "main") + name, "exactly %s" % (", ".join(w) or "nothing"))
        self.rep.take(I, self)


class Serve30(Base):
    # auto: (path removed, path bound, served, removed after)
    def __init__(self, P, rep, router):
        super().__init__(P, rep)
        self.router = router.df.npath
        self.opaque = ("::".join(self.router.split("::")[-2:]), "CancellationToken::hard_cancelled", "clean_up_socket_dir")
        self.n = 0

    def init(self):
        return (None, None, False, False)

    def part(self, st):
        return st.auto

    def keepfact(self, st, k):
        return False

    def on(self, I, st, ev):
        a = st.auto
        if ev.kind == "call" and ev.path:
            m = ev.path.split("::")[-1]
            if m == "remove_file":
                p = strip(I.canon(st, ev.args[0]))
                if a[2]:
                    if p is not a[1]:
                        self.viol(I, st, "socket-removed", "the file removed after serving is not the socket: %s" % show(p)[:80], ev.cx)
                    st.auto = a[:3] + (True,)
                elif a[1] is None:
                    st.auto = (p,) + a[1:]
                else:
                    self.viol(I, st, "socket-gone", "the socket's file is removed after it was bound and before it is served", ev.cx)
            elif m.startswith("bind") and "Listener" in ev.path:
                p = strip(I.canon(st, ev.args[0]))
                if a[0] is not p:
                    self.viol(I, st, "socket-stale", "the path is bound without an old file at this path having been removed", ev.cx)
                st.auto = (a[0], p) + a[2:]
            elif m == "serve" and len(ev.args) > 1 and has(I.canon(st, ev.args[1]), lambda t: t.k == "CALL" and t.a[0] == self.router):
                self.n += 1
                v = I.canon(st, ev.args[0])
                l = [t for t in subterms(v) if t.k == "CALL" and t.a[0].split("::")[-1].startswith(("bind", "from_tcp", "from_std"))]
                if not l or not all("UnixListener::" in t.a[0] for t in l):
                    self.viol(I, st, "not-unix", "the admin router is served on something else than a unix socket: %s" % show(v)[:120], ev.cx)
                else:
                    self.discharge("unix:" + ev.cx.body.df.npath, "the admin router is served on a unix listener")
                st.auto = a[:2] + (True, False)
            elif m == "with_graceful_shutdown":
                f = I.canon(st, ev.args[1])
                ok = has(f, lambda t: t.k == "CALL" and t.a[0].endswith("::hard_cancelled"))
                if not ok:
                    self.viol(I, st, "serves-until", "the admin server is not served until the run is over: %s" % show(f)[:80], ev.cx)
                else:
                    self.discharge("until", "served until the token is hard-cancelled")
                    st.auto = st.auto[:2] + ("until",) + st.auto[3:]
        return True

    def finish(self, I, out, body):
        cx = I.rootcx(body, 0)
        for st, v in out:
            a = st.auto
            if not a[2]:
                continue
            if a[2] != "until":
                self.viol(I, st, "serves-until", "the admin server does not end when the run is over", cx)
            if not a[3]:
                self.viol(I, st, "socket-left", "the socket's file is left behind when the admin server ends", cx)
            else:
                self.discharge("removed", "the socket's file is removed when the server ends")
        self.rep.take(I, self)


def strip(v):
    v = peel(v)
    while v.k == "CALL" and v.a[0].split("::")[-1] in ("clone", "as_path", "as_ref", "to_path_buf", "deref", "from", "into", "to_owned", "borrow") and v.a[2]:
        v = peel(v.a[2][-1] if v.a[0].endswith("::from") else v.a[2][0])
    return v


class Clean(Base):
    def __init__(self, P, rep):
        super().__init__(P, rep)
        self.n = 0

    def init(self):
        return 0

    def part(self, st):
        return tuple(sorted((show(k), st.ev(k)) for k in st.facts if self.about(k)))

    def about(self, k):
        return k.k == "CALL" and k.a[0].split("::")[-1] in ("is_socket", "refresh_process", "is_match")

    def keepfact(self, st, k):
        return True

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.path.split("::")[-1] in ("remove_file", "remove_dir", "remove_dir_all", "rename"):
            self.n += 1
            p = strip(I.canon(st, ev.args[0]))
            it = {t for t in subterms(p) if t.k == "CALL" and t.a[0] in ("elem", "iter#")}
            own = lambda t: any(has(t, lambda u: u is x) for x in it)
            sock = match = dead = False
            for k in st.facts:
                if k.k == "CALL" and own(k):
                    m = k.a[0].split("::")[-1]
                    if m == "is_socket" and st.ev(k) is True:
                        sock = True
                    if m == "is_match" and st.ev(k) is True:
                        match = True
                if k.k == "DISCR":
                    t = peel(k.a[0])
                    if t.k == "CALL" and t.a[0].split("::")[-1] == "captures" and own(t) and st.variants(k.a[0], OPT) == frozenset(["Some"]):
                        match = True
                if k.k == "CALL" and k.a[0].split("::")[-1] == "refresh_process" and st.ev(k) is False and (own(k) or has(k, lambda t: t.k == "C" and t.a[0] == "")):
                    dead = True
            bad = [w for w, x in (("it is a socket", sock), ("its name is that of an admin socket", match), ("its process does not exist", dead)) if not x]
            if not it:
                bad = ["it was found in the directory"]
            if bad:
                self.viol(I, st, "removes-other", "a file is removed although it is not known that %s" % ", ".join(bad), ev.cx)
            else:
                self.discharge("cleanup", "removed: a socket with an admin socket's name whose process does not exist")
        return True


def check(P, rep):
    R = Roles(P)
    S = Srv(P, R)
    router = P.fn("admin_router", "execgraph")
    serve = P.fn("run_admin_service_forever", "execgraph")
    prov = [f for a in local_adts(P) if not a["enum"] for f in fields(a) if f["name"] == "info"]
    if not prov:
        raise AnchorError("the provisioner's information")
    Admin.infofield = "info"
    rs = routes(P, router)
    have = {(p, m) for p, m, b in rs}
    for p, m in (("/ratelimit", "post"), ("/provisioner_info", "post"), ("/shutdown", "post"), ("/status", "get")):
        rep.need((p, m) in have, "route:" + p, "the admin router serves %s" % p, loc(router))
    bodies = set()
    n = {}
    for admin, rr in ((True, rs), (False, S.routes)):
        done = set()
        for p, m, b in rr:
            if not admin and b.key in done:
                continue
            done.add(b.key)
            a = Admin(P, rep, R, S, p, admin)
            if p == "/status" or p is None:
                a.opaque = tuple(x for x in a.opaque if x != "server::status_handler")
            out = a.start(b, CAP=1, HEADCAP=1) if not admin else a.start(b)
            a.finish(a.I, out, b)
            bodies |= a.I.seen_bodies
            for k, x in a.n.items():
                n[k] = n.get(k, 0) + x
    for k in ("rate", "info", "soft", "hard"):
        rep.floor("admin effects: " + k, n.get(k, 0), 1)
    pre = lambda p: "::".join(p.split("::")[-2:]) in Admin.OPQ[:2]
    outside(P, rep, R, bodies, "reached from the admin handlers only", scan.calls(P, pre, "execgraph"), "asked-elsewhere", "the launch rate or a soft shutdown is asked for in %s, outside the admin handlers")
    s = Serve30(P, rep, router)
    out = s.start(serve)
    s.finish(s.I, out, serve)
    rep.floor("admin servers", s.n, 1)
    outside(P, rep, R, s.I.seen_bodies, "analysed: served on a unix socket", scan.calls(P, lambda p: p == router.df.npath, "execgraph"), "router-used", "the admin router is used in %s as well")
    for fn in (b for p, m, b in rs if p != "/status"):
        other = [x for x in S.routes if x[2] is fn]
        rep.need(not other, "handler-shared:" + fn.df.npath, "the main server does not route to an admin handler", loc(fn))
    c = Clean(P, rep)
    root = P.fn("clean_up_socket_dir", "execgraph")
    c.start(root)
    c.rep.take(c.I, c)
    rep.floor("files cleaned up", c.n, 1)
