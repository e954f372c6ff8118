"""C33: execute runs the requested subgraph and reports it."""
from servicer import *
from c10 import evalbool
RULE = ("ExecGraph::execute, every path that does not panic: the subgraph is get_subgraph's for the object's own graph, completed set and log and the given target and rerun flag; the tracker is made for that subgraph, that log and the given failure and rate limits. "
        "Ok((0, [])) is returned without running anything only when the subgraph has no nodes. Otherwise exactly one runner is spawned for each number below num_parallel, on the normal queue, and with num_parallel > 0 one more on the console queue, all with that subgraph, tracker and token; "
        "with a provisioner the server, the admin server and the provisioner's task are spawned. Ok is returned only when background_serve returned Ok, after drain and a flush that returned Ok; the number is n_failed after the drain, "
        "the list has the key of each finished task's node in that subgraph, each once and in order, and each of these keys is put into the object's completed set.")
ASSUME = ["background_serve and drain keep n_failed and finished_order as C09 says"]
OPQ = ("execgraph::get_subgraph", "new_ready_tracker", "run_local_process_loop", "server::router", "reap_pings_forever", "run_admin_service_forever", "background_serve", "ReadyTrackerServer::drain", "spawn_and_wait_for_provisioner", "LogFile::flush")
PROBES = (0, 1, 2, 3, 7)


def sym(v, name):
    v = peel(v)
    return v.k == "SYM" and v.a[0] == name


class Exec(Base):
    # auto: (Each over the runners' numbers, console runners, other tasks, phase, served, flushed, Each of the list, Each of the completed set)
    opaque = OPQ

    def __init__(self, prog, rep, body):
        super().__init__(prog, rep)
        self.body = body
        self.n = {}
        self.srv = adt(prog, "ReadyTrackerServer")
        self.outer = True

    def init(self):
        return (Once.ZERO, 0, frozenset(), 0, None, None, Once.ZERO, Once.ZERO)

    def keepfact(self, st, k):
        if k.k == "DISCR":
            return has(k.a[0], lambda t: iscall(t, "background_serve", "LogFile::flush") or sym(t, "param:provisioner"))
        return has(k, lambda t: sym(t, "param:num_parallel") or iscall(t, "raw_nodes", "node_count", "node_bound"))

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), f[0], tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.keepfact(st, k))))

    def mineR(self, I, st):
        def mine(it):
            src = [x for x in subterms(it) if x.k == "SRC"]
            return len(src) == 1 and src[0].a[0] == "range" and number(I.canon(st, src[0].a[1])) == 0 and sym(I.canon(st, src[0].a[2]), "param:num_parallel")
        return mine

    def mineL(self, I, st):
        return lambda it: any(infield(t, "finished_order") or sym(t, "drained:finished_order") for t in itsources(I, st, it) if t.k != "COLL") and not self.keys(I, st, it)

    def keys(self, I, st, it):
        return any(t.k == "COLL" and t.a[1] and all(self.iskey(I, st, x) for x, f in t.a[1]) for t in itsources(I, st, it))

    def iskey(self, I, st, v):
        """the key of a node of the subgraph that was asked for"""
        v = peel(v)
        if v.k == "REF":
            v = peel(st.load(v))
        if not (v.k == "FLD" and v.a[1] == "key"):
            return False
        b = peel(v.a[0])
        return b.k == "CALL" and b.a[0].split("::")[-1] in ("index", "node_weight", "get") and self.graph(I, st, b.a[2][0])

    def graph(self, I, st, v):
        v = peel(v)
        n = 6
        while v.k == "REF" and n:
            v = peel(st.load(v))
            n -= 1
        return has(I.canon(st, v), lambda t: iscall(t, "get_subgraph"))

    def place(self, I, st, v):
        return I.placeof(st, v) if v.k == "REF" else v

    def selff(self, I, st, v, f):
        p = self.place(I, st, v)
        return infield(p, f) and has(p, lambda t: t.k == "SYM" and t.a[0] == "param:self" or t.k == "REF" and t.a[0].k == "SYM" and t.a[0].a[0] == "param:self")

    def on(self, I, st, ev):
        r, con, other, ph, srv, fl, l, c = st.auto
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        if k in ("item", "step", "iterend", "itemdone") and ev.args:
            r = Once.on(I, st, ev, r, self.mineR(I, st))
            if ph >= 3:
                l = Once.on(I, st, ev, l, self.mineL(I, st))
                c = Once.on(I, st, ev, c, lambda it: self.mineL(I, st)(it) or self.keys(I, st, it))
            st.auto = (r, con, other, ph, srv, fl, l, c)
        elif k == "call" and m == "get_subgraph":
            ok = self.selff(I, st, ev.args[0], "deps") and self.selff(I, st, ev.args[1], "completed") and self.selff(I, st, ev.args[2], "logfile")
            for x, nm in zip(ev.args[3:], ("target", "rerun_failures")):
                if not sym(I.canon(st, x), "param:" + nm):
                    self.viol(I, st, "subgraph:" + nm, "the subgraph is made with %s for the %s it was given" % (show(x)[:50], nm), ev.cx)
                    ok = False
            self.n["subgraph"] = 1
            if not ok:
                self.viol(I, st, "subgraph:of", "the subgraph is not made from the object's own graph, completed set and log", ev.cx)
        elif k == "call" and m == "new_ready_tracker":
            self.n["tracker"] = 1
            if not self.graph(I, st, ev.args[0]) or not self.selff(I, st, ev.args[1], "logfile"):
                self.viol(I, st, "tracker:of", "the tracker is not made for the subgraph and the object's log", ev.cx)
            for x, nm in ((ev.args[3], "failures_allowed"), (ev.args[4], "ratelimit_per_second")):
                if not sym(I.canon(st, x), "param:" + nm):
                    self.viol(I, st, "tracker:" + nm, "the tracker is made with %s for the %s it was given" % (show(x)[:50], nm), ev.cx)
        elif k == "call" and ev.path in SPAWN:
            a = st.load(ev.args[0]) if ev.args[0].k == "REF" else ev.args[0]
            if iscall(a, "run_local_process_loop"):
                q = I.canon(st, a.a[2][3])
                if not (self.graph(I, st, a.a[2][0]) and has(I.canon(st, st.load(a.a[2][1]) if a.a[2][1].k == "REF" else a.a[2][1]), lambda t: iscall(t, "new_ready_tracker"))):
                    self.viol(I, st, "runner:of", "a local runner is not given the subgraph and the tracker of this run", ev.cx)
                if q.k == "AGG" and q.a[2] == "NormalLocalQueue":
                    if r[0] is None:
                        self.viol(I, st, "runner:normal", "a runner of the normal queue is spawned apart from those counted by num_parallel", ev.cx)
                    r = (r[0], min(2, r[1] + 1)) + r[2:]
                else:
                    con = min(2, con + 1)
                st.auto = (r, con, other, ph, srv, fl, l, c)
            elif iscall(a, "run_admin_service_forever"):
                st.auto = (r, con, other | {"admin"}, ph, srv, fl, l, c)
            elif a.k == "AGG" and a.a[0] == "coroutine":
                self.inner = set()
                was, self.outer = self.outer, False
                ends = self.detached(I, st, ev, self.init())
                self.outer = was
                for s2, _ in ends:
                    self.inner |= s2.auto[2]
                st.auto = (r, con, other | frozenset(self.inner), ph, srv, fl, l, c)
        elif k == "call" and m == "spawn_and_wait_for_provisioner":
            a = [I.canon(st, x) for x in ev.args]
            if not (infield(a[0], "cmd") and has(a[0], lambda t: sym(t, "param:provisioner"))):
                self.viol(I, st, "provisioner", "the command that is run as the provisioner is %s, not the given one" % show(a[0])[:60], ev.cx)
            st.auto = (r, con, other | {"provisioner"}, ph, srv, fl, l, c)
        elif k == "call" and m == "router" and not self.outer:
            st.auto = (r, con, other | {"server"}, ph, srv, fl, l, c)
        elif k == "call" and m == "background_serve":
            self.runners(I, st, ev.cx)
            st.auto = (r, con, other, 1, srv, fl, l, c)
        elif k == "await" and ph == 1 and has(ev.args[0], lambda t: iscall(t, "background_serve")):
            st.auto = (r, con, other, 2, ev.val, fl, l, c)
        elif k == "ret" and m == "drain" and iscall(ev.val, "drain") and "drain" in ev.val.a[0] and ev.path.endswith("ReadyTrackerServer::drain") or k == "ret" and m == "drain" and ph == 2 and ev.args and ev.args[0].k == "REF" and len(ev.args) == 1:
            root, p = st.target(ev.args[0])
            for i, f in enumerate(fields(self.srv)):
                if f["name"] in ("n_failed", "finished_order"):
                    st.write(root, p + (("f", f["name"], i),), mk("SYM", "drained:" + f["name"], (self.body.key, 1000 + i)))
            self.n["drain"] = 1
            if ph != 2:
                self.viol(I, st, "drain-early", "the queue is drained before background_serve has ended", ev.cx)
            st.auto = (r, con, other, 3, srv, fl, l, c)
        elif k == "ret" and m == "flush" and ev.args and self.selff(I, st, ev.args[0], "logfile"):
            st.auto = (r, con, other, ph, srv, ev.val if ph >= 3 else fl, l, c)
        elif ph >= 3 and k == "collect":
            v = ev.val
            dest = ev.args[0]
            v = st.load(v) if v.k == "REF" else v
            if self.outer and dest.k == "REF" and self.selff(I, st, dest, "completed"):
                if self.iskey(I, st, v):
                    cur = c[0]
                    c = Once.use(c, cur if cur is not None and cur.k == "REF" and peel(st.load(cur)) is peel(v) else v)
                    c = (c[0], min(c[1], 1), c[2], c[3] if c[3] != "done" else "empty")
                else:
                    self.viol(I, st, "completed", "%s is put into the completed set, not the key of a finished task's node" % show(v)[:60], ev.cx)
            elif self.iskey(I, st, v):
                l = Once.use(l, v)
            st.auto = (r, con, other, ph, srv, fl, l, c)
        return True

    def probe(self, st, s):
        """the probed values of num_parallel that the facts allow"""
        out = []
        for n in PROBES:
            ok = True
            for k, (mode, vals) in st.facts.items():
                if k is s:
                    b = n
                elif k.k in ("OP", "NOT") and has(k, lambda t: t is s):
                    b = evalbool(k, s, n)
                else:
                    continue
                if b is None:
                    continue
                hit = b in vals or int(b) in vals
                ok = ok and (hit if mode == "in" else not hit)
            if ok:
                out.append(n)
        return out

    def runners(self, I, st, cx):
        r, con, other, ph, srv, fl, l, c = st.auto
        s = next((t for k in st.facts for t in subterms(k) if sym(t, "param:num_parallel")), None)
        ns = PROBES if s is None else self.probe(st, s)
        if not Once.ok(r):
            self.viol(I, st, "runners", "background_serve is reached without one runner of the normal queue having been spawned for each number below num_parallel", cx)
        else:
            self.rep.ob("runners", "one per number below num_parallel")
        for n in ns:
            if con != (1 if n > 0 else 0):
                self.viol(I, st, "console", "with num_parallel = %d, %d runner(s) of the console queue are spawned" % (n, con), cx)
            else:
                self.rep.ob("console:%d" % n, "%d" % con)
        pv = self.provisioner(st)
        want = frozenset(("admin", "server", "provisioner"))
        if pv == frozenset(["Some"]) and not want <= other:
            self.viol(I, st, "tasks", "with a provisioner no task is spawned for: %s" % ", ".join(sorted(want - other)), cx)
        elif pv is None:
            self.viol(I, st, "tasks", "background_serve is reached without a look at whether there is a provisioner", cx)
        elif pv == frozenset(["None"]) and other:
            self.viol(I, st, "tasks-none", "without a provisioner a task is spawned for: %s" % ", ".join(sorted(other)), cx)
        else:
            self.rep.ob("tasks:%s" % "/".join(pv), ", ".join(sorted(other)) or "none")

    def provisioner(self, st):
        for k in st.facts:
            if k.k == "DISCR" and sym(k.a[0], "param:provisioner"):
                return st.variants(k.a[0], OPT)

    def final(self, I, st, v, cx):
        r, con, other, ph, srv, fl, l, c = st.auto
        v = I.canon(st, v)
        if not (v.k == "AGG" and v.a[2] == "Ok"):
            return
        t = peel(v.a[4][0])
        if t.k != "AGG" or len(t.a[4]) != 2:
            self.viol(I, st, "result", "what execute returns cannot be followed: %s" % show(t)[:60], cx)
            return
        n, li = peel(t.a[4][0]), peel(t.a[4][1])
        if ph == 0:
            empty = any(k.k == "OP" and k.a[0] == "Eq" and C(0) in k.a[1:] and has(k, lambda t: iscall(t, "raw_nodes", "node_count", "node_bound")) and st.ev(k) is TRUE for k in st.facts)
            if not empty:
                empty = any(iscall(k, "raw_nodes", "node_count", "len") and f == ("in", frozenset([0])) for k, f in st.facts.items())
            if not empty:
                self.viol(I, st, "skipped", "execute returns Ok without running anything although the subgraph may have nodes", cx)
            if n is not C(0) or not (li.k == "COLL" and not li.a[1]):
                self.viol(I, st, "skipped-result", "for an empty subgraph execute returns (%s, %s)" % (show(n)[:30], show(li)[:30]), cx)
            self.n["empty"] = 1
            return
        self.n["ran"] = 1
        if ph < 3:
            self.viol(I, st, "undrained", "execute returns Ok without the queue being drained after background_serve", cx)
            return
        res = proj(srv, ("v", "Ok"))
        res = proj(res, ("f", "0", 0))
        if st.variants(srv, RES) != frozenset(["Ok"]) and has(srv, lambda t: iscall(t, "catch_unwind")):
            self.viol(I, st, "served-panic", "execute returns Ok although background_serve may have panicked", cx)
        elif st.variants(res if has(srv, lambda t: iscall(t, "catch_unwind")) else srv, RES) != frozenset(["Ok"]):
            self.viol(I, st, "served-error", "execute returns Ok although background_serve may have failed", cx)
        else:
            self.rep.ob("served", "Ok on every path that returns Ok")
        if fl is None or st.variants(fl, RES) != frozenset(["Ok"]):
            self.viol(I, st, "flush", "execute returns Ok although the log %s" % ("was not flushed after the drain" if fl is None else "may not have been flushed: flush's error is ignored"), cx)
        else:
            self.rep.ob("flush", "Ok")
        if not sym(n, "drained:n_failed"):
            self.viol(I, st, "n_failed", "the number returned is %s, not the number of failed tasks after the drain" % show(n)[:60], cx)
        if li.k != "COLL" or not all(self.iskey(I, st, x) for x, f in li.a[1]) or not Once.ok(l):
            self.viol(I, st, "list", "the list returned is not the key of each finished task, each once and in order (%s)" % show(li)[:60], cx)
        else:
            self.rep.ob("list", "each key once, in order")
        if not Once.ok(c):
            self.viol(I, st, "completed-each", "not every finished task's key is put into the object's completed set", cx)
        else:
            self.rep.ob("completed", "each key")


def check(P, rep):
    b = [b for b in P.by_path("execute", "execgraph", "fn") if b.df.npath.split("::")[-2:] == ["ExecGraph", "execute"]]
    if len(b) != 1:
        raise AnchorError("ExecGraph::execute")
    a = Exec(P, rep, b[0])
    out = a.start(b[0])
    for st, v in out:
        a.final(a.I, st, v, a.I.rootcx(b[0], 0))
    rep.take(a.I, a)
    for k in ("subgraph", "tracker", "drain", "empty", "ran"):
        rep.floor(k, a.n.get(k, 0), 1)
