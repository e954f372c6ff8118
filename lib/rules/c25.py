"""C25: nothing a run has started outlives it."""
from servicer import *
RULE = ("Handles of spawned tasks are conserved: in ExecGraph::execute and the coroutines it spawns (every path that does not panic), each value whose type owns a JoinHandle is moved on or awaited to completion (itself, join_all over it, or a coroutine of the library that is checked the same way, or each element in a complete loop) - never dropped, forgotten or swallowed by a callee. "
        "While spawned tasks are alive execute awaits only joins and futures guarded by catch_unwind, so a panic of the scheduler does not free what the tasks use, and the tracker and the graph are not dropped. "
        "Before the join the ready queues are closed and the token is hard-cancelled, so that it ends. References whose lifetime is changed by transmute are made only there. No other function of the library spawns a task that holds the tracker, the graph or the server's state.")
ASSUME = ["futures' join_all awaits every future it is given", "hyper's graceful shutdown waits for the connections it serves"]
OPQ = ("execgraph::get_subgraph", "new_ready_tracker", "run_local_process_loop", "server::router", "reap_pings_forever", "run_admin_service_forever", "background_serve", "ReadyTrackerServer::drain")
SHARED = ("ReadyTrackerClient", "ReadyTrackerServer", "State", "Graph", "Cmd", "ExecGraph", "LogFile")
HANDLE = ("tokio::task::JoinHandle", "tokio::runtime::task::JoinHandle", "std::thread::JoinHandle", "tokio::task::JoinSet")
PLAIN = {"Vec", "VecDeque", "IntoIter", "Option", "Box", "Pin"}
TAKES = {"push", "push_back", "push_front", "insert", "extend", "append", "poll", "into_future", "deref", "deref_mut", "reserve", "len", "is_empty", "iter", "iter_mut", "is_finished", "next"}


def owns(t, n=0):
    """the type owns a task's handle"""
    if t is None or n > 10 or not hasattr(t, "k") or t.k in ("ref", "ptr", "fnptr", "fndef"):
        return False
    if t.k == "adt" and handle(t):
        return True
    return any(owns(x, n + 1) for x in list(t.a or ()) + list(t.up or ()))


def handle(t):
    return t.k == "adt" and (t.name in ("JoinHandle", "JoinSet"))


def joins(t):
    """a future of this type completes only when each task whose handle it owns has ended"""
    if t.k == "adt" and t.name in ("JoinHandle", "JoinAll"):
        return True
    if t.k == "adt" and t.name in ("Pin", "Box", "CatchUnwind", "AssertUnwindSafe", "Map", "Instrumented"):
        return any(joins(x) for x in t.a or () if hasattr(x, "k"))
    return t.k in ("coroutine", "alias")


def ended_value(v):
    """nothing is left in it"""
    if v.k in ("MOVED", "UNINIT", "BOTTOM"):
        return True
    if v.k == "AGG":
        return all(ended_value(x) or x.k in ("C",) for x in v.a[4] if type(x) is V)
    return v.k == "COLL" and not v.a[1]


class Spawned(Base):
    # auto: (tasks alive, a loop over handles: (element under way, awaited so far, each so far, done), closed, cancelled)
    opaque = OPQ
    ZERO = (False, (False, 0, True, False), False, False)

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.n = {}
        self.sites = set()
        self.spawners = set()
        self.extended = set()
        self.awaited = {}
        self.outer = True

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def init(self):
        return self.ZERO

    def part(self, st):
        return st.auto

    def futures(self, body):
        """the locals of a body that hold a future being awaited"""
        if body.key not in self.awaited:
            s = set()
            for bl in body.blocks:
                if bl.t[0] == "call" and bl.t[1][0] == "fn" and bl.t[1][1][0].npath.split("::")[-1] == "into_future":
                    s.add(bl.t[3][0])
            more = True
            while more:
                more = False
                for bl in body.blocks:
                    for x in bl.s:
                        if x[0] == "=" and not x[1][1] and x[2][0] == "use" and x[2][1][0] in ("c", "m") and not x[2][1][1][1] and x[2][1][1][0] in s and x[1][0] not in s:
                            s.add(x[1][0])
                            more = True
            self.awaited[body.key] = s
        return self.awaited[body.key]

    def on(self, I, st, ev):
        alive, e, closed, canc = st.auto
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        if k == "call" and ev.path in SPAWN:
            self.sites.add(ev.cx.span[:2])
            self.spawners.add(ev.cx.body.df.path)
            fut = st.load(ev.args[0]) if ev.args[0].k == "REF" else ev.args[0]
            if fut.k == "AGG" and fut.a[0] == "coroutine":
                was, self.outer = self.outer, False
                self.detached(I, st, ev, self.ZERO)
                self.outer = was
        elif k == "ret" and ev.path in SPAWN:
            self.count("spawned")
            st.auto = (True, e, closed, canc)
        elif k == "drop":
            self.dropped(I, st, ev)
        elif k in ("item", "step", "iterend") and ev.cx.atys and ev.cx.atys[0] is not None and stored(unref(ev.cx.atys[0])):
            if k == "item":
                e = (True, 0, e[2], False)
            else:
                sofar = e[2] and (not e[0] or e[1] == 1)
                e = (False, 0, sofar, sofar and k == "iterend")
            st.auto = (alive and not (k == "iterend" and e[3] and whole(ev.args[0], ordered=False)), e, closed, canc)
        elif k == "await":
            self.awaits(I, st, ev)
        elif k == "yield" and ev.args:
            self.waits(I, st, ev)
        elif k in ("write", "lwrite") and any(x[0] == "f" and x[1] == "ready" for x in ev.args[1]):
            v = I.canon(st, ev.val)
            if v.k == "AGG" and v.a[2] == "None":
                st.auto = (alive, e, True, canc)
        elif k == "call" and m == "take" and ev.args and infield(I.placeof(st, ev.args[0]), "ready"):
            st.auto = (alive, e, True, canc)
        elif k == "call" and ev.path.endswith("CancellationToken::cancel"):
            v = I.canon(st, ev.args[1])
            if v.k == "AGG" and v.a[2] == "HardCancelled":
                st.auto = (alive, e, closed, True)
        elif k == "call" and m == "transmute":
            self.extended.add(ev.cx.body.df.path)
        return True

    def dropped(self, I, st, ev):
        alive, e, closed, canc = st.auto
        ty = ev.extra
        v = ev.val
        if not hasattr(ty, "k") or ended_value(v):
            return
        root, path = ev.args
        if owns(ty):
            mine = root is not None and root.k == "CELL" and not path and root.a[1] in self.futures(ev.cx.body)
            if mine and joins(ty) or e[3] and not e[0]:
                return
            why = "the await of it ends before that task does (type %s)" % ty.s[-60:] if mine else "nothing waits for that task"
            self.viol(I, st, "dropped:%s" % ev.cx.body.df.path, "a value that owns the handle of a spawned task is dropped: %s" % why, ev.cx)
        elif alive and root is not None and self.outer and ev.cx.body.df.path == self.top and ty.k == "adt" and (ty.name == "ReadyTrackerClient" or ty.name == "Arc" and shares(ty)):
            self.viol(I, st, "freed:%s" % ty.name, "%s is dropped while the tasks that use it are alive" % ty.name, ev.cx)

    def waits(self, I, st, ev):
        alive, e, closed, canc = st.auto
        if ev.cx.body.df.path != self.top or not self.outer or not alive:
            return
        t = self.awaitty(ev)
        if t is not None and owns(t):
            if not closed or not canc:
                self.viol(I, st, "join-early", "the spawned tasks are joined before %s: the join may never end" % ("the ready queues are closed" if not closed else "the token is hard-cancelled"), ev.cx)
            else:
                self.rep.ob("join", "after close and hard cancel")
        elif t is not None and t.k == "adt" and t.name == "CatchUnwind":
            self.count("guarded awaits")
        else:
            self.viol(I, st, "unguarded", "while spawned tasks are alive execute awaits a future (%s) that is not guarded by catch_unwind: a panic in it frees what the tasks use" % (t.s[-60:] if t is not None else "?"), ev.cx)

    def awaits(self, I, st, ev):
        alive, e, closed, canc = st.auto
        t = self.awaitty(ev)
        if t is None or not owns(t):
            return
        if e[0]:
            e = (True, min(2, e[1] + 1), e[2], False)
            st.auto = (alive, e, closed, canc)
        elif joins(t):
            self.count("joined")
            st.auto = (False, e, closed, canc)

    def awaitty(self, ev):
        """the type of the future whose poll this await stands for"""
        t = unref(ev.cx.atys[0]) if ev.cx.atys else None
        while t is not None and (t.k == "ref" or t.k == "adt" and t.name in ("Pin",)):
            t = t.a[0]
        return t


def stored(t):
    """an iterator over (or a collection of) handles that exist already"""
    return t.k == "adt" and t.name in ("Vec", "VecDeque", "IntoIter", "Drain", "Iter", "IterMut") and t.a and any(owns(unref(x)) for x in t.a if hasattr(x, "k"))


def unref(t):
    n = 5
    while t is not None and t.k == "ref" and n:
        t = t.a[0]
        n -= 1
    return t


def swallowed(P, rep, paths):
    """calls that take a value owning a handle and give nothing back"""
    n = 0
    for body in P.bodies.values():
        if body.df.path not in paths and body.key not in paths:
            continue
        for bl in body.blocks:
            t = bl.t
            if t[0] != "call" or t[1][0] != "fn":
                continue
            d = t[1][1][0]
            m = d.npath.split("::")[-1]
            own = [a for a in t[2] if a[0] in ("c", "m") and owns(a[1][2])]
            muts = [a for a in t[2] if a[0] in ("c", "m") and a[1][2].k == "ref" and owns(unref(a[1][2]))]
            if not own and not muts:
                continue
            n += 1
            at = "%s:%d (in %s)" % (t[5][0], t[5][1], body.df.path)
            res = t[1][1][1]
            local = d.local or res is not None and res.local
            if own and not local and not owns(t[3][2]) and m not in TAKES and not d.npath.startswith("std::mem::drop") and d.npath not in SPAWN:
                rep.viol("swallowed:%s:%s" % (body.df.path, m), "a value that owns the handle of a spawned task is given to %s, which gives no future back: nothing waits for that task" % d.npath, at)
            elif not own and not local and not owns(t[3][2]) and m in ("clear", "truncate", "retain", "retain_mut", "dedup_by", "set_len", "abort_all", "detach_all"):
                rep.viol("swallowed:%s:%s" % (body.df.path, m), "%s drops handles of spawned tasks: nothing waits for these tasks" % d.npath, at)
            else:
                rep.ob("passed:%s:%s" % (body.df.path, m), "the handle stays owned")
    return n


def shares(t, seen=0):
    if t is None or seen > 8:
        return None
    if t.k == "adt" and t.name in SHARED:
        return t.name
    for x in list(t.a or ()) + list(t.up or ()):
        if hasattr(x, "k"):
            r = shares(x, seen + 1)
            if r:
                return r
    return None


def check(P, rep):
    b = [b for b in P.by_path("execute", "execgraph", "fn") if b.df.npath.split("::")[-2:] == ["ExecGraph", "execute"]]
    if len(b) != 1:
        raise AnchorError("ExecGraph::execute")
    a = Spawned(P, rep)
    a.top = b[0].df.path + "::{closure#0}::{closure#0}"
    if not any(x.df.path == a.top for x in P.bodies.values()):
        a.top = b[0].df.path + "::{closure#0}"
    a.start(b[0])
    rep.floor("spawned", a.n.get("spawned", 0), 4)
    rep.floor("joined", a.n.get("joined", 0), 2)
    rep.floor("guarded awaits", a.n.get("guarded awaits", 0), 1)
    rep.floor("calls given handles", swallowed(P, rep, set(a.I.seen_bodies)), 3)
    # elsewhere
    n = 0
    for body, span, path, t in scan.calls(P, lambda p: p in SPAWN or p.endswith("::transmute")):
        if not body.key.startswith("execgraph") or tuple(span[:2]) in a.sites or body.df.path in a.extended or body.df.path.startswith("main") or "::tests::" in body.df.path:
            continue
        n += 1
        at = "%s:%d (in %s)" % (span[0], span[1], body.df.path)
        if path.endswith("transmute"):
            t2 = body.locals[t[3][0]][0]
            if t2.k == "ref" or shares(t2):
                rep.viol("extended:" + body.df.path, "a reference's lifetime is changed by transmute outside of execute", at)
            continue
        o = t[2][0]
        ty = o[1][2] if o[0] in ("c", "m") else None
        what = shares(ty)
        if ty is not None and ty.k == "alias":
            src = [bl.t for bl in body.blocks if bl.t[0] == "call" and bl.t[3][0] == o[1][0]]
            for s in src:
                for x in s[2]:
                    what = what or (shares(x[1][2]) if x[0] in ("c", "m") else None)
            if not src:
                what = what or "unknown data"
        if what:
            rep.viol("spawn:" + body.df.path, "a task that holds the run's %s is spawned outside of execute: nothing waits for it" % what, at)
        else:
            rep.ob("spawn:" + body.df.path, "holds nothing of the run")
    rep.count("other spawns and transmutes", n)
