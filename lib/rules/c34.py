"""C34: no lock is held while a task is suspended, taken twice, or taken in conflicting orders."""
from txn import *
RULE = ("Every path of every async function of the library and of every request handler, with the guards of the blocking locks (std Mutex and RwLock, the shards of a DashMap, watch "
        "borrows) that are alive: no guard is alive at a suspension point (other than handing an event to the tracker's unbounded channel), no lock is acquired while a guard of the same lock is "
        "alive, an iteration over a DashMap does not touch that map, and the order in which locks are acquired while others are held is acyclic.")
ASSUME = ["sending on an unbounded async_channel completes at its first poll", "two slots of the timer wheel, and two shards of one map, count as one lock"]

ACQ = {"std::sync::Mutex::lock", "std::sync::RwLock::read", "std::sync::RwLock::write", "std::sync::Mutex::try_lock", "std::sync::RwLock::try_read", "std::sync::RwLock::try_write",
       "parking_lot::Mutex::lock", "parking_lot::RwLock::read", "parking_lot::RwLock::write",
       "tokio::sync::watch::Receiver::borrow", "tokio::sync::watch::Receiver::borrow_and_update", "tokio::sync::watch::Sender::borrow", "tokio::sync::watch::Sender::send_replace",
       "tokio::sync::watch::Sender::send", "tokio::sync::watch::Sender::send_if_modified", "tokio::sync::watch::Sender::send_modify"}
SHARED = {"read", "borrow", "borrow_and_update", "try_read"}
DREF = {"get", "get_mut", "entry", "try_get", "try_get_mut", "try_entry", "view"}
THROUGH = {"unwrap", "expect", "ok_or", "ok", "map", "unwrap_or_else", "into_inner", "or_insert", "or_default", "or_insert_with", "or_insert_with_key", "or_try_insert_with", "and_modify",
           "insert_entry", "downgrade", "try_map"}
CONSUME = {"drop", "into_key", "into_owned", "unlock_fair", "is_some_and", "is_none_or", "is_ok_and", "map_or", "map_or_else", "remove_entry", "replace_entry", "remove", "insert", "or_insert_entry"}
MAPS = ("dashmap::DashMap::",)


def sources(I, st, it):
    """what an iterator walks over"""
    it = I.canon(st, it)
    if it.k == "ITER":
        return sources(I, st, it.a[0])
    if it.k == "SRC":
        return [y for x in it.a[1:] if type(x) is V for y in sources(I, st, x)]
    return [it]


class Guards(Base):
    # auto: frozenset of (lock, guard value, shared)
    def __init__(self, prog, rep, S, edges):
        super().__init__(prog, rep)
        self.S = S
        self.edges = edges
        self.free = (S.sst, S.sfi)
        self.opaque = tuple("::".join(x.split("::")[-2:]) for x in (S.sst, S.sfi)) + ("Cmd::call_preamble", "Cmd::call_postamble")
        self.n = {"acquisitions": 0, "suspension points": 0}

    def init(self):
        return EMPTY

    def part(self, st):
        return st.auto

    def keepfact(self, st, k):
        return k.k == "DISCR" and any(k.a[0] is g for _, g, _ in st.auto)

    def name(self, I, st, v):
        v = I.canon(st, v)
        while True:
            v = peel(v)
            if v.k == "CALL" and v.a[0].split("::")[-1] in ("index", "index_mut", "deref", "get", "as_ref", "clone", "borrow") and v.a[2]:
                v = v.a[2][0]
            elif v.k == "REF":
                v = I.canon(st, st.load(v)) if False else v.a[0]
            elif v.k in ("IDX", "ELEM", "PAY") and type(v.a[0]) is V:
                v = v.a[0]
            else:
                break
        if v.k == "FLD":
            return v.a[1]
        if v.k == "CALL" and v.a[0].endswith("channel"):
            return "watch"
        return show(v)[:60]

    def alive(self, st, g):
        for t in (OPT, RES):
            vs = st.variants(g, t)
            if vs is not None and t == OPT and "Some" not in vs:
                return False
            if vs is not None and t == RES and "Ok" not in vs and "Err" in vs and t == RES and g.a[0].split("::")[-1].startswith("try_"):
                return False
        return True

    def held(self, st):
        return [x for x in st.auto if self.alive(st, x[1])]

    def acquire(self, I, st, name, shared, cx, what):
        self.n["acquisitions"] += 1
        for n, g, sh in self.held(st):
            if n == name:
                if not (sh and shared):
                    self.viol(I, st, "twice:" + name, "%s of %s while a guard of it is alive: the task waits for itself" % (what, name), cx)
            else:
                self.edges.setdefault((n, name), where(cx))
        self.discharge("acquire:%s" % name, "not held already")

    def on(self, I, st, ev):
        k = ev.kind
        if k in ("call", "ret") and ev.path:
            m = ev.path.split("::")[-1]
            if ev.path in ACQ:
                n = self.name(I, st, ev.args[0])
                if k == "call":
                    self.acquire(I, st, n, m in SHARED, ev.cx, m)
                elif not m.startswith("send"):
                    st.auto = st.auto | {(n, ev.val, m in SHARED)}
            elif ev.path.startswith(MAPS) and m not in ("new", "with_capacity", "default"):
                n = self.name(I, st, ev.args[0]) if ev.args else "map"
                if k == "call":
                    self.acquire(I, st, n, False, ev.cx, m)
                elif m in DREF:
                    st.auto = st.auto | {(n, ev.val, False)}
            elif k == "call" and m in CONSUME:
                for a in ev.args:
                    self.release(I, st, a)
        elif k == "drop":
            self.release(I, st, ev.val)
        elif k == "item" and ev.val is not None:
            it = I.canon(st, ev.args[0])
            for x in sources(I, st, it):
                if x.k == "CALL" and x.a[0].startswith(MAPS) and x.a[0].split("::")[-1] in ("iter", "iter_mut"):
                    n = self.name(I, st, x.a[2][0])
                    st.auto = st.auto | {(n, x, False)}
                    e = I.canon(st, ev.val)
                    if e.k == "ELEM":
                        st.auto = st.auto | {(n, e, False)}
        elif k in ("iterend", "itemdone"):
            it = I.canon(st, ev.args[0])
            src = sources(I, st, it)
            st.auto = frozenset(x for x in st.auto if x[1] not in src)
        if k == "yield":
            self.n["suspension points"] += 1
            free = ev.args and ev.args[0].k == "CALL" and ev.args[0].a[0] in self.free
            if not free:
                for n, g, sh in self.held(st):
                    self.viol(I, st, "suspended:" + n, "the task may be suspended here while it holds a guard of %s" % n, ev.cx)
                self.discharge("suspension:" + ev.cx.body.df.npath, "no guard is held")
        return True

    def release(self, I, st, v):
        if type(v) is not V or not st.auto:
            return
        c = I.canon(st, v)
        if c.k in ("REF",):
            return
        ts = set(subterms(c)) | set(subterms(v))
        st.auto = frozenset(x for x in st.auto if not (x[1] in ts and self.owns(c, x[1])))

    def owns(self, v, g):
        """dropping v releases guard g: v is g, its payload, or contains it"""
        if v is g:
            return True
        if v.k in ("PAY", "FLD", "VAR") and type(v.a[0]) is V:
            return self.owns(v.a[0], g)
        if v.k == "AGG":
            return any(self.owns(x, g) for x in v.a[4])
        if v.k in ("ITER", "SRC"):
            return True
        if v.k == "CALL" and v.a[0].split("::")[-1] in THROUGH:
            return any(type(x) is V and self.owns(x, g) for x in v.a[2])
        if v.k == "UPD":
            return "moved" not in show(v) and self.owns(v.a[0], g)
        return v.k not in ("CALL", "OP", "REF", "ELEM")


def check(P, rep):
    R = Roles(P)
    S = Srv(P, R)
    edges = {}
    n = {"acquisitions": 0, "suspension points": 0}
    roots = [b for b in P.bodies.values() if b.asyncfn and not any(b.df.npath.endswith(s) for s in ("run_command", "clean_up_socket_dir"))]
    for b in sorted(roots, key=lambda b: b.df.npath):
        g = Guards(P, rep, S, edges)
        out = g.start(b, CAP=1, HEADCAP=1)
        rep.take(g.I, g)
        for k in n:
            n[k] += g.n[k]
    for k, v in n.items():
        rep.floor(k, v, 10)
    rep.floor("async functions", len(roots), 20)
    # the order of acquisition
    succ = {}
    for (a, b), at in edges.items():
        succ.setdefault(a, {})[b] = at

    def reach(a, b, seen):
        if a == b:
            return True
        for c in succ.get(a, {}):
            if c not in seen:
                seen.add(c)
                if reach(c, b, seen):
                    return True
        return False
    for (a, b), at in sorted(edges.items()):
        if reach(b, a, set()):
            rep.viol("order:%s-%s" % (a, b), "%s is acquired while %s is held, and elsewhere the other way round" % (b, a), at)
        else:
            rep.ob("order:%s-%s" % (a, b), "always in this order (%s)" % at)
