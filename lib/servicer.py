"""The scheduling core: anchors (by type) and the automata for readiness, dispatch and accounting."""
from absint import (Interp, Rule, V, mk, call, C, op, proj, discr, show, TRUE, FALSE, OPT, RES, POLL, EMPTY)
from models import payload
from frame import (Report, Base, adt, fields, fieldof, has, subterms, iscall, calls_in, pathis, where, local_adts, loc, peel, SPAWN, number, infield, Each, Once, truth, possible, itsources, whole)
from mir import AnchorError
import scan


class Roles:
    def __init__(self, prog):
        self.prog = prog
        S = self.S = adt(prog, "ReadyTrackerServer")
        K = self.K = adt(prog, "ReadyTrackerClient")
        self.E = adt(prog, "FinishedEvent")
        self.X = adt(prog, "ExitStatus")
        self.xpath = self.X["def"].npath
        isn = lambda t, n: t.k == "adt" and t.name == n
        self.g = fieldof(prog, S, lambda t: t.peel().k == "adt" and t.peel().name == "Graph", "task graph")
        # statuses: map to a local struct with an integer and a bool
        st = [(f["name"], f["ty"]) for f in fields(S) if isn(f["ty"], "HashMap") and f["ty"].a[1].k == "adt" and f["ty"].a[1].d.key in prog.adts]
        if len(st) != 1:
            raise AnchorError("the per-task status map of ReadyTrackerServer, found %s" % [n for n, _ in st])
        self.statuses = st[0][0]
        self.T = prog.adts[st[0][1].a[1].d.key]
        self.tpath = self.T["def"].npath
        self.count = fieldof(prog, self.T, lambda t: t.k == "uint", "unmet dependency count")
        self.poison = fieldof(prog, self.T, lambda t: t.k == "bool", "poison mark")
        # the queue item
        r = [(f["name"], f["ty"].a[0].a[0]) for f in fields(K) if f["ty"].k == "array" and f["ty"].a and f["ty"].a[0].name == "Receiver"]
        if len(r) != 1:
            raise AnchorError("the array of ready-queue receivers of ReadyTrackerClient")
        self.receivers = r[0][0]
        self.I = prog.adts[r[0][1].d.key]
        self.ipath = self.I["def"].npath
        self.i_id = fieldof(prog, self.I, lambda t: isn(t, "NodeIndex"), "task id of a queue item")
        self.i_taken = fieldof(prog, self.I, lambda t: isn(t, "Arc") and t.peel().name.startswith("Atomic"), "claim flag of a queue item")
        self.i_aff = fieldof(prog, self.I, lambda t: isn(t, "BitArray"), "affinity of a queue item")
        self.ready = fieldof(prog, S, lambda t: isn(t, "Option") and t.a[0].k == "array", "ready-queue senders")
        self.completed = fieldof(prog, S, lambda t: isn(t, "Receiver"), "event channel")
        self.eventpath = [f["ty"].a[0].path for f in fields(S) if f["name"] == self.completed][0]
        self.EV = prog.adts[[f["ty"].a[0].d.key for f in fields(S) if f["name"] == self.completed][0]]
        epath = self.E["def"].npath
        self.v_fin = [v["name"] for v in self.EV["variants"] if v["fields"] and v["fields"][0]["ty"].path == epath]
        self.v_start = [v["name"] for v in self.EV["variants"] if v["fields"] and v["fields"][0]["ty"].path != epath]
        if len(self.v_fin) != 1 or len(self.v_start) != 1:
            raise AnchorError("the Started and Finished events")
        self.v_fin = self.v_fin[0]
        self.v_start = self.v_start[0]
        self.SE = prog.adts[[v["fields"][0]["ty"].d.key for v in self.EV["variants"] if v["name"] == self.v_start][0]]
        self.e_id = fieldof(prog, self.E, lambda t: isn(t, "NodeIndex"), "task id of a finished event")
        self.s_id = fieldof(prog, self.SE, lambda t: isn(t, "NodeIndex"), "task id of a started event")
        self.e_status = fieldof(prog, self.E, lambda t: t.path == self.xpath, "status of a finished event")
        sd = [(f["name"], f["ty"].path) for f in fields(S) if f["ty"].k == "adt" and f["ty"].enum and f["ty"].variants
              and any("SoftShutdown" == n for n, _ in f["ty"].variants)]
        self.shutdown = sd[0] if len(sd) == 1 else (None, None)
        self.inflight = [f["name"] for f in fields(S) if isn(f["ty"], "HashMap") and f["ty"].a[1].name == "Instant"]
        self.serve = prog.fn("ReadyTrackerServer::background_serve", "execgraph") if prog.by_path("ReadyTrackerServer::background_serve", "execgraph", "fn") else prog.fn("background_serve", "execgraph")
        self.new = prog.fn("new_ready_tracker", "execgraph")
        self.drain = prog.fn("drain", "execgraph") if len(prog.by_path("drain", "execgraph", "fn")) == 1 else prog.fn("ReadyTrackerServer::drain", "execgraph")
        self.recv = [b for b in prog.by_path("recv", "execgraph", "fn") if "ReadyTrackerClient" in b.df.npath]
        if len(self.recv) != 1:
            raise AnchorError("ReadyTrackerClient::recv")
        self.recv = self.recv[0]

    # ------------------------------------------------------------ term recognisers
    def fieldname(self, v):
        """name of the last field of a place or a value read from it"""
        if v.k == "REF":
            p = v.a[1]
            return p[-1][1] if p and p[-1][0] == "f" else None
        if v.k == "FLD":
            return v.a[1]
        if v.k in ("DEREF",):
            return self.fieldname(v.a[0])
        return None

    def status_key(self, v):
        """N when v is a term inside statuses[N]"""
        for x in subterms(v):
            if x.k == "CALL" and x.a[0] == "map.get" and self.fieldname(x.a[2][0]) == self.statuses:
                return x.a[2][1]
        return None

    def isg(self, v):
        return self.fieldname(v) == self.g

    def edge_source(self, src, direction):
        """(graph, node) when an iterator source enumerates the neighbours/edges of node in the direction"""
        if src.k != "CALL":
            return None
        p = src.a[0]
        a = src.a[2]
        if p.endswith(("Graph::edges_directed", "Graph::neighbors_directed")) and len(a) == 3:
            d = a[2]
            if d.k == "AGG" and d.a[2] == direction:
                return a[0], a[1]
            return None
        if direction == "Outgoing" and p.endswith(("Graph::edges", "Graph::neighbors")) and len(a) == 2:
            return a[0], a[1]
        return None

    def edge_target(self, v):
        """the iterator element whose far end v is: (source term, element)"""
        if v.k == "CALL" and v.a[0].endswith("::target"):
            e = v.a[2][0]
        else:
            e = v
        while e.k in ("DEREF",):
            e = e.a[0]
        if e.k == "CALL" and e.a[0] == "elem":
            return e.a[2][0], e
        return None

    def fin_event(self, v):
        """the FinishedEvent value (payload of an event received on the completion channel) v is a field of"""
        for x in subterms(v):
            if x.k == "VF" and x.a[1] == self.v_fin and self.is_event(x.a[0]):
                return x
        return None

    def is_event(self, v):
        """a value received from the completion channel"""
        return has(v, lambda t: t.k == "CALL" and t.a[0] in ("await",) + self.TRYRECV and has(t, lambda u: self.fieldname(u) == self.completed))

    RECVS = ("async_channel::Receiver::recv", "async_channel::Receiver::try_recv", "async_channel::Receiver::recv_blocking")
    TRYRECV = ("async_channel::Receiver::try_recv", "async_channel::Receiver::recv_blocking")

    def success(self, st, ev):
        """True/False/None: is the finished event's status exit code zero (on this path)"""
        s = proj(ev, ("f", self.e_status, None))
        vs = st.variants(s, self.xpath)
        if vs is not None and "Code" not in vs:
            return False
        if vs is not None and len(vs) == 1:
            c = proj(proj(s, ("v", "Code")), ("f", "0", 0))
            return st.ev(op("Eq", c, C(0)))
        c = mk("VF", s, "Code", "0")
        if st.ev(op("Eq", c, C(0))) is False:
            return False
        return None


def current(st, root, path=()):
    return st.read(root, path)


def bitof(k):
    """(affinity, bit number) when k is the value of a bit of an affinity"""
    while k.k in ("DEREF",) or k.k == "CALL" and k.a[0].split("::")[-1] in ("deref", "unwrap", "expect") and len(k.a[2]) >= 1 or k.k == "VF":
        k = k.a[0] if k.k in ("DEREF", "VF") else k.a[2][0]
    k = peel(k)
    if k.k == "CALL" and k.a[0].split("::")[-1] in ("index", "get") and len(k.a[2]) == 2:
        return peel(k.a[2][0]), peel(k.a[2][1])
    return None


class Gate(Base):
    """C01/C02/C03: which tasks are put on the ready queues, and that each ready task is."""
    # opaque: logging and display have no effect on scheduling
    opaque = ("LogFile::write", "Cmd::call_postamble", "Cmd::call_preamble", "flush_logging")

    # auto = (loop, cur, done, item, must, draw, alloc)
    #  loop: an event has been received; cur: the pending event; done: its edges were walked to the end
    #  item: None | (elem, state) state in fresh/dec/poisoned/collected ; must: collected, not yet drawn
    #  draw: None | (N, ones) the ready task being queued ; alloc: the claim flag made for it
    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.R = R
        self.seen = {}
        self.decfail = False
        self.unmarked = None
        self.cleared = None

    def init(self):
        return (False, None, False, None, frozenset(), None, None)

    def see(self, k):
        self.seen[k] = self.seen.get(k, 0) + 1

    def part(self, st):
        R = self.R
        out = []
        for k, f in st.facts.items():
            if k.k == "DISCR" and (k.a[1] == R.xpath or k.a[1] == R.shutdown[1] or k.a[1] == R.eventpath):
                out.append((k, f))
            elif k.k == "VF" and k.a[1] == "Code" and f[0] in ("in", "notin"):
                out.append((k, f[0] == "in"))
            elif st.auto[3] is not None and self.keepfact(st, k):
                out.append((k, f))
        if st.auto[1] is None:
            return None
        return frozenset(out)

    def keepfact(self, st, k):
        """facts about the status of the dependent being looked at, or the affinity bit"""
        d = st.auto[5]
        if d is not None and len(d) > 2 and d[2] is not None and has(k, lambda u: u is d[2]):
            return True
        return st.auto[3] is not None and self.R.status_key(k) is not None

    # -------------------------------------------------------- events
    def on(self, I, st, ev):
        R = self.R
        k = ev.kind
        loop, cur, done, item, must, draw, alloc = st.auto
        if k == "yield" and ev.path == "await" or k == "call" and ev.path in R.RECVS and ev.args:
            if has(I.canon(st, ev.args[0]), lambda t: R.fieldname(t) == R.completed):
                self.boundary(I, st, ev.cx, "the next event is received")
                st.auto = (True, None, False, None, must, None, None)
            if k == "yield":
                return True
        if k == "await" or (k == "ret" and ev.path in R.TRYRECV):
            if R.is_event(ev.val):
                st.auto = (True, ev.val, False, None, must, None, None)
                self.see("event")
            return True
        if k == "write":
            return self.write(I, st, ev)
        if k == "step":
            src = ev.args[0].a[0]
            if draw is not None and (self.ones_of(ev.args[0]) is not None or self.bitrange(ev.args[0])):
                self.endbit(I, st, ev.cx)
                if len(st.auto[5]) > 2:
                    st.auto = st.auto[:5] + ((draw[0], "put" if st.auto[5][1] in ("in", "put") else "rput", None), alloc)
                return True
            if src.a[0] == "opq":
                e = R.edge_source(src.a[1], "Outgoing")
                if e is not None and R.isg(e[0]):
                    self.enditem(I, st, ev.cx)
            if self.all_tasks(ev.args[0]) or loop and cur is not None and src.a[0] in ("val", "ref") and any(self.isedge(x, cur) for x, _ in src.a[1].a[1]):
                self.enditem(I, st, ev.cx)
            return True
        if k == "item":
            return self.itemev(I, st, ev)
        if k == "iterend":
            return self.iterend(I, st, ev)
        if k == "collect":
            if item is not None and item[1] == "fresh" and loop:
                x = ev.val
                if x is item[0] or x in self.target_of(item[0]) or x.k == "CALL" and x.a[0].endswith("::target") and x.a[2][0] is item[0]:
                    if not self.blessed(st, x):
                        st.auto = (loop, cur, done, (item[0], "deferred"), must, draw, alloc)
            return True
        if k == "itemout" or k == "call" or k == "agg":
            return self.bless(I, st, ev)
        if k == "itemdone":
            if draw is not None:
                src = ev.args[0].a[0]
                if src.a[0] in ("val", "ref") and ev.val is not None and not self.isones(I, st, ev.args[0]):
                    if st.load(ev.val) is draw[0] or ev.val is draw[0]:
                        self.enddraw(I, st, ev.cx)
            return True
        if k == "ret":
            if ev.path is not None and ev.path.endswith("::is_empty") and must and ev.val is not None:
                v = I.canon(st, ev.args[0])
                if v.k == "COLL" and any(e in must for e, _ in v.a[1]):
                    return st.assume(ev.val, False)
            if ev.path == "std::sync::Arc::new" and len(ev.args) and draw is not None:
                ty = ev.cx.dty
                if ty is not None and ty.peel().name.startswith("Atomic"):
                    st.auto = st.auto[:6] + (ev.val,)
                    if draw[1] in ("in", "put"):
                        self.viol(I, st, "claim-flag-per-queue", "the claim flag is created separately for each queue the task is put on, so two queues can both hand it out", ev.cx)
        return True

    def all_tasks(self, it):
        """an iterator over every task: the entries or keys of the status map, or the nodes of the graph"""
        src = it.a[0]
        if src.a[0] in ("map", "mapv"):
            return self.R.fieldname(src.a[1]) == self.R.statuses
        return src.a[0] == "opq" and iscall(src.a[1], "Graph::node_indices") and self.R.isg(src.a[1].a[2][0])

    def isones(self, I, st, it):
        return self.ones_of(it) is not None

    def ones_of(self, it):
        src = it.a[0]
        if src.a[0] == "opq":
            b = src.a[1]
            if b.k == "CALL" and b.a[0].endswith("::iter_ones"):
                return b.a[2][0]
        return None

    def boundary(self, I, st, cx, what):
        """between events (or at the end): everything the event requires has been done"""
        R = self.R
        loop, cur, done, item, must, draw, alloc = st.auto
        if cur is not None and done is not True:
            okv = payload(cur, "Ok")
            vs = st.variants(cur, "std::result::Result")
            kinds = st.variants(okv, R.eventpath)
            if vs is not None and "Ok" not in vs:
                pass
            elif kinds is not None and R.v_fin not in kinds:
                pass
            else:
                fin = proj(proj(okv, ("v", R.v_fin)), ("f", "0", 0))
                s = self.R.success(st, fin)
                if s is not False and not self.is_shutdown(st):
                    self.viol(I, st, "successors-not-processed", "after a task finished with exit code 0 (no shutdown in progress), %s without its outgoing edges having been walked to the end: its dependents may never become ready" % what, cx)
                self.see("boundary")
        if not loop and not done:
            self.viol(I, st, "initial-not-walked", "%s without all task statuses having been looked at for tasks without dependencies" % what, cx)
        if must:
            self.viol(I, st, "ready-task-dropped", "a task whose last dependency was just met is not put on the ready queue before %s" % what, cx)

    def is_shutdown(self, st):
        R = self.R
        if R.shutdown[0] is None:
            return False
        for k, f in st.facts.items():
            if k.k == "DISCR" and k.a[1] == R.shutdown[1] and R.fieldname(k.a[0]) == R.shutdown[0] and f == ("in", frozenset(["SoftShutdown"])):
                return True
        for root, v in st.mem.items():
            if v.k == "UPD":
                for kk, x in v.a[1]:
                    if len(kk) > 1 and kk[1] == R.shutdown[0]:
                        vs = st.variants(x, R.shutdown[1])
                        if vs == frozenset(["SoftShutdown"]):
                            return True
        return False

    def write(self, I, st, ev):
        R = self.R
        root, path = ev.args
        names = [e[1] for e in path if e[0] == "f"]
        N = R.status_key(root)
        if N is None and R.statuses in names[-1:]:
            self.viol(I, st, "statuses-replaced", "the per-task status map is replaced while tasks are being scheduled", ev.cx)
            return True
        if N is None:
            return True
        if not names:
            # a whole status is overwritten: treat as a write of each field
            old = ev.extra
            for f in (R.count, R.poison):
                n = proj(ev.val, ("f", f, None))
                o = proj(old, ("f", f, None))
                if n is not o:
                    self.fieldwrite(I, st, ev, N, f, o, n)
            return True
        self.fieldwrite(I, st, ev, N, names[-1], ev.extra, ev.val)
        return True

    def fieldwrite(self, I, st, ev, N, f, old, new):
        R = self.R
        loop, cur, done, item, must, draw, alloc = st.auto
        t = R.edge_target(N)
        src = R.edge_source(t[0], "Outgoing") if t else None
        fin = R.fin_event(src[1]) if src else None
        if f == R.count:
            self.see("decrement")
            if src is None or fin is None or not R.isg(src[0]) or proj(fin, ("f", R.e_id, None)) is not src[1]:
                self.viol(I, st, "count-written-elsewhere", "the number of unmet dependencies of %s is changed although it is not the target of an outgoing edge of the task that just finished" % show(N)[:160], ev.cx)
                return
            if not (new.k == "OP" and new.a[0] in ("Sub", "SatSub", "WrapSub", "wsub") and new.a[1] is old and new.a[2] is C(1)):
                self.viol(I, st, "count-step", "the unmet-dependency count changes from %s to %s instead of going down by one per edge" % (show(old)[-60:], show(new)[-90:]), ev.cx)
            if item is None or item[0] is not t[1]:
                self.viol(I, st, "count-outside-walk", "an unmet-dependency count is changed outside the walk over the finished task's outgoing edges", ev.cx)
            elif item[1] == "dec":
                self.viol(I, st, "count-twice", "the unmet-dependency count is decremented twice for one edge", ev.cx)
            else:
                st.auto = (loop, cur, done, (item[0], "dec"), must, draw, alloc)
                self.discharge("decrement:" + ev.cx.body.df.npath, "count goes down by 1, only for the target of an outgoing edge of a task that exited 0")
        elif f == R.poison:
            v = st.ev(new)
            if v is not True and st.ev(old) is not False and new is not old and not (new.k == "OP" and new.a[0] == "BitOr" and old in new.a[1:]):
                self.cleared = where(ev.cx)
            if v is not False:
                if fin is None or src is None or not R.isg(src[0]):
                    self.viol(I, st, "poison-elsewhere", "a task is marked as having a failed dependency although it is not the target of an outgoing edge of a finished task", ev.cx)
                elif R.success(st, fin) is not False and v is True:
                    self.viol(I, st, "poison-on-success", "a dependent is marked as having a failed dependency on a path where the finished task may have succeeded", ev.cx)
                else:
                    self.discharge("poison:" + ev.cx.body.df.npath, "set only for direct dependents of a failed task")

    def itemev(self, I, st, ev):
        R = self.R
        it = ev.args[0]
        src = it.a[0]
        loop, cur, done, item, must, draw, alloc = st.auto
        o = self.ones_of(it)
        if (o is not None or self.bitrange(it)) and draw is not None:
            self.endbit(I, st, ev.cx)
            st.auto = st.auto[:5] + ((draw[0], "in" if o is not None else "rin", ev.val), alloc)
            return True
        if src.a[0] == "opq":
            e = R.edge_source(src.a[1], "Outgoing")
            if e is not None and R.isg(e[0]):
                self.enditem(I, st, ev.cx)
                loop, cur, done, item, must, draw, alloc = st.auto
                st.auto = (loop, cur, done if done == "later" else False, (ev.val, "fresh"), must, draw, alloc)
                bad = [s[0] for s in it.a[1] if s[0] in ("skip", "take", "step_by", "take_while", "skip_while")]
                if bad:
                    self.viol(I, st, "edges-skipped", "the walk over outgoing edges leaves edges out (%s)" % bad[0], ev.cx)
                self.see("edge")
                return True
        if not loop and self.all_tasks(it):
            self.enditem(I, st, ev.cx)
            loop, cur, done, item, must, draw, alloc = st.auto
            v = ev.val
            if v.k == "AGG":
                v = v.a[4][0]
            v = v if v.k == "REF" or src.a[0] == "opq" else mk("DEREF", v) if src.a[0] == "map" else v
            st.auto = (loop, cur, False, (v, "init"), must, draw, alloc)
            bad = [s[0] for s in it.a[1] if s[0] in ("skip", "take", "step_by", "take_while", "skip_while")]
            if bad:
                self.viol(I, st, "initial-not-walked", "the walk over all tasks leaves tasks out (%s)" % bad[0], ev.cx)
            return True
        if src.a[0] in ("val", "ref"):
            v = ev.val
            x = st.load(v) if v.k == "REF" else v
            if loop and cur is not None and self.isedge(x, cur) and not self.blessed(st, x):
                self.enditem(I, st, ev.cx)
                loop, cur, done, item, must, draw, alloc = st.auto
                e = self.R.edge_target(x)[1]
                st.auto = (loop, cur, "later", (e, "fresh"), must, draw, alloc)
                bad = [s[0] for s in it.a[1] if s[0] in ("skip", "take", "step_by", "take_while", "skip_while")]
                if bad:
                    self.viol(I, st, "edges-skipped", "the walk over outgoing edges leaves edges out (%s)" % bad[0], ev.cx)
                self.see("edge")
                return True
            self.maybe_draw(I, st, x, ev)
        return True

    def isedge(self, x, cur):
        """an outgoing edge of the finished task being handled, or the far end of one"""
        t = self.R.edge_target(x)
        if t is None:
            return False
        e = self.R.edge_source(t[0], "Outgoing")
        return e is not None and self.R.isg(e[0]) and has(e[1], lambda u: u is cur)

    def maybe_draw(self, I, st, x, ev):
        R = self.R
        loop, cur, done, item, must, draw, alloc = st.auto
        if x.k == "AGG" and x.a[0] == "tuple" and x.a[4]:
            for y in x.a[4]:
                if self.blessed(st, y):
                    x = y
        if self.blessed(st, x):
            if draw is not None:
                self.enddraw(I, st, ev.cx)
            loop, cur, done, item, must, draw, alloc = st.auto
            bad = [s[0] for s in ev.args[0].a[1] if s[0] in ("skip", "take", "step_by", "take_while", "skip_while")]
            if bad:
                self.viol(I, st, "ready-task-dropped", "the walk over the newly ready tasks leaves tasks out (%s)" % bad[0], ev.cx)
            st.auto = (loop, cur, done, item, must - {x}, (x, "no"), None)
            self.see("draw")

    def bitrange(self, it):
        """a walk over all the bit numbers of an affinity"""
        src = it.a[0]
        if src.a[0] not in ("range", "rangei") or len(src.a) < 3 or src.a[1] is not C(0) or type(src.a[2]) is not V:
            return False
        hi = src.a[2]
        if hi.k == "CALL" and hi.a[0] == "len":
            hi = peel(hi.a[2][0])
            if hi.k == "CALL" and hi.a[0].endswith("from_elem"):
                hi = hi.a[2][1]
            elif hi.k == "FLD" and hi.a[1] == self.affinity():
                return True
        return hi.k == "C" and type(hi.a[0]) is int and hi.a[0] + (src.a[0] == "rangei") == 64

    def affinity(self):
        return fieldof(self.prog, adt(self.prog, "Cmd"), lambda t: t.k == "adt" and t.name == "BitArray", "affinity of a task")

    def bit(self, st, i, N):
        """what is known about bit i of task N's affinity"""
        for k in st.facts:
            t = bitof(k)
            if t is not None and t[1] is i and self.R.fieldname(t[0]) == self.affinity() and has(t[0], lambda u: u is N):
                return st.ev(k)
        return None

    def endbit(self, I, st, cx):
        """the previous bit of the task being queued: a queue item was made for it, or it is not set"""
        draw = st.auto[5]
        if draw is None or len(draw) < 3 or draw[1] not in ("in", "rin"):
            return
        if draw[1] == "in":
            self.viol(I, st, "ready-task-not-offered", "a runner type of a ready task's affinity is passed over: no queue item is made for it", cx)
        elif self.bit(st, draw[2], draw[0]) is not False:
            st.auto = st.auto[:5] + ((draw[0], "no"), st.auto[6])

    def enddraw(self, I, st, cx):
        loop, cur, done, item, must, draw, alloc = st.auto
        if draw is not None and draw[1] != "yes":
            self.viol(I, st, "ready-task-not-offered", "a task drawn from the list of newly ready tasks is not offered to every queue of its affinity (the walk over its affinity bits %s)" % ("does not reach the end" if draw[1] in ("in", "put", "rin", "rput") else "does not happen"), cx)
        st.auto = (loop, cur, done, item, must, None, None)

    def enditem(self, I, st, cx):
        """the previous edge's obligations"""
        R = self.R
        loop, cur, done, item, must, draw, alloc = st.auto
        if item is None:
            return
        e, state = item
        if state in ("init", "initdone"):
            if state == "init":
                pois, cnt = self.status_terms(st, [e])
                z = st.ev(op("Eq", cnt, C(0))) if cnt is not None else None
                if z is not False:
                    self.viol(I, st, "initial-zero-not-collected", "a task that may have no unmet dependencies is passed over when the initial ready tasks are collected", cx)
            st.auto = (loop, cur, done, None, must, draw, alloc)
            return
        N = self.target_of(e)
        t = R.edge_source(self.srcof(e), "Outgoing")
        fin = R.fin_event(t[1]) if t else None
        if fin is None:
            return
        s = R.success(st, fin)
        if state in ("dec", "collected") and s is not True:
            # counting down on failures too is sound only if the failure leaves a mark that is checked before collecting
            pois, cnt = self.status_terms(st, N)
            if s is None or pois is None or st.ev(pois) is not True:
                self.viol(I, st, "count-decremented-without-success", "an unmet-dependency count is decremented on a path where the finished task is not known to have exited with code 0, without marking the dependent", cx)
            else:
                self.decfail = True
        if s is not False:
            pois, cnt = self.status_terms(st, N)
            if state == "fresh":
                if not (pois is not None and st.ev(pois) is True):
                    self.viol(I, st, "edge-not-counted", "an outgoing edge of a task that exited 0 is passed over without decrementing the dependent's unmet-dependency count", cx)
            elif state == "deferred":
                st.auto = (loop, cur, "later", None, must, draw, alloc)
                return
            elif state == "dec":
                z = st.ev(op("Eq", cnt, C(0))) if cnt is not None else None
                if z is not False and not (pois is not None and st.ev(pois) is True):
                    self.viol(I, st, "zero-count-not-collected", "a dependent whose unmet-dependency count may have reached zero is not collected for the ready queue", cx)
        st.auto = (loop, cur, done, None, must, draw, alloc)

    def srcof(self, e):
        x = e
        while x.k in ("DEREF",):
            x = x.a[0]
        return x.a[2][0] if x.k == "CALL" and x.a[0] == "elem" else x

    def target_of(self, e):
        """the dependent's id for an edge element (edges give EdgeReference, neighbours give the node)"""
        s = self.srcof(e)
        if s.k == "CALL" and s.a[0].endswith(("neighbors", "neighbors_directed")):
            return [e]
        return [call("petgraph::visit::EdgeRef::target", None, e)]

    def status_roots(self, st, N):
        """roots of memory cells or values for statuses[N]"""
        out = []
        cands = set(st.mem) | set(k for f in st.facts for k in subterms(f) if k.k == "VF" and k.a[1] == "Some")
        for r in cands:
            if r.k == "VF" and r.a[1] == "Some" and r.a[0].k == "CALL" and r.a[0].a[0] == "map.get":
                m = r.a[0]
                if self.R.fieldname(m.a[2][0]) == self.R.statuses and m.a[2][1] is N:
                    out.append(r)
        return out

    def status_terms(self, st, N):
        R = self.R
        Ns = N if isinstance(N, list) else [N]
        for k in list(st.mem) + [x for f in st.facts for x in subterms(f)]:
            if k.k == "VF" and k.a[1] == "Some" and k.a[0].k == "CALL" and k.a[0].a[0] == "map.get":
                m = k.a[0]
                if R.fieldname(m.a[2][0]) == R.statuses and (m.a[2][1] in Ns or R.edge_target(m.a[2][1]) and m.a[2][1].k == "CALL" and m.a[2][1].a[2] and m.a[2][1].a[2][0] in [n.a[2][0] if n.k == "CALL" and n.a[2] else None for n in Ns]):
                    v = st.content(k)
                    return proj(v, ("f", R.poison, None)), proj(v, ("f", R.count, None))
        return None, None

    def iterend(self, I, st, ev):
        R = self.R
        it = ev.args[0]
        src = it.a[0]
        loop, cur, done, item, must, draw, alloc = st.auto
        o = self.ones_of(it)
        if o is not None:
            if draw is not None and has(o, lambda t: t is draw[0]) and R.fieldname(o) is not None and not [s for s in it.a[1] if s[0] in ("skip", "take", "step_by", "take_while", "skip_while", "filter", "filter_map", "rev") and s[0] != "rev"]:
                self.endbit(I, st, ev.cx)
                st.auto = st.auto[:5] + ((draw[0], "yes"), alloc)
            return True
        if draw is not None and self.bitrange(it):
            if draw[1] == "no":
                return False  # the range is not empty
            if draw[1] in ("rin", "rput"):
                self.endbit(I, st, ev.cx)
                if st.auto[5][1] != "no":
                    st.auto = st.auto[:5] + ((draw[0], "yes"), alloc)
            return True
        if src.a[0] == "opq":
            e = R.edge_source(src.a[1], "Outgoing")
            if e is not None and R.isg(e[0]):
                self.enditem(I, st, ev.cx)
                loop, cur, done, item, must, draw, alloc = st.auto
                fin = R.fin_event(e[1])
                if fin is not None and cur is not None and has(fin, lambda t: t is cur):
                    # the edges were either handled one by one, or put aside in a collection to be walked later
                    st.auto = (loop, cur, "later" if done == "later" else True, None, must, draw, alloc)
                    self.see("walked")
                return True
        if loop and cur is not None and src.a[0] in ("val", "ref") and done == "later" and any(self.isedge(x, cur) for x, _ in src.a[1].a[1]):
            self.enditem(I, st, ev.cx)
            loop, cur, done, item, must, draw, alloc = st.auto
            st.auto = (loop, cur, True, None, must, draw, alloc)
            self.see("walked")
            return True
        if self.all_tasks(it):
            self.enditem(I, st, ev.cx)
            loop, cur, done, item, must, draw, alloc = st.auto
            if not loop:
                st.auto = (loop, cur, True, None, must, draw, alloc)
                self.see("init-walked")
            return True
        if src.a[0] in ("val", "ref"):
            if must and any(x in must for x, _ in src.a[1].a[1]):
                return False  # the collection is known to hold an undrawn element
            if draw is not None and any(x is draw[0] for x, _ in src.a[1].a[1]):
                self.enddraw(I, st, ev.cx)
        return True

    def blessed(self, st, x):
        return st.ev(mk("OKREADY", x)) is True

    def bless(self, I, st, ev):
        """wherever a node id is collected while its unmet count is provably zero, remember that"""
        R = self.R
        loop, cur, done, item, must, draw, alloc = st.auto
        if ev.kind == "agg" and ev.path == R.ipath:
            return self.taskitem(I, st, ev)
        vals = []
        if ev.kind == "itemout":
            if ev.path == "item":
                vals = [ev.val]
            elif ev.path == "end":
                pass
        elif ev.kind == "agg" and ev.val.a[2] == "Some":
            vals = [ev.val.a[4][0]]
            collect = False
        elif ev.kind == "call" and ev.path and ev.path.split("::")[-1] in ("push", "push_back", "insert", "extend", "from_ref", "once"):
            vals = [a for a in ev.args]
        else:
            return True
        for x in vals:
            x = st.load(x) if x.k == "REF" else x
            if x.k == "AGG" and x.a[0] == "tuple":
                xs = list(x.a[4])
            else:
                xs = [x]
            for y in xs:
                self.try_bless(I, st, y, ev)
        return True

    def try_bless(self, I, st, y, ev):
        R = self.R
        loop, cur, done, item, must, draw, alloc = st.auto
        if y.k not in ("CALL", "DEREF", "FLD", "VF"):
            return
        initial = y.k in ("DEREF", "CALL") and has(y, lambda t: t.k == "CALL" and t.a[0] == "key" and R.fieldname(t.a[2][0]) == R.statuses) or \
            has(y, lambda t: t.k == "CALL" and t.a[0].endswith("::node_indices"))
        t = R.edge_target(y)
        edge = t is not None and R.edge_source(t[0], "Outgoing") is not None
        if not (initial or edge):
            return
        for r in self.status_cells(st, y):
            v = st.content(r)
            if st.ev(op("Eq", proj(v, ("f", R.count, None)), C(0))) is True:
                if initial and not edge and loop:
                    return  # not a reason to start a task once events are being processed
                if edge and (item is None or item[1] not in ("dec", "collected")):
                    return
                if st.ev(proj(v, ("f", R.poison, None))) is not False and edge:
                    self.unmarked = where(ev.cx)
                st.facts[mk("OKREADY", y)] = ("in", frozenset([True]))
                if edge:
                    if ev.kind in ("call", "itemout"):
                        st.auto = (loop, cur, done, (item[0], "collected"), must | {y}, draw, alloc)
                else:
                    if ev.kind in ("call", "itemout"):
                        st.auto = (loop, cur, done, (item[0], "initdone") if item is not None and item[0] is y else item, must | {y}, draw, alloc)
                self.see("collected-edge" if edge else "collected-initial")

    def status_cells(self, st, N):
        R = self.R
        out = set()
        for k in list(st.mem) + list(st.facts):
            for x in subterms(k):
                if x.k == "VF" and x.a[1] == "Some" and x.a[0].k == "CALL" and x.a[0].a[0] == "map.get":
                    m = x.a[0]
                    if R.fieldname(m.a[2][0]) == R.statuses and m.a[2][1] is N:
                        out.add(x)
        return out

    def taskitem(self, I, st, ev):
        R = self.R
        loop, cur, done, item, must, draw, alloc = st.auto
        N = proj(ev.val, ("f", R.i_id, None))
        self.see("taskitem")
        if not self.blessed(st, N):
            self.viol(I, st, "enqueued-without-zero-count", "a queue item is made for %s, which is not known to have zero unmet dependencies when it was collected" % show(N)[:120], ev.cx)
        else:
            self.discharge("taskitem:" + ev.cx.body.df.npath, "queue items are made only for ids collected while their unmet-dependency count was zero")
        if draw is None or draw[0] is not N:
            self.viol(I, st, "enqueued-outside-draw", "a queue item is made for a task that is not the one being taken from the list of newly ready tasks", ev.cx)
        tk = proj(ev.val, ("f", R.i_taken, None))
        if alloc is None or tk is not alloc:
            self.viol(I, st, "claim-flag-not-shared", "the claim flag of the queue items of one task is not one fresh flag made for this task: %s" % show(tk)[:80], ev.cx)
        else:
            self.discharge("claimflag:" + ev.cx.body.df.npath, "one fresh claim flag per task, shared by all its queue items")
        if draw is not None and draw[1] in ("in", "rin"):
            st.auto = st.auto[:5] + ((draw[0], "put" if draw[1] == "in" else "rput", draw[2]), alloc)
        return True


class Claim(Base):
    """ReadyTrackerClient::recv: an id is handed out only by the caller that won the item's claim flag, and a claimed
    item is never dropped."""
    RMW = ("fetch_or", "swap", "compare_exchange")
    QRECV = ("async_priority_channel::Receiver::recv", "async_priority_channel::Receiver::try_recv")

    # auto = None | (received value, rmw result, flag value read)
    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.R = R
        self.n = {"recv": 0, "rmw": 0, "ok": 0}

    def init(self):
        return None

    def queue(self, v):
        return has(v, lambda t: self.R.fieldname(t) == self.R.receivers)

    def won(self, st, r):
        """True: this caller set the flag; False: it was set before; None: not known"""
        if r is None:
            return None
        if r.a[0].endswith("compare_exchange"):
            vs = st.variants(r, "std::result::Result")
            return None if vs is None or len(vs) != 1 else "Ok" in vs
        e = st.ev(r)
        return None if e is None else not e

    def discard(self, I, st, cx, what):
        a = st.auto
        if a is None:
            return
        val, rmw, load = a
        vs = st.variants(val, "std::result::Result")
        if vs == frozenset(["Err"]):
            pass
        elif rmw is not None:
            if self.won(st, rmw) is not False:
                self.viol(I, st, "claimed-item-dropped", "an item whose claim flag was just set by this caller is dropped (%s): no runner will ever get the task" % what, cx)
        elif load is None or st.ev(load) is not True:
            self.viol(I, st, "item-dropped-unclaimed", "an item taken from the queue is dropped without having been found claimed (%s)" % what, cx)

    def on(self, I, st, ev):
        R = self.R
        k = ev.kind
        if k == "yield" and ev.path == "await" or k == "call" and ev.path in self.QRECV:
            if st.auto is not None:
                self.discard(I, st, ev.cx, "there is a suspension point before it is returned, where the caller may be cancelled" if k == "yield" and not self.queue(ev.args[0]) else "another item is taken")
                st.auto = None
            return True
        if k == "await" and self.queue(ev.val) or k == "ret" and ev.path == self.QRECV[1] and self.queue(ev.val):
            st.auto = (ev.val, None, None)
            self.n["recv"] += 1
            return True
        if k == "ret" and st.auto is not None and ev.path and "Atomic" in ev.path and ev.val is not None:
            f = I.canon(st, ev.args[0])
            m = ev.path.split("::")[-1]
            if R.fieldname(f) == R.i_taken and has(f, lambda t: t is st.auto[0]):
                if m == "load":
                    st.auto = (st.auto[0], st.auto[1], ev.val)
                elif m in self.RMW:
                    a = [st.ev(I.canon(st, x)) for x in ev.args[1:3]]
                    if m == "compare_exchange" and a != [False, True] or m != "compare_exchange" and a[0] is not True:
                        self.viol(I, st, "claim-does-not-set", "the claim operation %s does not set the claim flag" % m, ev.cx)
                    if st.auto[1] is not None:
                        self.viol(I, st, "claim-twice", "the claim flag of one item is set twice", ev.cx)
                    st.auto = (st.auto[0], ev.val, st.auto[2])
                    self.n["rmw"] += 1
                elif m not in ("clone",):
                    self.viol(I, st, "claim-flag-unset", "the claim flag is changed by %s" % m, ev.cx)
        return True

    def finish(self, I, out, body):
        R = self.R
        for st, v in out:
            cx = I.rootcx(body, 0)
            if not (v.k == "AGG" and v.a[2] in ("Ok", "Err")):
                self.viol(I, st, "recv-result", "the result of the dispatch function is not understood: %s" % show(v)[:100], cx)
                continue
            if v.a[2] == "Err":
                self.discard(I, st, cx, "an error is returned")
                continue
            x = v.a[4][0]
            a = st.auto
            if a is None or R.fieldname(x) != R.i_id or not has(x, lambda t: t is a[0]):
                self.viol(I, st, "recv-other-id", "the dispatch function returns an id that is not the id of the item it just took: %s" % show(x)[:120], cx)
            elif a[1] is None:
                self.viol(I, st, "recv-without-claim", "a task id is handed out without its claim flag having been set by an atomic read-modify-write", cx)
            elif self.won(st, a[1]) is not True:
                self.viol(I, st, "recv-claim-not-won", "a task id is handed out on a path where the claim flag may already have been set by another runner", cx)
            else:
                self.n["ok"] += 1
                self.discharge("claim:" + body.df.npath, "an id is returned only after this caller's read-modify-write found the flag unset")
        self.rep.take(I, self)


def run_claim(prog, rep, R):
    c = Claim(prog, rep, R)
    out = c.start(R.recv)
    c.finish(c.I, out, R.recv)
    return c


def run_gate(prog, rep, R, keys):
    """the Gate automaton over the service loop, reporting only the given violation and obligation keys"""
    from frame import Report
    inner = Report(rep.pid)
    g = Gate(prog, inner, R)
    out = g.start(R.serve)
    n = 0
    for s, v in out:
        if v.k == "AGG" and v.a[2] == "Err":
            continue
        n += 1
        g.boundary(g.I, s, g.I.rootcx(R.serve, 0), "the service returns")
    inner.take(g.I, g)
    if g.decfail and g.unmarked:
        inner.viol("count-decremented-without-success:unchecked", "unmet-dependency counts go down for failed tasks too, and a task is collected for the ready queue without its failure mark being known to be unset", g.unmarked)
    if g.decfail and g.cleared:
        inner.viol("poison-cleared", "unmet-dependency counts go down for failed tasks too, and the failure mark of a task can be cleared again", g.cleared)
    for k, v in inner.viols.items():
        if k.split(":")[0] in keys:
            rep.viols[k] = v
    for k, v in inner.obs.items():
        if k.split(":")[0] in keys:
            rep.obs[k] = v
    rep.functions |= inner.functions
    rep.visits += inner.visits
    rep.calls += inner.calls
    rep.roots.append(R.serve.df.path)
    g.exits = n
    for k, x in g.seen.items():
        rep.count("seen:" + k, x)
    return g, out


def outside(prog, rep, R, I_bodies, what, sites, key, msg):
    """sites [(body, span, ...)] must lie in analysed bodies"""
    for s in sites:
        b, span = s[0], s[1]
        if b.df.path not in I_bodies and b.key not in I_bodies:
            rep.viol(key + ":" + b.df.npath, msg % b.df.path, "%s:%d (in %s)" % (span[0], span[1], b.df.path))
        else:
            rep.ob(key + ":" + b.df.npath, what)


class New(Base):
    """new_ready_tracker: initial bookkeeping"""
    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.R = R

    def on(self, I, st, ev):
        if ev.kind == "item":
            it = ev.args[0]
            s = it.a[0]
            if s.a[0] == "opq" and iscall(s.a[1], "Graph::node_indices"):
                bad = [x[0] for x in it.a[1] if x[0] in ("skip", "take", "filter", "filter_map", "step_by", "take_while", "skip_while", "map_while")]
                if bad:
                    self.viol(I, st, "init-nodes-skipped", "not every task gets an initial status (%s)" % bad[0], ev.cx)
        return True


def server_values(prog, rep, R):
    """-> [(state, server value, client value)] at the exits of new_ready_tracker"""
    n = New(prog, rep, R)
    out = n.start(R.new)
    rep.take(n.I, n)
    res = []
    for s, v in out:
        if v.k != "AGG" or v.a[0] != "tuple" or len(v.a[4]) != 2:
            raise AnchorError("the result of new_ready_tracker")
        a, b = v.a[4]
        res.append((s, n.I.canon(s, a), n.I.canon(s, b)))
    if not res:
        raise AnchorError("an exit of new_ready_tracker")
    return n, res


def check_init(prog, rep, R):
    """every task starts with its number of unmet dependencies and unpoisoned"""
    n, res = server_values(prog, rep, R)
    n_el = 0
    for s, a, b in res:
        g = proj(a, ("f", R.g, None))
        st = proj(a, ("f", R.statuses, None))
        if st.k != "COLL":
            rep.viol("init-statuses", "the initial status map is not understood: %s" % show(st)[:100], loc(R.new))
            continue
        n_el += len(st.a[1])
        for e, _ in st.a[1]:
            if e.k != "AGG" or len(e.a[4]) != 2:
                rep.viol("init-statuses", "an initial status is not understood: %s" % show(e)[:100], loc(R.new))
                continue
            k, v = e.a[4]
            v = s.load(v) if v.k == "REF" else v
            c = proj(v, ("f", R.count, None))
            okc = False
            if c.k == "CALL" and c.a[0] in ("count", "len") or c.k == "CALL" and c.a[0].endswith("::count"):
                it = c.a[2][0]
                if it.k == "ITER" and not [x for x in it.a[1] if x[0] not in ("map", "inspect", "enumerate", "cloned", "copied")]:
                    it = it.a[0].a[1]
                if it.k == "CALL":
                    e2 = R.edge_source(it, "Incoming")
                    okc = e2 is not None and e2[1] is k and e2[0] is g
            okc = rep.need(okc, "init-count", "each task's unmet-dependency count starts as the number of its incoming edges", loc(R.new))
            if k.k == "CALL" and has(k, lambda t: iscall(t, "Graph::node_indices")):
                rep.ob("init-nodes", "over all nodes of the graph")
            else:
                rep.viol("init-nodes", "the initial statuses are keyed by %s, not by the nodes of the graph" % show(k)[:80], loc(R.new))
            rep.need(s.ev(proj(v, ("f", R.poison, None))) is False, "init-poison", "no task starts poisoned", loc(R.new))
    rep.floor("initial statuses", n_el, 1)
