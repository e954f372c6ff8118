"""C04: a task is offered exactly to the runner types of its affinity."""
from servicer import *
RULE = ("Service loop, every path: a queue item is put only on the list whose index is a one-bit of that task's own affinity, one is made for every "
        "one-bit in a walk over all of them that leaves none out, the "
        "list with index k is sent only to the k-th ready-queue sender, the walk over the lists reaches its end and skips only "
        "empty lists before the next event; senders and receivers are created in pairs and kept in the same order; the "
        "dispatch function takes from the receiver whose index is the caller's runner type and answers an error when there is "
        "none; the local loops ask with type 0 when they capture output and with type 1 when they inherit the console.")
ASSUME = ["BitArray::iter_ones yields the one-bits", "from_elem makes a list of equal lists"]


class Aff(Base):
    opaque = ("LogFile::write", "Cmd::call_postamble", "Cmd::call_preamble", "flush_logging")

    # auto: (lists holding unsent items, current batch | None)
    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.R = R
        self.n = {"push": 0, "send": 0, "walk": 0}
        self.bits = set()  # bit numbers tested in a walk over all of them
        self.ranges = {}
        self.cmdaff = fieldof(prog, adt(prog, "Cmd"), lambda t: t.k == "adt" and t.name == "BitArray", "affinity of a task")

    def init(self):
        return (frozenset(), None)

    def keepfact(self, st, k):
        b = st.auto[1]
        t = bitof(k)
        if t is not None and self.R.fieldname(t[0]) == self.cmdaff:
            return True
        return b is not None and has(k, lambda t: t.k == "CALL" and t.a[0] == "index" and t.a[2][1] is b[1])

    def items(self, v):
        return [x for x in subterms(v) if x.k == "AGG" and x.a[0] == "adt" and x.a[1] == self.R.ipath]

    def ones(self, st, i):
        """the affinity value i is a one-bit of"""
        if i.k == "CALL" and i.a[0] == "elem":
            s = i.a[2][0]
            if s.k == "CALL" and s.a[0].endswith("::iter_ones"):
                return s.a[2][0]
        return None

    def owner(self, I, st, a):
        """(graph, node) for an affinity field of a task"""
        a = I.canon(st, a)
        b = peel(a.a[0]) if a.k == "FLD" else None
        if b is not None and a.a[1] == self.cmdaff and b.k == "CALL" and b.a[0] == "index":
            g, n = b.a[2]
            if self.R.isg(g):
                return n
        return None

    def bits_ok(self, I, st, i, N, cx):
        a = self.ones(st, i)
        if a is None:
            for k in st.facts:
                t = bitof(k)
                if t is not None and t[1] is i and self.owner(I, st, t[0]) is not None and st.ev(k) is True:
                    a = t[0]
                    self.bits.add(i)
        n = self.owner(I, st, a) if a is not None else None
        if n is None or n is not N:
            self.viol(I, st, "queue-of-other-affinity", "a queue item for %s is put on the list of runner type %s, which is not known to be in this task's affinity" % (show(N)[-90:], show(i)[:90]), cx)
            return False
        self.discharge("affinity:" + cx.body.df.npath, "items go only to lists indexed by a one-bit of the same task's affinity")
        return True

    def on(self, I, st, ev):
        R = self.R
        k = ev.kind
        pend, batch = st.auto
        if k == "agg" and ev.path == R.ipath:
            N = proj(ev.val, ("f", R.i_id, None))
            a = proj(ev.val, ("f", R.i_aff, None))
            if self.owner(I, st, a) is not N:
                self.viol(I, st, "item-affinity", "a queue item carries an affinity that is not its task's: %s" % show(a)[:90], ev.cx)
            return True
        if k == "call" and ev.path and ev.args:
            m = ev.path.split("::")[-1]
            if ev.path.startswith("async_priority_channel::Sender::") and m.startswith(("send", "try_send")):
                return self.send(I, st, ev)
            if ev.cx.depth is not None and m in ("push", "push_back", "insert", "extend", "append") and ev.path.startswith(("std::", "alloc::")):
                for x in ev.args[1:]:
                    for it in self.items(I.canon(st, x)):
                        base = peel(I.canon(st, ev.args[0]))
                        N = proj(it, ("f", R.i_id, None))
                        self.n["push"] += 1
                        if base.k == "CALL" and base.a[0] == "index":
                            if self.bits_ok(I, st, base.a[2][1], N, ev.cx):
                                st.auto = (pend | {self.lists(I, st, base)}, batch)
                        else:
                            self.viol(I, st, "queue-of-other-affinity", "a queue item is put aside in %s, which is not a list per runner type" % show(base)[:80], ev.cx)
            return True
        if k == "item" or k == "itemout" and ev.path == "item" and ev.val is not None and (batch is None or batch[2]):
            if ev.args[0].a[0].a[0] == "range":
                self.ranges[ev.cx.site] = ev.val
                if ev.val in self.bits:
                    return True
            b = self.batch(I, st, ev)
            if ev.args[0].a[0].a[0] == "range":
                for x in pend:
                    if self.walks(I, st, ev.args[0], x):
                        b = (x, ev.val, None)
            if b is not None and b[0] in pend:
                it = ev.args[0]
                bad = [s[0] for s in it.a[1] if s[0] not in ("enumerate", "map", "inspect", "peekable", "fuse", "rev", "zip", "filter", "filter_map")]
                if bad:
                    self.viol(I, st, "queue-lists-skipped", "the walk over the per-type lists leaves lists out (%s)" % bad[0], ev.cx)
                self.endbatch(I, st, ev.cx)
                st.auto = (st.auto[0], (b[0], b[1], False))
            return True
        if k == "step":
            if batch is not None and self.walks(I, st, ev.args[0], batch[0]):
                self.endbatch(I, st, ev.cx)
            return True
        if k == "iterend":
            if self.ranges.get(ev.cx.site) in self.bits:
                return True
            for x in list(st.auto[0]):
                if self.walks(I, st, ev.args[0], x):
                    self.endbatch(I, st, ev.cx)
                    st.auto = (st.auto[0] - {x}, None)
                    self.n["walk"] += 1
            return True
        if k == "yield" and ev.path == "await" and has(I.canon(st, ev.args[0]), lambda t: R.fieldname(t) == R.completed):
            self.boundary(I, st, ev.cx)
        return True

    def boundary(self, I, st, cx):
        self.endbatch(I, st, cx)
        if st.auto[0]:
            self.viol(I, st, "queue-lists-not-sent", "queue items are put on per-type lists that are not all walked and sent before the next event", cx)
        st.auto = (frozenset(), None)

    def lists(self, I, st, base):
        return I.canon(st, base.a[2][0])

    def walks(self, I, st, it, x):
        s = it.a[0]
        if s.a[0] == "range":
            hi = s.a[2] if len(s.a) > 2 else None
            return s.a[1] is C(0) and type(hi) is V and self.nlists(I, st, hi, x)
        if s.a[0] in ("val", "ref", "opq", "vec", "idxv", "idx"):
            if s.a[1] is x or type(s.a[1]) is V and I.canon(st, s.a[1]) is x:
                return True
        for stg in it.a[1]:
            if stg[0] == "zip" and len(stg) > 1 and type(stg[1]) is V and s.a[0] in ("idx", "idxv", "opq", "ref", "val") and self.isready(I, st, s.a[1]):
                z = stg[1]
                if z.k == "ITER" and not z.a[1]:
                    z = z.a[0].a[1]
                if I.canon(st, z) is x:
                    return True
        return has(it, lambda t: t is x) and s.a[0] == "opq"

    def isready(self, I, st, v):
        if v.k == "REF" and any(e[0] == "f" and e[1] == self.R.ready for e in v.a[1]):
            return True
        return has(I.canon(st, v), lambda t: self.R.fieldname(t) == self.R.ready)

    def nlists(self, I, st, hi, x):
        """hi is the number of lists x was made with, or its length"""
        hi = I.canon(st, hi)
        if hi.k == "CALL" and hi.a[0] == "len" and I.canon(st, hi.a[2][0]) is x:
            return True
        return x.k == "CALL" and x.a[0].endswith("from_elem") and x.a[2][1] is hi

    def batch(self, I, st, ev):
        """(lists, k) when the drawn element contains the list with index k"""
        v = ev.val
        for y in ([v] if v.k != "AGG" else [v] + list(v.a[4])):
            y = peel(I.canon(st, y))
            if y.k == "CALL" and y.a[0] == "index":
                return I.canon(st, y.a[2][0]), y.a[2][1], y
        return None

    def endbatch(self, I, st, cx):
        pend, batch = st.auto
        if batch is not None and batch[2] is False:
            empty = False
            for f in list(st.facts):
                for t in subterms(f):
                    if t.k == "CALL" and t.a[0] == "len":
                        y = peel(t.a[2][0])
                        if y.k == "CALL" and y.a[0] == "index" and y.a[2][1] is batch[1] and I.canon(st, y.a[2][0]) is batch[0] and st.ev(op("Eq", t, C(0))) is True:
                            empty = True
            if not empty:
                self.viol(I, st, "queue-list-not-sent", "a list of queue items that may not be empty is not sent to the ready queue of its runner type", cx)
        st.auto = (pend, None)

    def send(self, I, st, ev):
        R = self.R
        pend, batch = st.auto
        chan = ev.args[0]
        self.n["send"] += 1
        c = chan
        K = None
        for t in [c, I.placeof(st, c)] if c.k == "REF" else [c]:
            if t.k == "REF" and t.a[1] and t.a[1][-1][0] == "i" and len(t.a[1][-1]) > 1:
                K = t.a[1][-1][1]
            elif t.k in ("IDX",):
                K = t.a[1]
            elif t.k == "CALL" and t.a[0] == "index":
                K = t.a[2][1]
        v = I.canon(st, ev.args[1])
        its = self.items(v)
        if K is None or K == "*":
            self.viol(I, st, "send-queue-unknown", "queue items are sent on %s, which is not understood as the sender of one runner type" % show(c)[:80], ev.cx)
            return True
        if its:
            for it in its:
                self.bits_ok(I, st, K, proj(it, ("f", R.i_id, None)), ev.cx)
            return True
        src = v
        stages = ()
        if v.k == "ITER":
            stages = v.a[1]
            src = v.a[0].a[1]
        if type(src) is not V:
            src = v
        y = peel(I.canon(st, src))
        if y.k == "CALL" and y.a[0] == "elem":
            y = y.a[2][0]
        bad = [s[0] for s in stages if s[0] not in ("peekable", "map", "inspect", "fuse", "rev")]
        if bad:
            self.viol(I, st, "send-drops-items", "queue items are left out when a list is sent (%s)" % bad[0], ev.cx)
        if y.k == "CALL" and y.a[0] == "index":
            if y.a[2][1] is not K:
                self.viol(I, st, "send-other-queue", "the list of runner type %s is sent to the ready queue of runner type %s" % (show(y.a[2][1])[:60], show(K)[:60]), ev.cx)
            else:
                self.discharge("send:" + ev.cx.body.df.npath, "the list with index k is sent to the k-th queue")
                if batch is not None and batch[1] is K:
                    st.auto = (pend, (batch[0], batch[1], True))
        else:
            self.viol(I, st, "send-unknown-items", "what is sent on a ready queue is not understood: %s" % show(y)[:90], ev.cx)
        return True


class Local(Base):
    """the local loops' queue number and how the child's stdio is set up"""
    opaque = ("ReadyTrackerClient::recv", "wait_with_output", "ReadyTrackerClient::send_started", "ReadyTrackerClient::send_finished",
              "Cmd::call_preamble", "CancellationToken::soft_cancelled")

    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.R = R
        self.pairs = set()
        self.odd = set()

    def init(self):
        return None

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.path == self.R.recv.df.npath:
            v = st.ev(I.canon(st, ev.args[1]))
            st.auto = v if type(v) is int else None
            if st.auto is None:
                x = I.canon(st, ev.args[1])
                st.auto = x.a[0] if x.k == "C" else None
            if st.auto is None:
                self.viol(I, st, "local-queue-number", "the local loop asks for work with a runner type that is not a constant", ev.cx)
        if ev.kind == "call" and ev.path and ev.path.endswith("Command::stdout") and st.auto is not None:
            x = I.canon(st, ev.args[1])
            kind = "inherit" if iscall(x, "Stdio::inherit") else "piped" if iscall(x, "Stdio::piped") else show(x)[:40]
            self.pairs.add((st.auto, kind))
            want = {0: "piped", 1: "inherit"}.get(st.auto)
            if want != kind:
                self.viol(I, st, "local-queue-stdio", "a local loop that takes work of runner type %s runs it with stdout=%s" % (st.auto, kind), ev.cx)
        return True


class RecvQueue(Base):
    def __init__(self, prog, rep, R):
        super().__init__(prog, rep)
        self.R = R
        self.n = 0

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.path.startswith("async_priority_channel::Receiver::") and ev.path.split("::")[-1] in ("recv", "try_recv", "recvv"):
            b = ev.args[0]
            p = I.placeof(st, b) if b.k == "REF" else b
            x = I.canon(st, b)
            self.n += 1
            idx = None
            for t in (x, p, b):
                if t.k == "CALL" and t.a[0] == "index":
                    idx = t.a[2][1]
                elif t.k == "IDX" and t.a[1] != "*":
                    idx = t.a[1]
                elif t.k == "REF" and t.a[1] and t.a[1][-1][0] == "i" and len(t.a[1][-1]) > 1:
                    idx = t.a[1][-1][1]
                if idx is not None:
                    break
            i = idx
            if i is None or not (i.k == "SYM" and "runnertypeid" in show(i) or has(i, lambda t: t.k == "SYM")) or i.k not in ("SYM", "FLD", "DEREF"):
                self.viol(I, st, "recv-other-queue", "work for a runner is taken from queue %s, not from the queue of the runner type it asked with" % (show(idx)[:60] if idx is not None else show(x)[:60]), ev.cx)
            else:
                self.discharge("recv-queue", "taken from the receiver whose index is the argument")
        return True


def check(P, rep):
    R = Roles(P)
    a = Aff(P, rep, R)
    out = a.start(R.serve)
    for s, v in out:
        if not (v.k == "AGG" and v.a[2] == "Err"):
            a.boundary(a.I, s, a.I.rootcx(R.serve, 0))
    rep.take(a.I, a)
    run_gate(P, rep, R, {"ready-task-not-offered", "ready-task-dropped"})
    rep.floor("queue items put on lists", a.n["push"] + a.n["send"], 2)
    rep.floor("sends", a.n["send"], 1)
    # senders and receivers
    n, res = server_values(P, rep, R)
    k = 0
    for s, sv, cv in res:
        rd = proj(sv, ("f", R.ready, None))
        rx = proj(cv, ("f", R.receivers, None))
        rd = rd.a[4][0] if rd.k == "AGG" and rd.a[2] == "Some" else rd
        if rd.k != "COLL" or rx.k != "COLL":
            rep.viol("pairing", "the ready-queue senders and receivers are not understood: %s / %s" % (show(rd)[:60], show(rx)[:60]), loc(R.new))
            continue
        for (x, _), (y, _) in zip(rd.a[1], rx.a[1]):
            k += 1
            good = len(rd.a[1]) == len(rx.a[1]) == 1 and x.k == "FLD" and y.k == "FLD" and x.a[0] is y.a[0] and (x.a[1], y.a[1]) == ("0", "1") and iscall(x.a[0], "async_priority_channel::unbounded", "async_priority_channel::bounded")
            rep.need(good, "pairing", "the i-th sender and the i-th receiver come from the same channel creation", loc(R.new))
    rep.floor("paired queues", k, 1)
    for b, sp, p, t in scan.calls(P, lambda p: p.split("::")[-1] in ("reverse", "swap", "rotate_left", "rotate_right", "sort_by", "swap_remove", "shuffle", "remove", "insert") and p.startswith(("core::slice", "std::vec", "std::slice", "alloc"))):
        if b.key.startswith(R.new.key):
            rep.viol("pairing-reordered", "the ready-queue senders or receivers are reordered", "%s:%d" % (sp[0], sp[1]))
    q = RecvQueue(P, rep, R)
    q.start(R.recv)
    rep.take(q.I, q)
    rep.floor("queue receives", q.n, 1)
    l = Local(P, rep, R)
    l.start(P.fn("run_local_process_loop", "execgraph"))
    rep.take(l.I, l)
    for w in ((0, "piped"), (1, "inherit")):
        rep.need(w in l.pairs, "local-type-%d" % w[0], "a local loop serves runner type %d with stdio %s" % w)
