"""C07: the per-queue counters shown to provisioners."""
from ledger import *
RULE = ("Service loop, drain and dispatch function, every path: the counters of a queue are keyed by the affinity of the task concerned; num_ready goes up "
        "once per task put on the queues; the dispatch function takes one off num_ready, without going below zero, and adds one to num_inflight exactly once for the item it hands out and "
        "changes nothing otherwise; num_inflight goes down once per Finished event. Other changes only set num_ready to zero.")
ASSUME = []
KEYS = {"queue-counter-step", "queue-inflight-other", "queue-inflight-missing", "num-ready-missing", "num-ready-twice", "started-counted", "drain-rest:infl", "num_ready-up", "num_inflight-down"}


class RecvCount(Claim):
    # auto: None | (received value, rmw, frozenset of counters moved)
    def __init__(self, prog, rep, R):
        super().__init__(prog, rep, R)
        self.m = {}

    def on(self, I, st, ev):
        R = self.R
        k = ev.kind
        if k == "yield" and ev.path == "await" or k == "call" and ev.path in self.QRECV:
            if st.auto is not None:
                self.none(I, st, ev.cx)
                st.auto = None
            return True
        if k == "await" and self.queue(ev.val) or k == "ret" and ev.path == self.QRECV[1] and self.queue(ev.val):
            st.auto = (ev.val, None, frozenset())
            return True
        if k == "ret" and st.auto is not None and ev.path and "Atomic" in ev.path and ev.val is not None and ev.path.split("::")[-1] in self.RMW:
            f = I.canon(st, ev.args[0])
            if R.fieldname(f) == R.i_taken and has(f, lambda t: t is st.auto[0]):
                st.auto = (st.auto[0], ev.val, st.auto[2])
            return True
        if k == "write":
            root, path = ev.args
            names = [e[1] for e in path if e[0] == "f"]
            if names[-1:] and names[-1] in ("num_ready", "num_inflight"):
                self.counter(I, st, ev, root, names[-1])
        return True

    def counter(self, I, st, ev, root, f):
        R = self.R
        old, new = ev.extra, ev.val
        key = None
        for x in subterms(root):
            if x.k == "CALL" and x.a[0].split("::")[-1] in ("get_mut", "entry", "map.get", "get", "alter") and len(x.a[2]) >= 2 and R.fieldname(x.a[2][0]) == "queuestate":
                key = x.a[2][1]
        if st.auto is None:
            self.viol(I, st, "recv-counter-no-item", "%s changes although no item was taken" % f, ev.cx)
            return
        key = peel(I.canon(st, key)) if key is not None else None
        own = key is not None and has(key, lambda t: t.k == "FLD" and t.a[1] == R.i_aff and has(t, lambda u: u is st.auto[0]))
        if not own:
            self.viol(I, st, "recv-counter-queue", "%s of queue %s changes, not of the queue of the item taken" % (f, show(key)[-80:] if key is not None else "?"), ev.cx)
        want = OPS_SUB if f == "num_ready" else OPS_ADD
        v = new
        if not (v.k == "OP" and v.a[0] in want and v.a[1] is old and v.a[2] is C(1)):
            self.viol(I, st, "recv-counter-step", "%s changes from %s to %s" % (f, show(old)[-40:], show(new)[-60:]), ev.cx)
        elif f == "num_ready" and v.a[0] not in ("SatSub",) and st.ev(op("Eq", old, C(0))) is not False and st.ev(op("Gt", old, C(0))) is not True:
            self.viol(I, st, "recv-ready-underflow", "num_ready goes down by one on a path where it may be zero (a shutdown sets it to zero while items are still queued): the counter wraps around", ev.cx)
        else:
            self.discharge("recv-" + f, "one step, keyed by the item's affinity")
        if self.won(st, st.auto[1]) is not True:
            self.viol(I, st, "recv-counter-unclaimed", "%s changes for an item whose claim flag this caller may not have won" % f, ev.cx)
        if f in st.auto[2]:
            self.viol(I, st, "recv-counter-twice", "%s changes twice for one item" % f, ev.cx)
        st.auto = (st.auto[0], st.auto[1], st.auto[2] | {f})

    def none(self, I, st, cx):
        if st.auto[2] and self.won(st, st.auto[1]) is True:
            self.viol(I, st, "recv-counter-not-handed-out", "queue counters are changed for an item that is not handed out", cx)

    def finish(self, I, out, body):
        for st, v in out:
            cx = I.rootcx(body, 0)
            if v.k == "AGG" and v.a[2] == "Ok":
                miss = {"num_ready", "num_inflight"} - (st.auto[2] if st.auto else frozenset())
                # a counter that was zero may be left alone
                if "num_ready" in miss and self.zero(st):
                    miss = miss - {"num_ready"}
                if miss:
                    self.viol(I, st, "recv-counter-missing", "a task is handed out without %s having been changed" % " and ".join(sorted(miss)), cx)
                else:
                    self.m["ok"] = self.m.get("ok", 0) + 1
            elif st.auto is not None and st.auto[2]:
                self.viol(I, st, "recv-counter-not-handed-out", "queue counters are changed although an error is returned", cx)
        self.rep.take(I, self)

    def zero(self, st):
        for k, f in st.facts.items():
            if has(k, lambda t: t.k == "FLD" and t.a[1] == "num_ready"):
                for t in subterms(k):
                    if t.k == "FLD" and t.a[1] == "num_ready" and st.ev(op("Eq", t, C(0))) is True or t.k == "FLD" and t.a[1] == "num_ready" and st.ev(op("Gt", t, C(0))) is False:
                        return True
        return False


def check(P, rep):
    R = Roles(P)
    a = run_ledger(P, rep, R, KEYS, "count")
    c = RecvCount(P, rep, R)
    out = c.start(R.recv)
    c.finish(c.I, out, R.recv)
    rep.floor("items handed out", c.m.get("ok", 0), 1)
    rep.floor("num_ready up", a[0].seen.get("num_ready up", 0), 1)
    rep.floor("finished handled", a[0].seen.get("finished handled", 0), 1)
    snap = [x for x in local_adts(P) if {f["name"] for f in x["variants"][0]["fields"]} >= {"num_ready", "num_inflight"} and x["def"].npath.endswith("::Snapshot")]
    rep.need(len(snap) == 1, "snapshot-type", "the type of the queue counters")
    if snap:
        outside(P, rep, R, a[0].I.seen_bodies | a[1].I.seen_bodies | c.I.seen_bodies, "analysed", scan.field_writers(P, snap[0]["def"].npath, {"num_ready", "num_inflight"}), "queue-counter-writers", "a queue counter is changed in %s")
