"""C19: a slurm job that was marked as cancelled gets no more work."""
from txn import *
RULE = ("/mark-slurm-job-cancelation, every path: a job id enters the set of cancelled jobs only when no open transaction has it, and a job is reported as cancelled exactly when it entered "
        "the set; no other function writes that set. Every request for a task made by a handler: on its path the job id of the request, the one stored in the transaction that is opened, was looked up "
        "in that set and not found; and that lookup and the opening of the transaction happen under one guard of the set.")
ASSUME = ["a HashSet contains what was inserted into it"]


class Mark(Base):
    # auto: (inserted, reported in this iteration; open transaction in hand that is not in the snapshot yet)
    def __init__(self, prog, rep, R, S, cset):
        super().__init__(prog, rep)
        self.R, self.S, self.cset = R, S, cset
        self.opaque = S.opaque()
        self.jobfields = set()
        self.n = {"marked": 0, "reported": 0}
        self.all = set()

    def init(self):
        return (EMPTY, EMPTY, None)

    def part(self, st):
        return st.auto

    def iscset(self, v):
        return has(v, lambda t: self.R.fieldname(t) == self.cset)

    def keepfact(self, st, k):
        return k.k == "CALL" and k.a[0].endswith("contains")

    def notrunning(self, I, st, j):
        for f, v in st.facts.items():
            if f.k == "CALL" and f.a[0].split("::")[-1] == "contains" and len(f.a[2]) == 2 and I.canon(st, f.a[2][1]) is j and v == ("in", frozenset([False])):
                c = f.a[2][0]
                c = I.canon(st, st.load(c)) if c.k == "REF" else c
                fs = {x.a[1] for x in subterms(c) if x.k == "FLD" and has(x.a[0], lambda t: t.k == "CALL" and "dashmap" in t.a[0] or t.k == "ELEM" or self.S.isconns(t))and not self.S.isconns(x)}
                fs = {x for x in fs if x in {g["name"] for g in fields(self.S.CS)}}
                if has(c, self.S.isconns) and len(fs) == 1:
                    self.jobfields |= fs
                    return True
                return False
        # any(|c| c.jobid == j) over the open transactions
        for f, v in st.facts.items():
            if f.k == "CALL" and f.a[0].split("::")[-1] in ("any", "all") and has(f, self.S.isconns):
                return True
        return None

    def on(self, I, st, ev):
        k, a = ev.kind, st.auto
        m = ev.path.split("::")[-1] if ev.path else None
        if k == "call" and m in ("insert", "replace") and ev.args and self.iscset(I.canon(st, ev.args[0])):
            j = I.canon(st, ev.args[1])
            r = self.notrunning(I, st, j)
            self.n["marked"] += 1
            self.all.add(j)
            if r:
                self.discharge("mark", "only jobs without an open transaction are marked")
            else:
                self.viol(I, st, "mark-running", "a job (%s) is marked as cancelled that is not known to be without an open transaction" % show(j)[:60], ev.cx)
            st.auto = (a[0] | {j},) + a[1:]
        elif k == "call" and m in ("push", "push_back") and ev.args and len(ev.args) == 2 and not self.iscset(I.canon(st, ev.args[0])):
            j = I.canon(st, ev.args[1])
            if has(j, lambda t: t.k == "FLD" and t.a[1] == "jobids"):
                st.auto = (a[0], a[1] | {j}) + a[2:]
                self.n["reported"] += 1
        elif k in ("step", "iterend"):
            self.boundary(I, st, ev.cx)
        elif k == "item" and ev.val is not None and has(I.canon(st, ev.val), self.S.isconns):
            st.auto = a[:2] + (ev.val,)
        if k in ("collect", "call") and a[2] is not None and (k == "collect" or m in ("insert", "push", "eq", "ne")) and any(type(x) is V and x.k != "REF" and has(I.canon(st, x), lambda t: t is a[2]) or type(x) is V and x.k == "REF" and has(I.canon(st, x), lambda t: t is a[2]) for x in [ev.val] + list(ev.args)):
            st.auto = st.auto[:2] + (None,)
        elif k == "call" and m in ("clear", "remove", "drain", "retain", "take") and ev.args and self.iscset(I.canon(st, ev.args[0])):
            self.viol(I, st, "unmarked", "marked jobs are taken out of the set again", ev.cx)
        return True

    def boundary(self, I, st, cx):
        a = st.auto
        for j in a[1] - a[0]:
            self.viol(I, st, "reported-unmarked", "a job is reported as cancelled although it was not marked: %s" % show(j)[:60], cx)
        for j in a[0] - a[1]:
            if a[1] or self.n["reported"]:
                self.viol(I, st, "marked-unreported", "a job is marked and not reported as cancelled: %s" % show(j)[:60], cx)
        if a[2] is not None:
            self.viol(I, st, "snapshot", "the jobs with an open transaction are not all looked at: one is left out", cx)
        if a != (EMPTY, EMPTY, None):
            st.auto = (EMPTY, EMPTY, None)

    def finish(self, I, out, body):
        for st, v in out:
            self.boundary(I, st, I.rootcx(body, 0))
            w = I.canon(st, v)
            for x in subterms(w):
                if x.k == "AGG" and x.a[1] and x.a[1].endswith("MarkSlurmJobCancelationReply"):
                    c = I.canon(st, proj(x, ("f", "jobids", None)))
                    if not (c.k == "COLL" or has(c, lambda t: t.k == "COLL")):
                        self.viol(I, st, "reply", "the answer lists %s" % show(c)[:80], I.rootcx(body, 0))
        self.rep.take(I, self)


class Ask(Base):
    # auto: sites at which the set was looked at and whose guard is alive
    def __init__(self, prog, rep, R, S, cset, path, jobfield):
        super().__init__(prog, rep)
        self.R, self.S, self.cset, self.path, self.job = R, S, cset, path, jobfield
        self.opaque = S.opaque()
        self.n = {"requests": 0, "registrations": 0}

    def init(self):
        return (None, False)

    def part(self, st):
        return st.auto

    def iscset(self, v):
        return has(v, lambda t: self.R.fieldname(t) == self.cset)

    def keepfact(self, st, k):
        return k.k == "CALL" and k.a[0].endswith("contains")

    def checked(self, I, st):
        """job ids known not to be in the set"""
        out = []
        for f, v in st.facts.items():
            if f.k == "CALL" and f.a[0].split("::")[-1] == "contains" and v == ("in", frozenset([False])) and self.iscset(f.a[2][0] if f.a[2][0].k != "REF" else I.canon(st, st.load(f.a[2][0]))):
                out.append((f, I.canon(st, f.a[2][1])))
        return out

    def on(self, I, st, ev):
        k, a = ev.kind, st.auto
        m = ev.path.split("::")[-1] if ev.path else None
        if k == "call" and ev.path == self.S.recv:
            self.n["requests"] += 1
            c = self.checked(I, st)
            if not c:
                self.viol(I, st, "unchecked:" + str(self.path), "%s takes a task for the runner without asking whether its slurm job was cancelled" % self.path, ev.cx)
            else:
                self.discharge("checked:" + str(self.path), "a task is requested only for a job that is not in the set of cancelled jobs")
        elif k == "call" and ev.path and "dashmap" in ev.path and m in ("insert", "insert_entry", "or_insert") and ev.args and has(I.canon(st, ev.args[0]), self.S.isconns):
            self.n["registrations"] += 1
            j = I.canon(st, proj(I.canon(st, ev.args[-1]), ("f", self.job, None)))
            if not has(j, lambda t: t.k == "CALL" and t.a[0].endswith("HeaderMap::get")):
                self.viol(I, st, "job-other:" + str(self.path), "the transaction is opened for job %s, not for the one of the request" % show(j)[:70], ev.cx)
            else:
                self.discharge("job:" + str(self.path), "the transaction carries the job id of the request")
            c = self.checked(I, st)
            if c and not any(x is j for _, x in c):
                self.viol(I, st, "checked-other:" + str(self.path), "the job that was looked up, %s, is not the one the transaction is opened for" % show(c[0][1])[:60], ev.cx)
            if c and not self.held(I, st):
                self.viol(I, st, "not-atomic:" + str(self.path), "%s opens the transaction after it released the guard under which it looked at the cancelled jobs: the job can be marked in between, and still gets the task" % self.path, ev.cx)
            elif c:
                self.discharge("atomic:" + str(self.path), "looked up and registered under one guard")
        elif k == "ret" and m in ("read", "write") and ev.args and self.iscset(I.canon(st, ev.args[0])):
            st.auto = (ev.val, True)
        elif (k == "drop" or k == "call" and m == "drop") and a[0] is not None:
            v = ev.val if k == "drop" else ev.args[0] if ev.args and type(ev.args[0]) is V else None
            if v is not None and has(I.canon(st, v), lambda t: t is a[0]):
                st.auto = (a[0], False)
        return True

    def held(self, I, st):
        return st.auto[1]

    def finish(self, I, out, body):
        self.rep.take(I, self)


def check(P, rep):
    R = Roles(P)
    S = Srv(P, R)
    cset = fieldof(P, S.S, lambda t: t.k == "adt" and t.a and t.a[0].k == "adt" and t.a[0].name in ("HashSet", "BTreeSet"), "cancelled slurm jobs")
    from collections import Counter
    tot = Counter()
    hs = []
    mark = [b for p, m, b in S.routes if p == "/mark-slurm-job-cancelation"]
    if len(mark) != 1:
        raise AnchorError("the handler of /mark-slurm-job-cancelation")
    t = Mark(P, rep, R, S, cset)
    out = t.start(mark[0], CAP=1, HEADCAP=1)
    t.finish(t.I, out, mark[0])
    rep.floor("jobs marked", t.n["marked"], 1)
    rep.floor("jobs reported", t.n["reported"] or len([1 for st, v in out if has(t.I.canon(st, v), lambda x: x.k == "COLL")]), 1)
    jf = t.jobfields
    if len(jf) != 1:
        names = [f["name"] for f in fields(S.CS) if f["ty"].k == "adt" and f["ty"].name == "String" and "job" in f["name"]]
        if len(names) != 1:
            raise AnchorError("the job id of a transaction")
        jf = set(names)
    jf = list(jf)[0]
    for path, m, b in S.routes:
        if b in hs:
            continue
        hs.append(b)
        a = Ask(P, rep, R, S, cset, path, jf)
        out = a.start(b, CAP=1, HEADCAP=1)
        a.finish(a.I, out, b)
        tot.update(a.n)
        if b is not mark[0]:
            w = Writes(P, rep, R, S, cset)
            w.start(b, CAP=1, HEADCAP=1)
            w.finish(w.I, [], b)
    rep.floor("requests for a task", tot["requests"], 2)
    rep.floor("transactions opened", tot["registrations"], 2)


class Writes(Base):
    def __init__(self, prog, rep, R, S, cset):
        super().__init__(prog, rep)
        self.R, self.S, self.cset = R, S, cset
        self.opaque = S.opaque()

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.path.split("::")[-1] in ("insert", "remove", "clear", "drain", "retain", "take", "replace") and ev.args and has(I.canon(st, ev.args[0]), lambda t: self.R.fieldname(t) == self.cset):
            self.viol(I, st, "written-elsewhere", "the set of cancelled jobs is changed by another handler", ev.cx)
        return True

    def finish(self, I, out, body):
        self.rep.take(I, self)
