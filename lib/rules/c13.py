"""C13: a log file is opened by one run at a time, as a whole, and only when it fits."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c10 import *
RULE = ("Every constructor of LogFile, with the functions it calls inlined, on every path: a writable LogFile is built only when an exclusive lock was taken on a lock file whose path depends on the log's path only, "
        "the locked file is still the one at that path, the log itself is opened after that and without truncation, and the lock is kept in the LogFile; a read-only LogFile opens the log for reading only and takes no "
        "lock. All of the log is loaded from its start to its end; each header that is accepted has the current version and the workflow key of the headers before it. The file is cut only when its last line was found "
        "not to be an entry. Dropping a LogFile removes its lock file before the lock is released, and nothing when it has none.")
ASSUME = ["advisory_lock::try_lock(Exclusive) excludes other processes that lock the same file", "file systems keep inode numbers of open files unique"]


def chain(v):
    """OpenOptions: {option: value} and the path of an open() call"""
    o = {}
    v = peel(v.a[2][0])
    while v.k == "CALL":
        m = v.a[0].split("::")[-1]
        if m == "new" or m == "options":
            break
        if len(v.a[2]) > 1:
            o.setdefault(m, v.a[2][1])
        v = peel(v.a[2][0])
    return o


def isopen(v):
    return v.k == "CALL" and v.a[0].endswith("OpenOptions::open")


def deref(I, st, v):
    return I.canon(st, st.load(v) if v.k == "REF" else v)


class Ctor(Loaded):
    """auto[4]: (read since the last rewind, lines loaded)"""

    def __init__(self, prog, rep, N, P, version):
        super().__init__(prog, rep, N, P)
        self.version = version
        self.writable = self.readonly = 0
        self.hdrs = 0
        self.cuts = 0

    def init(self):
        return (None, (), (), False, 0)

    def keepfact(self, st, k):
        return super().keepfact(st, k) or has(k, lambda t: t.k == "CALL" and (t.a[0].split("::")[-1] in ("ino", "dev", "read_line", "seek") or "lock" in t.a[0].lower()))

    def check(self, I, st, cx, e, v, ops):
        if v != "Header":
            return
        self.hdrs += 1
        ver = [x for f, x in st.facts.items() if isfld(f, "version") and has(f, lambda t: t is e)]
        ok = any(x == ("in", frozenset([self.version])) for x in ver)
        if not ok:
            for f, x in st.facts.items():
                if f.k == "OP" and f.a[0] in ("Eq", "Ne") and any(type(t) is V and isfld(t, "version") and has(t, lambda y: y is e) for t in f.a[1:]) and any(type(t) is V and t.k == "C" and t.a[0] == self.version for t in f.a[1:]) and x == ("in", frozenset([f.a[0] == "Eq"])):
                    ok = True
        if not ok:
            self.viol(I, st, "version", "a log with a header of another version than %s is accepted" % self.version, cx)
        else:
            self.discharge("version", "a header is accepted only with version %s" % self.version)
        if st.auto[3]:
            ok = False
            for f, x in st.facts.items():
                if f.k == "OP" and f.a[0] in ("Eq", "Ne") and x == ("in", frozenset([f.a[0] == "Eq"])):
                    a, b = [peel(t) for t in f.a[1:3]]
                    k = [isfld(t, "workflow_key") and has(t, lambda y: y is e) for t in (a, b)]
                    if k[0] != k[1]:
                        ok = True
                    elif k[0] and a is b:
                        ok = False
            if not ok:
                self.viol(I, st, "workflow-key", "a later header with another workflow key than the ones before it is accepted", cx)
            else:
                self.discharge("workflow-key", "a later header is accepted only with the workflow key of an earlier one")

    def boundary(self, I, st, cx, extra=""):
        b = st.auto
        # the flag of a header seen is set after this header was checked
        e, ops, w, hd = b[:4]
        if e is not None:
            vs = st.variants(e, self.N.epath)
            vs = set(vs) if vs is not None else set(self.N.vars)
            for v in sorted(vs):
                self.seen[v] = self.seen.get(v, 0) + 1
                self.check(I, st, cx, e, v, ops)
            st.auto = (None, (), (), hd or "Header" in vs) + b[4:]

    def wrongcut(self, n, reads):
        """a length computed from the lines read so far alone must count each of them but the last one"""
        if not 1 <= reads <= 3:
            return n.k == "C" and reads != 4
        leaves = []

        def walk(t):
            if t.k == "OP" and t.a[0].startswith("Add"):
                return walk(t.a[1]) and walk(t.a[2])
            if t.k == "FLD" and t.a[1] in ("0", 0) and t.a[0].k == "OP":
                return walk(t.a[0])
            if t.k == "C":
                return t.a[0] == 0
            if iscall(t, "len") or t.k == "OP" and t.a[0] == "Len" or "len(" == show(t)[:4]:
                leaves.append(t)
                return True
            return None
        r = walk(n)
        if r is None:
            return False
        return r is False or len(leaves) != reads - 1

    def on(self, I, st, ev):
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        tail = st.auto[4:]
        st.auto = st.auto[:4]
        r = Record.on(self, I, st, ev)
        st.auto = st.auto[:4] + tail
        if k == "call" and ev.path and ev.path.endswith("BufReader::new") and tail[0]:
            self.viol(I, st, "rewind", "the log is loaded from the position an earlier look at it left off at", ev.cx)
        elif k == "call" and "OpenOptions" not in ev.path and m in ("read_line", "read_until", "read_to_string", "read_to_end", "read", "read_exact", "lines"):
            st.auto = st.auto[:4] + (min(4, tail[0] + 1),)
        elif k == "call" and m in ("seek", "rewind"):
            to = I.canon(st, ev.args[1]) if len(ev.args) > 1 else None
            if m == "rewind" or to.k == "AGG" and to.a[2] == "Start" and number(to.a[4][0]) == 0:
                st.auto = st.auto[:4] + (0,)
            else:
                st.auto = st.auto[:4] + (4,)
        elif k == "call" and m == "set_len":
            self.cuts += 1
            n = I.canon(st, ev.args[1])
            bad = [f for f, x in st.facts.items() if f.k == "DISCR" and self.isentry(f.a[0]) and x == ("in", frozenset(["Err"]))]
            if not bad:
                self.viol(I, st, "cut", "the log is cut although its last line may be an entry", ev.cx)
            elif self.wrongcut(n, tail[0]):
                self.viol(I, st, "cut-all", "after %d complete line(s) the log is cut to a length of %s" % (tail[0] - 1, show(n)), ev.cx)
            else:
                self.discharge("cut", "only after the last line was found not to be an entry")
        elif k == "call" and ev.path and (ev.path.endswith("File::create") or ev.path.endswith("fs::write") or m in ("remove_file", "rename", "copy")):
            self.viol(I, st, "overwritten", "opening a log calls %s" % ev.path, ev.cx)
        elif k == "call" and ev.path and ev.path.endswith("OpenOptions::open"):
            self.opened(I, st, ev)
        if k in ("iterend", "step") and has(I.canon(st, ev.args[0]), lambda t: iscall(t, "lines")):
            self.ended = self.ended + ("lines",)
        if k == "agg" and ev.val.a[1] == self.N.file["def"].npath:
            self.built += 1
            self.boundary(I, st, ev.cx)
            self.build(I, st, ev)
        return r

    def locks(self, I, st):
        """files on which an exclusive lock is held on this path"""
        out = []
        for f, x in st.facts.items():
            if f.k == "DISCR" and x == ("in", frozenset(["Ok"])) and f.a[0].k == "CALL" and f.a[0].a[0].split("::")[-1] in ("try_lock", "lock", "adv_try_lock", "adv_lock", "try_lock_exclusive", "lock_exclusive"):
                c = f.a[0]
                a = c.a[2]
                if len(a) == 1 or any(y.k == "AGG" and y.a[2] == "Exclusive" for y in [I.canon(st, t) for t in a[1:]]):
                    out.append(a[0] if a[0].k != "REF" else I.canon(st, st.load(a[0])))
        return out

    def handle(self, v):
        """the open() call a file handle comes from"""
        r = [t for t in subterms(v) if isopen(t)]
        return r[0] if len(r) == 1 else None

    def opened(self, I, st, ev):
        o = I.canon(st, ev.args[0])
        opts = chain(mk("CALL", "open", (), (o,)))
        p = I.canon(st, deref(I, st, ev.args[1]))
        bad = [m for m in ("truncate", "create_new") if m in opts and not (opts[m].k == "C" and not opts[m].a[0])]
        own = p.k == "SYM" or peel(p).k == "SYM" or iscall(p, "as_ref", "to_path_buf", "clone")
        if own and bad:
            self.viol(I, st, "truncate", "the log is opened with %s" % bad[0], ev.cx)
        elif own:
            self.discharge("truncate", "the log is opened without truncation")
            wr = any(m in opts and not (opts[m].k == "C" and not opts[m].a[0]) for m in ("write", "append"))
            if wr and not self.locks(I, st):
                self.viol(I, st, "open-unlocked", "the log is opened for writing before the lock was taken", ev.cx)

    def build(self, I, st, ev):
        d = dict(zip(ev.val.a[3], ev.val.a[4]))
        lockf = [f["name"] for f in fields(self.N.file) if f["ty"].k == "adt" and f["ty"].name == "Option" and f["name"] != self.N.header]
        f = I.canon(st, d[self.N.f])
        l = I.canon(st, d[lockf[0]]) if lockf else None
        h = self.handle(f)
        if h is None:
            self.viol(I, st, "file", "a LogFile on %s" % show(f)[:60], ev.cx)
            return
        opts = chain(h)
        on = lambda m: m in opts and not (opts[m].k == "C" and not opts[m].a[0])
        # all of it was read
        eof = any(x == ("in", frozenset([0])) and has(y, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] == "read_line") for y, x in st.facts.items()) or "lines" in self.ended
        if not st.auto[4]:
            self.viol(I, st, "position", "the LogFile starts to write at the start of the log", ev.cx)
        elif not eof:
            self.viol(I, st, "eof", "loading the log stops before its end", ev.cx)
        else:
            self.discharge("eof", "the log is loaded up to its end, where writing goes on")
        if l is None or l.k == "AGG" and l.a[2] == "None":
            self.readonly += 1
            if any(on(m) for m in ("write", "append", "create", "truncate", "create_new")):
                self.viol(I, st, "unlocked", "a writable LogFile without a lock", ev.cx)
            elif self.locks(I, st):
                self.viol(I, st, "lock-lost", "the lock that was taken is not kept in the LogFile", ev.cx)
            else:
                self.discharge("read-only", "opened for reading only, no lock")
            return
        self.writable += 1
        if not (on("write") or on("append")) or not on("create"):
            self.viol(I, st, "options", "a LogFile with a lock is opened with %s" % sorted(opts), ev.cx)
        lk = self.handle(l)
        held = [self.handle(x) for x in self.locks(I, st)]
        if lk is None or lk not in held:
            self.viol(I, st, "unlocked", "a writable LogFile is built without an exclusive lock on the file it keeps as its lock", ev.cx)
            return
        self.discharge("locked", "an exclusive lock is held on the file kept in the LogFile")
        p = lk.a[2][1]
        p = I.canon(st, st.load(p) if p.k == "REF" else p)
        if [t for t in subterms(p) if t.k == "CALL" and not t.a[2]] or [t for t in subterms(p) if t.k == "SYM" and not str(t.a[0]).startswith("param:")] or not has(p, lambda t: t.k == "SYM"):
            self.viol(I, st, "lock-path", "the lock file's path, %s, is not a function of the log's path" % show(p)[:80], ev.cx)
        else:
            self.discharge("lock-path", "the path of the lock file depends on the path of the log only")
        same = False
        for y, x in st.facts.items():
            if y.k == "OP" and y.a[0] in ("Eq", "Ne") and x == ("in", frozenset([y.a[0] == "Eq"])):
                a, b = y.a[1:3]
                if all(has(t, lambda z: z.k == "CALL" and z.a[0].split("::")[-1] == "ino") for t in (a, b)):
                    op_ = [has(t, lambda z: z is lk) for t in (a, b)]
                    if op_[0] != op_[1]:
                        same = True
        if not same:
            self.viol(I, st, "lock-replaced", "the locked file may have been removed by the previous owner between opening and locking it", ev.cx)
        else:
            self.discharge("lock-replaced", "the locked file is the one at the path of the lock file")
        kept = [t for t in subterms(l) if t is p]
        if not kept:
            self.viol(I, st, "lock-remove", "the LogFile does not remember the path of its lock file", ev.cx)

    ended = ()


class Dropped(Base):
    """auto: (removed, released)"""

    def __init__(self, prog, rep, N):
        super().__init__(prog, rep)
        self.N = N
        self.n = 0

    def init(self):
        return (False,)

    def part(self, st):
        return st.auto + (self.some(st),)

    def some(self, st):
        for f, x in st.facts.items():
            if f.k == "DISCR" and x[0] == "in" and has(f.a[0], lambda t: t.k == "FLD" and t.a[1] == self.lockf):
                return tuple(sorted(map(str, x[1])))
        return None

    def keepfact(self, st, k):
        return k.k == "DISCR"

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path and ev.path.endswith("remove_file"):
            p = deref(I, st, ev.args[0])
            if not has(p, lambda t: t.k in ("FLD", "VF") and has(t, lambda y: y.k == "FLD" and y.a[1] == self.lockf)):
                self.viol(I, st, "removes", "dropping a LogFile removes %s" % show(p)[:60], ev.cx)
            else:
                self.n += 1
                st.auto = (True,)
                self.discharge("removes", "the lock file of this LogFile, while its lock is held")
        elif ev.kind == "write" and not st.auto[0] and any(x[0] == "f" and x[1] == self.lockf for x in ev.args[1] if x != "*"):
            self.viol(I, st, "released", "the lock is released before the lock file is removed", ev.cx)
        return True


def check(P, rep):
    N = Names10(P)
    N.lockf = [f["name"] for f in fields(N.file) if f["ty"].k == "adt" and f["ty"].name == "Option" and f["name"] != N.header][0]
    class H(Base):
        vals = set()

        def on(self, I, st, ev):
            if ev.kind == "agg" and ev.val.a[1] and ev.val.a[1].endswith("HeaderEntry"):
                d = dict(zip(ev.val.a[3], ev.val.a[4]))
                self.vals.add(number(I.canon(st, d["version"])))
            return True
    nh = 0
    for b, _ in builders(P, adt(P, "HeaderEntry")["def"].npath):
        if "::_::" in b.key or "visit_" in b.key:
            continue
        h = H(P, rep)
        h.start(b)
        nh += 1
    rep.floor("headers written", nh, 1)
    rep.need(len(H.vals) == 1 and None not in H.vals, "written-version", "every header is written with one version: %s" % sorted(map(str, H.vals)))
    version = list(H.vals)[0] if H.vals else None
    ctors = [b for b in P.bodies.values() if b.kind == "fn" and b.df.npath.startswith(N.file["def"].npath + "::") and any(x is b for x, _ in builders(P, N.file["def"].npath))]
    tot = [0, 0, 0]
    for b in sorted(ctors, key=lambda b: b.key):
        l = Ctor(P, rep, N, P, version)
        out = l.start(b, CAP=1, HEADCAP=1)
        for st, v in out:
            if set(st.variants(l.I.canon(st, v), RES) or ()) != {"Err"}:
                l.boundary(l.I, st, l.I.rootcx(b, 0))
        rep.take(l.I, l)
        tot = [tot[0] + l.writable, tot[1] + l.readonly, tot[2] + l.hdrs]
    rep.floor("writable LogFiles built", tot[0], 1)
    rep.floor("read-only LogFiles built", tot[1], 1)
    rep.floor("headers accepted", tot[2], 2)
    others = [b for b, _ in builders(P, N.file["def"].npath) if b not in ctors]
    for b in others:
        rep.viol("built-elsewhere", "a LogFile is built outside its constructors", loc(b))
    dr = [b for b in P.bodies.values() if b.kind == "fn" and b.df.npath.endswith("Drop>::drop") and "LogFile<" in b.df.npath]
    rep.floor("Drop of LogFile", len(dr), 1)
    for b in dr:
        d = Dropped(P, rep, N)
        d.lockf = N.lockf
        out = d.start(b, CAP=1, HEADCAP=1)
        for st, v in out:
            s = d.some(st)
            if not st.auto[0] and s != ("None",):
                d.viol(d.I, st, "kept", "a LogFile with a lock can be dropped without removing its lock file", d.I.rootcx(b, 0))
            elif not st.auto[0]:
                d.discharge("kept", "nothing is removed when there is no lock")
        rep.take(d.I, d)
        rep.floor("lock files removed", d.n, 1)
