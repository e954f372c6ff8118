"""C37: what a process did, from its exit to the event that the scheduler handles, is passed on unchanged and under its own task."""
from servicer import *
import c22
RULE = ("wait_with_output: the result's status, stdout, stderr and fd3bytes are what waiting for the child gave and what reading its stdout, its stderr and the descriptor-3 pipe to the end put into their buffers (empty if the child has no such stream). ChildOutput::code: the exit code, or the negated signal if there is none; stdout_str, stderr_str: from their own bytes. "
        "fd3_values: one map for each line of fd3bytes, in order, that shell_words can split, and none for another; in it, for each word with a '=', the part before the first '=' with the part after it; no other word. "
        "local runner: the event it sends after waiting is built from that output (status, stdout, stderr, values) or, if waiting failed, a failure with a nonzero code; every event it sends is under the task it received last. Remote runner: so is the request to /end (stderr may be prefixed), with the transaction of the task it was given; without an output the status is a nonzero constant. "
        "Server: the event of /end carries the request's status, stdout, stderr and values and the task that was removed under the request's transaction; the report of /begun carries the request's host and pid and the task stored under its transaction. ReadyTrackerClient::send_finished and send_started put exactly one event with what they were given into the channel.")
ASSUME = ["shell_words::split and str::lines", "the serialization of requests (C15)", "the two runners' processes and pipes are set up as C22 says"]
STREAMS = {"stdout": "stdout", "stderr": "stderr", "fd3bytes": "fd"}
CONV = ("to_string", "to_owned", "into_owned", "into", "clone", "from", "deref", "as_ref", "as_slice", "as_str", "borrow", "into_string", "as_bytes", "new", "by_ref", "as_mut")


def last(t):
    return t.a[0].split("::")[-1]


def strip(I, st, v, extra=()):
    """the value under conversions that keep it"""
    for _ in range(12):
        v = peel(v)
        if v.k == "REF":
            v = I.canon(st, st.load(v))
        elif v.k == "CALL" and last(v) in CONV + extra and v.a[2]:
            v = v.a[2][0]
        elif v.k == "VF" and v.a[1] in ("Owned", "Borrowed"):
            v = v.a[0]
        else:
            break
    return v


class Reads(Base):
    """wait_with_output. The contents of a buffer become a term that names the reader it was filled from."""

    def __init__(self, prog, rep, body):
        super().__init__(prog, rep)
        self.body = body
        self.n = {}

    def init(self):
        return ()

    def keepfact(self, st, k):
        return k.k == "DISCR"

    def part(self, st):
        return tuple(sorted((show(k), tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if k.k == "DISCR" and peel(k.a[0]).k == "FLD"))

    def on(self, I, st, ev):
        if ev.kind == "ret" and ev.path.split("::")[-1] in ("read_to_end", "read_buf", "read_to_string") and "AsyncRead" in ev.path:
            r, p = st.target(ev.args[1])
            old = I.canon(st, st.read(r, p))
            new = not any(t.k == "CALL" and t.a[0] in ("filled", "changed") for t in subterms(old)) and not (peel(old).k == "COLL" and peel(old).a[1])
            st.write(r, p, call("filled" if new else "changed", None, strip(I, st, ev.args[0]), mk("C", last2(ev.path))))
        elif ev.kind in ("call", "ret") and ev.path and ev.cx is not None:
            for a, ty in zip(ev.args, getattr(ev.cx, "atys", None) or ()):
                if type(a) is V and a.k == "REF" and ty is not None and ty.k in ("ref", "ptr") and ty.mut:
                    r, p = st.target(a)
                    x = peel(I.canon(st, st.read(r, p)))
                    if x.k == "CALL" and x.a[0] == "filled":
                        st.write(r, p, call("changed", None, x.a[2][0], mk("C", last2(ev.path))))
        return True


def last2(p):
    return p.split("::")[-1]


def source(v):
    """which of the child's streams a reader is"""
    for _ in range(10):
        v = peel(v)
        if v.k == "SYM":
            return v.a[0][6:] if v.a[0].startswith("param:") else None
        if v.k == "FLD" and str(v.a[1]) in ("stdout", "stderr"):
            return str(v.a[1])
        if v.k in ("VF", "UPD", "FLD"):
            v = v.a[0]
        elif v.k == "AGG" and len(v.a[4]) == 1:
            v = v.a[4][0]
        elif v.k == "CALL" and v.a[2]:
            v = v.a[2][-1] if last(v) == "with_capacity" else v.a[2][0]
        else:
            return None
    return None


def fieldmap(v):
    return dict(zip([str(x) for x in v.a[3]], v.a[4])) if v.k == "AGG" else {}


def check_reads(P, rep):
    b = P.fn("wait_with_output", "execgraph")
    types = {b.params[i]: str(getattr(b.locals[i + 1], "s", b.locals[i + 1])) for i in range(b.argc) if b.params[i]}
    pipe = [n for n, t in types.items() if "Pipe" in t]
    if len(pipe) != 1:
        raise AnchorError("the pipe parameter of wait_with_output")
    r = Reads(P, rep, b)
    n = 0
    for st, v in r.start(b):
        v = peel(r.I.canon(st, v))
        if v.k == "AGG" and v.a[2] == "Err":
            continue
        o = peel(r.I.canon(st, proj(v, ("v", "Ok"))))
        if o.k == "VF":
            o = peel(o.a[0])
        o = payload(v, "Ok")
        fs = fieldmap(o)
        if not {"status", "stdout", "stderr", "fd3bytes"} <= set(fs):
            rep.viol("output:shape", "wait_with_output returns %s" % show(o)[:80], loc(b))
            continue
        n += 1
        s = strip(r.I, st, fs["status"])
        ok = s.k == "VF" and s.a[1] == "Ok" and peel(s.a[0]).k == "CALL" and last(peel(s.a[0])) == "await" and last(peel(peel(s.a[0]).a[2][0])) == "wait"
        rep.need(ok, "output:status", "the status of a process is what waiting for it gave" if ok else "the status of a process is %s" % show(s)[:60], loc(b))
        for f, src in (("stdout", "stdout"), ("stderr", "stderr"), ("fd3bytes", pipe[0])):
            x = strip(r.I, st, fs[f])
            if x.k == "CALL" and x.a[0] == "filled":
                got = source(x.a[2][0])
                ok = got == src
                what = "the contents of %s" % got
            elif x.k == "CALL" and x.a[0] == "changed":
                ok = False
                what = "the contents of %s after %s" % (source(x.a[2][0]), x.a[2][1].a[0])
            else:
                none = any(k.k == "DISCR" and source(k.a[0]) == src and st.variants(k.a[0], OPT) == frozenset({"None"}) for k in st.facts)
                ok = x.k == "COLL" and not x.a[1] and none and f != "fd3bytes"
                what = show(x)[:50]
            rep.need(ok, "output:" + f, "%s of a process is the contents of its own stream" % f if ok else "%s of a process is %s" % (f, what), loc(b))
    rep.take(r.I, r)
    rep.floor("results of wait_with_output", n, 1)


class Plain(Base):
    opaque = ()

    def keepfact(self, st, k):
        return k.k == "DISCR"

    def part(self, st):
        return tuple(sorted((show(k), tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if k.k == "DISCR"))


def methods(P, ty):
    return {b.df.npath.split("::")[-1]: b for b in P.bodies.values() if b.kind == "fn" and b.key.startswith("execgraph::") and len(b.df.npath.split("::")) >= 2 and b.df.npath.split("::")[-2] == ty}


def check_code(P, rep, m):
    b = m["code"]
    r = Plain(P, rep)
    n = 0
    seen = set()
    for st, v in r.start(b):
        v = peel(r.I.canon(st, v))
        if not (v.k == "AGG" and v.a[2] == "Code"):
            rep.viol("code", "ChildOutput::code is %s" % show(v)[:50], loc(b))
            continue
        x = v.a[4][0]
        codes = {t for t in subterms(x) if t.k == "CALL" and last(t) in ("code", "into_raw", "signal", "stopped_signal", "core_dumped")}
        st_code = [k.a[0] for k in st.facts if k.k == "DISCR" and peel(k.a[0]).k == "CALL" and last(peel(k.a[0])) == "code"]
        present = {next(iter(st.variants(c, OPT))) for c in st_code if st.variants(c, OPT) and len(st.variants(c, OPT)) == 1}
        base = all(infield(t.a[2][0], "status") for t in codes)
        env = lambda nm, val: [(lambda t: t.k == "VF" and t.a[1] == "Some" and peel(t.a[0]).k == "CALL" and last(peel(t.a[0])) == nm, val)]
        if present == {"Some"}:
            ok = base and all(number(x, env("code", c)) == c for c in (0, 1, 2, 77, 130, 255))
            seen.add("code")
        elif present == {"None"}:
            ok = base and all(number(x, env("signal", c)) == -c for c in (1, 2, 9, 15))
            seen.add("signal")
        else:
            ok = False
        rep.need(ok, "code:" + "+".join(sorted(present)), "the exit status is %s" % ("the exit code, or the negated signal" if ok else show(x)[:60] + (" when the process has no exit code" if present == {"None"} else "")), loc(b))
    rep.take(r.I, r)
    rep.need(seen == {"code", "signal"}, "code:both", "both ways to end are told apart" if seen == {"code", "signal"} else "code() does not tell an exit code from a signal", loc(b))


def check_str(P, rep, m, fn, field):
    r = Plain(P, rep)
    for st, v in r.start(m[fn]):
        x = strip(r.I, st, r.I.canon(st, v), ("from_utf8_lossy", "into_boxed_str", "to_vec", "from_utf8_lossy_owned"))
        ok = x.k == "FLD" and str(x.a[1]) == field and peel(x.a[0]).k == "SYM"
        rep.need(ok, fn, "%s is made of %s" % (fn, field if ok else show(x)[:60]), loc(m[fn]))
    rep.take(r.I, r)


class Lines(Base):
    """auto: (line, maps made of it and kept, fields gone through to the end, word, entries of it, lines gone through, destination of entries)"""

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.n = {}

    def init(self):
        return (None, 0, None, None, 0, None)

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def keepfact(self, st, k):
        return k.k == "DISCR"

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if k.k == "DISCR")))

    def srcs(self, I, st, it):
        return list(itsources(I, st, it))

    def isline(self, I, st, it):
        s = self.srcs(I, st, it)
        return any(x.k == "CALL" and last(x) in ("lines", "split_terminator") and infield(x.a[2][0], "fd3bytes") for x in s) and not self.isword(I, st, it)

    def isword(self, I, st, it):
        return any(x.k == "CALL" and x.a[0].startswith("shell_words::split") for x in self.srcs(I, st, it))

    def good(self, it):
        bad = {x[0] for x in it.a[1]} - {"map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "enumerate", "inspect", "peekable", "fuse", "into_iter", "by_ref"}
        return not bad

    def splits(self, st, line):
        """Ok, Err or None: what splitting the line gave on this path"""
        for k in st.facts:
            if k.k == "DISCR":
                c = peel(k.a[0])
                if c.k == "CALL" and c.a[0].startswith("shell_words::split") and has(c, lambda t: t is line):
                    v = st.variants(c, RES)
                    if v is not None and len(v) == 1:
                        return next(iter(v))
        return None

    def found(self, st, word):
        for k in st.facts:
            if k.k == "DISCR":
                c = peel(k.a[0])
                if c.k == "CALL" and last(c) in ("find", "split_once", "position") and has(c, lambda t: t is word):
                    v = st.variants(c, OPT)
                    if v is not None and len(v) == 1:
                        return next(iter(v)) == "Some"
        return None

    def closeword(self, I, st, cx):
        line, kept, fin, word, used, lines = st.auto
        if word is None:
            return
        f = self.found(st, word)
        if used == 0 and f is not False:
            self.viol(I, st, "word:lost", "a word of a line of descriptor 3 is left out although it may have a '='", cx)
        elif used > 1:
            self.viol(I, st, "word:twice", "a word of a line of descriptor 3 is put into the map more than once", cx)
        else:
            self.see("word with" if used else "word without")
        st.auto = (line, kept, fin, None, 0, lines)

    def closeline(self, I, st, cx):
        line, kept, fin, word, used, lines = st.auto
        if line is None:
            return
        s = self.splits(st, line)
        if kept == 0 and s != "Err":
            self.viol(I, st, "line:lost", "a line of descriptor 3 is left out although it can be split", cx)
        elif kept > 1:
            self.viol(I, st, "line:twice", "a line of descriptor 3 gives more than one map", cx)
        else:
            self.see("line split" if kept else "line bad")
        st.auto = (None, 0, None, None, 0, lines)

    def on(self, I, st, ev):
        k = ev.kind
        if k in ("item", "step", "iterend", "itemdone"):
            it = ev.args[0]
            if self.isword(I, st, it):
                self.closeword(I, st, ev.cx)
                line, kept, fin, word, used, lines = st.auto
                if not self.good(it):
                    self.viol(I, st, "word:order", "the words of a line are not all gone through in order", ev.cx)
                if k == "item":
                    st.auto = (line, kept, None, ev.val, 0, lines)
                elif k == "iterend":
                    st.auto = (line, kept, "done", None, 0, lines)
            elif self.isline(I, st, it):
                if not self.good(it):
                    self.viol(I, st, "line:order", "the lines of descriptor 3 are not all gone through in order", ev.cx)
                self.closeline(I, st, ev.cx)
                lines = st.auto[5]
                if k == "item":
                    st.auto = (ev.val, 0, None, None, 0, lines)
                elif k == "iterend":
                    st.auto = (None, 0, None, None, 0, "done" if lines is None else "twice")
        elif k == "collect":
            v = peel(ev.val)
            line, kept, fin, word, used, lines = st.auto
            if word is not None:
                self.entry(I, st, v, ev.cx)
            elif line is not None and v.k == "COLL":
                if fin != "done":
                    self.viol(I, st, "line:early", "the map of a line is kept before all of its words are in it", ev.cx)
                if not all(x.k == "AGG" or True for x, _ in v.a[1]):
                    pass
                st.auto = (line, min(2, kept + 1), fin, word, used, lines)
        return True

    def entry(self, I, st, v, cx):
        line, kept, fin, word, used, lines = st.auto
        a = v.a[4] if v.k == "AGG" else ()
        if len(a) != 2:
            self.viol(I, st, "entry", "an entry %s" % show(v)[:60], cx)
            return
        key, val = (self.text(I, st, x) for x in a)
        ok = self.part_of(I, st, key, word, True) and self.part_of(I, st, val, word, False)
        if not ok:
            self.viol(I, st, "entry", "a word gives the entry (%s, %s), not what is before and after its first '='" % (show(key)[:50], show(val)[:50]), cx)
        st.auto = (line, kept, fin, word, min(2, used + 1), lines)

    def text(self, I, st, v):
        return strip(I, st, I.canon(st, v))

    def same(self, I, st, v, word):
        v = strip(I, st, v)
        w = strip(I, st, word)
        return v is w or has(v, lambda t: t is word) and v.k not in ("CALL", "VF") or v is peel(word) or peel(v) is peel(word)

    def eq(self, v):
        v = peel(v)
        return v.k == "C" and v.a[0] in (61, "=", "'='", '"="')

    def cut(self, v):
        """the parts of split_at as indexed by ranges; a range of a range as one"""
        v = peel(v)
        if v.k == "FLD" and str(v.a[1]) in ("0", "1") and peel(v.a[0]).k == "CALL" and last(peel(v.a[0])) == "split_at":
            c = peel(v.a[0])
            return (c.a[2][0], None, c.a[2][1]) if str(v.a[1]) == "0" else (c.a[2][0], c.a[2][1], None)
        if v.k == "CALL" and last(v) == "index" and len(v.a[2]) == 2:
            r = peel(v.a[2][1])
            if r.k == "AGG" and r.a[1] and r.a[1].split("::")[-1] in ("RangeTo", "Range", "RangeFrom"):
                f = fieldmap(r)
                b = self.cut(v.a[2][0])
                if b is not None and "end" not in f and b[2] is None:
                    return (b[0], mk("OP", "Add", b[1], f["start"]), None) if b[1] is not None else (b[0], f["start"], None)
                return v.a[2][0], f.get("start"), f.get("end")
        return None

    def part_of(self, I, st, v, word, before):
        if v.k == "FLD" and str(v.a[1]) == ("0" if before else "1") and self.cut(v) is None:
            c = peel(v.a[0])
            if c.k == "VF" and c.a[1] == "Some":
                c = peel(c.a[0])
                return c.k == "CALL" and last(c) == "split_once" and self.same(I, st, c.a[2][0], word) and self.eq(c.a[2][1])
            return False
        c = self.cut(v)
        if c is not None and self.same(I, st, c[0], word):
            if before and c[1] is not None and not (c[1].k == "C" and c[1].a[0] == 0) or before != (c[2] is not None):
                return False
            x = c[2] if before else c[1]
            pos = lambda t: t.k == "VF" and t.a[1] == "Some" and peel(t.a[0]).k == "CALL" and last(peel(t.a[0])) == "find" and self.same(I, st, peel(t.a[0]).a[2][0], word) and self.eq(peel(t.a[0]).a[2][1])
            return all(number(x, [(pos, i)]) == (i if before else i + 1) for i in (0, 1, 5))
        return False


def check_lines(P, rep, b):
    r = Lines(P, rep)
    n = 0
    for st, v in r.start(b):
        v = peel(r.I.canon(st, v))
        utf = [k.a[0] for k in st.facts if k.k == "DISCR" and peel(k.a[0]).k == "CALL" and last(peel(k.a[0])) == "from_utf8"]
        bad = any(st.variants(c, RES) == frozenset({"Err"}) for c in utf)
        n += 1
        if bad:
            rep.need(v.k == "COLL" and not v.a[1], "utf8", "bytes that are not UTF-8 give no values", loc(b))
        else:
            ok = st.auto[5] == "done" and v.k == "COLL"
            rep.need(ok, "lines", "all lines of descriptor 3 are gone through once" if ok else "the lines of descriptor 3 are not gone through exactly once (%s)" % show(v)[:40], loc(b))
    rep.take(r.I, r)
    for k in ("line split", "line bad", "word with", "word without"):
        rep.floor("fd3: " + k, r.n.get(k, 0), 1)


PARTS = ("ChildOutput::code", "ChildOutput::stdout_str", "ChildOutput::stderr_str", "ChildOutput::fd3_values", "ExitStatus::as_i32", "wait_with_output", "write_all_input", "soft_cancelled", "hard_cancelled",
         "ReadyTrackerClient::recv", "ReadyTrackerClient::send_started", "ReadyTrackerClient::send_finished", "Cmd::call_preamble") + c22.POSTCARD


def output(v):
    """the awaited wait_with_output that a value comes from"""
    return next((t for t in subterms(v) if t.k == "CALL" and last(t) == "await" and peel(t.a[2][0]).k == "CALL" and last(peel(t.a[2][0])) == "wait_with_output"), None)


class Reports(Base):
    """auto: (task received last, its process's awaited output or None, a deadline passed, the started process)"""
    opaque = PARTS

    def __init__(self, prog, rep, name, local):
        super().__init__(prog, rep)
        self.name = name
        self.local = local
        self.n = {}

    def init(self):
        return (None, None, False, None)

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def kept(self, k):
        if k.k == "DISCR" and peel(k.a[0]).k == "SYM" and peel(k.a[0]).a[0].startswith("param:"):
            return True
        if k.k == "DISCR" and peel(k.a[0]).k == "FLD" and str(peel(k.a[0]).a[1]) == "fd_input":
            return True
        if k.k == "DISCR" and peel(k.a[0]).k == "CALL" and last(peel(k.a[0])) in ("spawn", "fd_mappings", "spawn_with"):
            return True
        return k.k == "DISCR" and output(k) is not None and peel(k.a[0]).k == "CALL" and last(peel(k.a[0])) == "await"

    def keepfact(self, st, k):
        return self.kept(k)

    def part(self, st):
        return (st.auto, tuple(sorted((show(k), tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.kept(k))))

    def complain(self, I, st, key, msg, cx):
        self.viol(I, st, key + ":" + self.name, "%s: %s" % (self.name, msg), cx)

    def on(self, I, st, ev):
        k = ev.kind
        if k == "await" and ev.args:
            f = peel(ev.args[0])
            if iscall(f, "ReadyTrackerClient::recv"):
                st.auto = (ev.val, None, False, None)
            elif iscall(f, "wait_with_output"):
                st.auto = (st.auto[0], ev.val) + st.auto[2:]
            elif not self.local and f.k == "CALL" and last(f).startswith("sleep"):
                st.auto = st.auto[:2] + (True,) + st.auto[3:]
        elif k == "ret" and ev.path.endswith("Command::spawn"):
            st.auto = st.auto[:3] + (I.canon(st, ev.val),)
        elif k == "call" and self.local and ev.path.endswith("ReadyTrackerClient::send_started"):
            self.task(I, st, ev.args[1], ev.cx)
            pid = I.canon(st, ev.args[4]) if len(ev.args) > 4 else None
            p = None if pid is None else peel(pid)
            if p is not None and not (p.k == "C" and p.a[0] == 0) and not has(p, lambda t: t.k == "CALL" and last(t) == "id"):
                self.complain(I, st, "pid", "reports the pid %s" % show(p)[:40], ev.cx)
            self.see("started")
        elif k == "call" and self.local and ev.path.endswith("ReadyTrackerClient::send_finished"):
            v = peel(I.canon(st, ev.args[1]))
            fs = fieldmap(v)
            if "id" not in fs:
                self.complain(I, st, "event", "sends the event %s" % show(v)[:60], ev.cx)
                return True
            self.task(I, st, fs["id"], ev.cx)
            self.judge(I, st, fs, ev.cx)
        elif k == "agg" and not self.local and ev.val is not None and ev.val.k == "AGG" and ev.val.a[1] and ev.val.a[1].split("::")[-1] == "EndRequest":
            fs = fieldmap(ev.val)
            t = I.canon(st, fs["transaction_id"])
            if not infield(t, "transaction_id"):
                self.complain(I, st, "transaction", "reports the end of the transaction %s" % show(t)[:60], ev.cx)
            self.judge(I, st, fs, ev.cx)
        elif k == "agg" and not self.local and ev.val is not None and ev.val.k == "AGG" and ev.val.a[1] and ev.val.a[1].split("::")[-1] == "BegunRequest":
            fs = fieldmap(ev.val)
            t = I.canon(st, fs["transaction_id"])
            if not infield(t, "transaction_id"):
                self.complain(I, st, "transaction", "reports the start of the transaction %s" % show(t)[:60], ev.cx)
            p = peel(I.canon(st, fs["pid"]))
            if not (p.k == "C" and p.a[0] == 0) and not has(p, lambda t: t.k == "CALL" and last(t) == "id"):
                self.complain(I, st, "pid", "reports the pid %s" % show(p)[:40], ev.cx)
            self.see("started")
        return True

    def task(self, I, st, v, cx):
        v = peel(I.canon(st, v))
        cur = st.auto[0]
        if cur is None or not (v.k == "VF" and v.a[1] == "Ok" and peel(v.a[0]) is cur):
            self.complain(I, st, "task", "reports under the task %s, not under the one received last" % show(v)[:60], cx)

    def judge(self, I, st, fs, cx):
        out = st.auto[1]
        how = None if out is None else st.variants(out, RES)
        how = None if how is None or len(how) != 1 else next(iter(how))
        get = {k: strip(I, st, I.canon(st, fs[k])) for k in ("status", "stdout", "stderr", "values")}
        s = get["status"]
        if out is None or how == "Err":
            code = self.constant(s)
            if code is None or code == 0:
                self.complain(I, st, "status", "a task whose process %s is reported with the status %s" % ("was not waited for" if out is None else "could not be waited for", show(s)[:50]), cx)
            else:
                self.see("failure")
            return
        if how is None:
            self.complain(I, st, "result", "reports the end without having looked at whether the process could be waited for", cx)
            return
        from_ = lambda v, fn: v.k == "CALL" and v.a[0].endswith(fn) and self.mine(I, st, v.a[2][0], out)
        if s.k == "CALL" and s.a[0].endswith("as_i32"):
            s = strip(I, st, s.a[2][0])
        if not from_(s, "ChildOutput::code"):
            self.complain(I, st, "status", "the status that is reported is %s, not the one of the process" % show(s)[:60], cx)
        if not from_(get["stdout"], "ChildOutput::stdout_str"):
            self.complain(I, st, "stdout", "the stdout that is reported is %s, not the one of the process" % show(get["stdout"])[:60], cx)
        e = get["stderr"]
        if not from_(e, "ChildOutput::stderr_str") and (self.local or not any(from_(t, "ChildOutput::stderr_str") for t in subterms(I.canon(st, e)))):
            self.complain(I, st, "stderr", "the stderr that is reported is %s, not the one of the process" % show(e)[:60], cx)
        if not from_(get["values"], "ChildOutput::fd3_values"):
            self.complain(I, st, "values", "the values that are reported are %s, not the ones of the process" % show(get["values"])[:60], cx)
        self.see("result")

    def mine(self, I, st, v, out):
        v = strip(I, st, I.canon(st, v))
        return v.k == "VF" and v.a[1] == "Ok" and peel(v.a[0]) is out

    def constant(self, v):
        if v.k == "AGG" and v.a[2] == "Code":
            v = peel(v.a[4][0])
        elif v.k == "AGG" and v.a[2] in ("Cancelled", "Disconnected"):
            return -1
        n = number(v)
        return n


class Handler(Base):
    opaque = ("ReadyTrackerClient::send_finished", "ReadyTrackerClient::send_started", "start_request_impl", "ReadyTrackerClient::recv")

    def __init__(self, prog, rep, name, req):
        super().__init__(prog, rep)
        self.name = name
        self.req = req
        self.n = 0

    def part(self, st):
        return tuple(sorted((show(k), tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if k.k == "DISCR" and has(k, lambda t: t.k == "CALL" and last(t) in ("get_mut", "get", "remove", "remove_if"))))

    def complain(self, I, st, key, msg, cx):
        self.viol(I, st, key + ":" + self.name, "%s: %s" % (self.name, msg), cx)

    def stored(self, I, st, v, field):
        """the field of the entry of `connections` under the request's transaction"""
        v = strip(I, st, I.canon(st, v))
        if not (v.k == "FLD" and str(v.a[1]) == field):
            return False
        c = [t for t in subterms(v) if t.k == "CALL" and t.a[0].startswith("dashmap::") and last(t) in ("get_mut", "get", "remove", "remove_if")]
        return len(c) == 1 and infield(c[0].a[2][0], "connections") and self.ofreq(I, st, c[0].a[2][1], "transaction_id")

    def ofreq(self, I, st, v, field):
        v = strip(I, st, I.canon(st, v))
        return v.k == "FLD" and str(v.a[1]) == field and any(t.k == "SYM" and t.a[0] in self.req for t in subterms(v))

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.path.endswith("ReadyTrackerClient::send_finished"):
            fs = fieldmap(peel(I.canon(st, ev.args[1])))
            if "id" not in fs:
                return self.complain(I, st, "event", "sends %s" % show(I.canon(st, ev.args[1]))[:60], ev.cx) or True
            if not self.stored(I, st, fs["id"], "node_id"):
                self.complain(I, st, "task", "the end is reported for %s, not for the task removed under the request's transaction" % show(fs["id"])[:60], ev.cx)
            s = peel(I.canon(st, fs["status"]))
            if not (s.k == "AGG" and s.a[2] == "Code" and self.ofreq(I, st, s.a[4][0], "status")):
                self.complain(I, st, "status", "the status that is reported is %s, not the request's" % show(s)[:60], ev.cx)
            for f in ("stdout", "stderr", "values"):
                if not self.ofreq(I, st, fs[f], f):
                    self.complain(I, st, f, "the %s that is reported is %s, not the request's" % (f, show(I.canon(st, fs[f]))[:60]), ev.cx)
            self.n += 1
        elif ev.kind == "call" and ev.path.endswith("ReadyTrackerClient::send_started"):
            if not self.stored(I, st, ev.args[1], "node_id"):
                self.complain(I, st, "task", "the start is reported for %s, not for the task under the request's transaction" % show(I.canon(st, ev.args[1]))[:60], ev.cx)
            for i, f in ((3, "host"), (4, "pid")):
                if not self.ofreq(I, st, ev.args[i], f):
                    self.complain(I, st, f, "the %s that is reported is %s, not the request's" % (f, show(I.canon(st, ev.args[i]))[:60]), ev.cx)
            self.n += 1
        return True


class Sends(Base):
    def __init__(self, prog, rep, name):
        super().__init__(prog, rep)
        self.name = name

    def init(self):
        return ()

    def part(self, st):
        return st.auto

    def on(self, I, st, ev):
        if ev.kind == "await" and ev.args and peel(ev.args[0]).k == "CALL" and last(peel(ev.args[0])) == "send" or ev.kind == "ret" and ev.path.split("::")[-1] in ("try_send", "send_blocking", "force_send"):
            f = peel(ev.args[0]) if ev.kind == "await" else None
            v = f.a[2][1] if f is not None else ev.args[1]
            st.auto = st.auto + (I.canon(st, v),) if len(st.auto) < 2 else st.auto
        return True


def check_sends(P, rep, m, name, variant, want):
    b = m[name]
    r = Sends(P, rep, name)
    par = {b.params[i]: "param:" + b.params[i] for i in range(b.argc) if b.params[i]}
    n = 0
    for st, v in r.start(b):
        n += 1
        if len(st.auto) != 1:
            rep.viol("sends:" + name, "%s puts %s events into the channel on some path" % (name, len(st.auto) or "no"), loc(b))
            continue
        e = peel(st.auto[0])
        ok = e.k == "AGG" and e.a[2] == variant
        if ok:
            x = peel(e.a[4][0])
            if want is None:
                ok = x.k == "SYM" and x.a[0] == "param:" + (b.params[1] or "?")
            else:
                fs = fieldmap(x)
                for f, i in want.items():
                    y = strip(r.I, st, fs[f]) if f in fs else None
                    ok = ok and y is not None and y.k == "SYM" and y.a[0].startswith("param:") and y.a[1][1] == i
        rep.need(ok, "sends:" + name, "%s puts one event with what it was given into the channel" % name if ok else "%s puts %s into the channel" % (name, show(e)[:80]), loc(b))
    rep.take(r.I, r)
    rep.floor(name + " paths", n, 1)


def check(P, rep):
    check_reads(P, rep)
    m = methods(P, "ChildOutput")
    for x in ("code", "stdout_str", "stderr_str", "fd3_values"):
        if x not in m:
            raise AnchorError("ChildOutput::" + x)
    check_code(P, rep, m)
    check_str(P, rep, m, "stdout_str", "stdout")
    check_str(P, rep, m, "stderr_str", "stderr")
    check_lines(P, rep, m["fd3_values"])
    a = Reports(P, rep, "local runner", True)
    a.start(P.fn("run_local_process_loop", "execgraph"))
    for k, n in (("result", 1), ("failure", 2), ("started", 2)):
        rep.floor("local runner: " + k, a.n.get(k, 0), n)
    r = Reports(P, rep, "remote runner", False)
    r.start(P.fn("run_command", "execgraph_remote"))
    for k, n in (("result", 1), ("failure", 2), ("started", 2)):
        rep.floor("remote runner: " + k, r.n.get(k, 0), n)
    for fn in ("end_handler", "begun_handler"):
        b = P.fn(fn, "execgraph")
        req = {"param:%s" % (b.params[i] or "") for i in range(b.argc) if "Request" in str(getattr(b.locals[i + 1], "s", b.locals[i + 1]))}
        h = Handler(P, rep, fn, req)
        h.start(b)
        rep.floor(fn + " reports", h.n, 1)
    c = methods(P, "ReadyTrackerClient")
    check_sends(P, rep, c, "send_finished", "Finished", None)
    check_sends(P, rep, c, "send_started", "Started", {"id": 1, "host": 3, "pid": 4, "slurm_jobid": 5})
