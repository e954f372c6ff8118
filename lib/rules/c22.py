"""C22: how a task's process is started and read: nothing in it can make the runner and the process wait for each other."""
from servicer import *
RULE = ("Both runners, every path from receiving a task to the end of its process. The process is started with element 0 of the task's command line as program and the elements from 1 on as arguments, with no other change to environment or directory; stdin is null and stdout and stderr are captured (console queue: all three inherited); the local runner asks for it to be killed when it is dropped. "
        "Its descriptors are exactly: 3, the write end of a new pipe, and, exactly when the task has an fd_input, the one it names, the read end of another new pipe; these two ends, and not the runner's own, are made blocking before the start, and the runner drops its copies of both after the start and before it waits for anything of the process. "
        "Waiting for the process, reading stdout, stderr and the pipe of descriptor 3 to the end, and writing the whole fd_input all happen inside one join (none is awaited before or alone); the join ends only after each of them, or after an error of one; the input is flushed if it is buffered, and its pipe is dropped inside the join.")
ASSUME = ["futures::join and try_join4 poll all their futures", "tokio_command_fds maps the descriptors it is given, and only them", "descriptors of the runner are close-on-exec (std, tokio, tokio_pipe)"]
CMD = ("tokio::process::Command::", "std::process::Command::")
OTHER = ("arg0", "env", "envs", "env_clear", "env_remove", "current_dir", "uid", "gid", "process_group", "groups", "chroot")


def endof(v):
    """(pipe, 0 or 1) when v is an end of a pipe made by tokio_pipe::pipe"""
    v = peel(v)
    if v.k == "VF" and v.a[1] == "Some":
        v = peel(v.a[0])
    if v.k == "FLD" and str(v.a[1]) in ("0", "1"):
        b = peel(v.a[0])
        while b.k == "VF" or b.k == "CALL" and b.a[0].split("::")[-1] in ("map_err", "context", "unwrap", "expect"):
            b = peel(b.a[0] if b.k == "VF" else b.a[2][0])
        if b.k == "CALL" and b.a[0].startswith("tokio_pipe::pipe"):
            return (b, int(v.a[1]))
    return None


def ends(v, n=0):
    """the pipe ends that a value owns"""
    v = peel(v)
    e = endof(v)
    if e is not None:
        return {e}
    r = set()
    if n < 8:
        if v.k == "AGG" and v.a[0] != "closure":
            for x in v.a[4]:
                r |= ends(x, n + 1)
        elif v.k == "CALL" and v.a[0].split("::")[-1] in ("new", "with_capacity", "into_inner") and v.a[2]:
            r |= ends(v.a[2][-1], n + 1)
        elif v.k in ("VF",):
            r |= ends(v.a[0], n + 1)
    return r


def bits(v, env):
    v = peel(v)
    for t, x in env:
        if v is t:
            return x
    if v.k == "C" and type(v.a[0]) is int:
        return v.a[0]
    if v.k == "NOT":
        x = bits(v.a[0], env)
        return None if x is None else ~x
    if v.k == "OP":
        a, b = bits(v.a[1], env), bits(v.a[2], env)
        if a is None or b is None:
            return None
        return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "Sub": a - b, "Add": a + b}.get(v.a[0])
    return None


NONBLOCK = 2048


def apart(a, b):
    """the two places are different branches of one join"""
    for x, y in zip(a, b):
        if x != y:
            return x[0] == y[0]
    return False


class Child(Base):
    """auto: what has happened since the task was received, as a sorted tuple of (key, value)"""

    def __init__(self, prog, rep, name, opaque, local):
        super().__init__(prog, rep)
        self.name = name
        self.opaque = opaque
        self.local = local
        self.n = {}
        self.queue = None

    def init(self):
        return ()

    def keepfact(self, st, k):
        return self.kept(k) or any(peel(k.a[0]) is v for _, v, _ in self.get(st, "done", ())) if k.k == "DISCR" else False

    def kept(self, k):
        v = peel(k.a[0]) if k.k == "DISCR" else k
        return v.k == "FLD" and str(v.a[1]) == "fd_input" or v.k == "SYM" and v.a[0] == self.queue

    def part(self, st):
        done = tuple((k, tuple(sorted(st.variants(v, RES) or ()))) for k, v, _ in self.get(st, "done", ()))
        return (tuple(x for x in st.auto if x[0] != "done"), done, tuple(sorted((show(k), f[0], tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if self.kept(k))))

    def get(self, st, k, d=None):
        for a, b in st.auto:
            if a == k:
                return b
        return d

    def put(self, st, **kw):
        m = dict(st.auto)
        m.update(kw)
        st.auto = tuple(sorted(m.items(), key=lambda x: x[0]))

    def add(self, st, k, x):
        self.put(st, **{k: self.get(st, k, frozenset()) | {x}})

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def complain(self, I, st, key, msg, cx):
        self.viol(I, st, key + ":" + self.name, "%s: %s" % (self.name, msg), cx)

    # -------------------------------------------------------------- what a value is
    def role(self, st, v):
        """the part of the process that a reader, writer or handle stands for"""
        w = self.get(st, "fds")
        child = self.get(st, "child")
        f = None
        for _ in range(12):
            v = peel(v)
            e = endof(v)
            if e is not None:
                if w and e[0] is w[0][0]:
                    return "fd3" if e[1] != w[0][1] else "theirs"
                if w and w[1] and e[0] is w[1][0]:
                    return "input" if e[1] != w[1][1] else "theirs"
                return None
            if v is child:
                return f or "child"
            if v.k == "CALL" and v.a[0].split("::")[-1] in ("new", "with_capacity", "take", "as_mut", "by_ref", "unwrap", "expect", "as_ref", "map_err", "get_mut", "into_inner") and v.a[2]:
                v = v.a[2][-1] if v.a[0].split("::")[-1] == "with_capacity" else v.a[2][0]
            elif v.k in ("VF", "UPD", "OLD"):
                v = v.a[0]
            elif v.k == "FLD":
                if str(v.a[1]) in ("stdout", "stderr", "stdin"):
                    f = str(v.a[1])
                v = v.a[0]
            elif v.k == "AGG" and len(v.a[4]) == 1:
                v = v.a[4][0]
            else:
                return None
        return None

    def on(self, I, st, ev):
        k = ev.kind
        m = (ev.path or "").split("::")[-1]
        if k == "await" and self.local and ev.args and iscall(peel(ev.args[0]), "ReadyTrackerClient::recv"):
            st.auto = ()
        elif k == "ret" and ev.path == "tokio::process::Command::new" or k == "ret" and ev.path == "std::process::Command::new":
            self.put(st, prog=I.canon(st, ev.args[0]), cfg=())
        elif k == "call" and ev.path.startswith(CMD):
            if m == "spawn":
                self.spawn(I, st, ev)
            elif m in ("status", "output", "pre_exec", "arg") + OTHER:
                self.complain(I, st, "command", "the process is changed or started with Command::%s" % m, ev.cx)
            elif m not in ("new", "as_std", "as_std_mut", "get_program", "get_args", "get_envs", "get_current_dir", "into_std"):
                self.put(st, cfg=self.get(st, "cfg", ()) + ((m, I.canon(st, ev.args[1]) if len(ev.args) > 1 else None),))
        elif k == "call" and m in ("fd_mappings", "preserved_fds") and "ommand" in ev.path:
            self.put(st, cfg=self.get(st, "cfg", ()) + ((m, I.canon(st, ev.args[-1])),))
        elif k == "ret" and ev.path.startswith(CMD) and m == "spawn":
            self.put(st, child=peel(I.canon(st, ev.val)))
        elif k == "call" and m == "fcntl" and len(ev.args) == 3:
            fd, cmd, val = (peel(I.canon(st, x)) for x in ev.args)
            e = endof(fd.a[2][0]) if fd.k == "CALL" and fd.a[0].split("::")[-1] in ("as_raw_fd", "into_raw_fd") else None
            if e is None or cmd is not C(4):
                self.complain(I, st, "fcntl", "fcntl(%s, %s)" % (show(fd)[:40], show(cmd)[:20]), ev.cx)
                return True
            get = [t for t in subterms(val) if t.k == "CALL" and t.a[0].split("::")[-1] == "fcntl" and peel(t.a[2][0]) is fd and peel(t.a[2][1]) is C(3)]
            r = {bits(val, [(g, f) for g in get]) for f in (NONBLOCK | 1, NONBLOCK, 1)} if get else {0}
            r2 = {f: bits(val, [(g, f) for g in get]) for f in (NONBLOCK | 1, NONBLOCK, 1)}
            if all(x is not None and x == f & ~NONBLOCK for f, x in r2.items()) and get:
                self.add(st, "blocking", e)
            else:
                self.complain(I, st, "flags", "the flags of a pipe are set to %s: not its own without O_NONBLOCK" % show(val)[:60], ev.cx)
        elif k == "drop" and "Pipe" in str(ev.extra) and "&" not in str(ev.extra):
            for e in ends(ev.val):
                self.add(st, "dropped", e)
        elif k == "yield" and ev.path == "join":
            self.put(st, branch=self.get(st, "branch", ()) + ((ev.cx.site, -1),))
            if len(self.get(st, "branch")) == 1:
                self.put(st, done=())
                self.joined(I, st, ev, True)
        elif k == "branch":
            b = self.get(st, "branch")
            self.put(st, branch=b[:-1] + ((b[-1][0], ev.extra),))
        elif k == "joined":
            self.put(st, branch=self.get(st, "branch")[:-1])
            if not self.get(st, "branch"):
                self.joined(I, st, ev, False)
                st.auto = ()
        elif k == "await" and self.get(st, "child") is not None:
            self.leaf(I, st, ev)
        return True

    def leaf(self, I, st, ev):
        f = peel(I.canon(st, ev.args[0]))
        if f.k != "CALL" or iscall(f, *self.opaque):
            return
        m = f.a[0].split("::")[-1]
        if f.a[2]:
            own = self.role(st, f.a[2][0])
        else:
            own = None
        if own is None or m in ("send", "join", "join3", "join4", "try_join3", "try_join4", "try_join"):
            return
        if own == "theirs":
            self.complain(I, st, "theirs", "the runner uses the end of the pipe that is the process's (%s)" % m, ev.cx)
            return
        path = self.get(st, "branch", ())
        if not path:
            self.complain(I, st, "alone", "%s of the process's %s is awaited alone, while nothing reads or writes its other streams" % (m, own), ev.cx)
            return
        good = {"child": ("wait",), "stdout": ("read_to_end",), "stderr": ("read_to_end",), "fd3": ("read_to_end",), "input": ("write_all",)}
        if own == "input" and m in ("flush", "shutdown"):
            self.put(st, flushed=True)
            return
        if m not in good[own]:
            self.complain(I, st, "how:" + own, "the process's %s is used with %s" % (own, m), ev.cx)
            return
        if own == "input":
            B = self.get(st, "base")
            buf = peel(I.canon(st, f.a[2][1]))
            if B is None or not self.isinput(buf, B, 1):
                self.complain(I, st, "input", "what is written to the process is %s, not the task's input" % show(buf)[:60], ev.cx)
            w = peel(f.a[2][0])
            if endof(w) is None:
                self.put(st, buffered=True)
            if self.get(st, "wrote"):
                self.complain(I, st, "input", "the input is written twice", ev.cx)
            self.put(st, wrote=True)
        for k, _, p in self.get(st, "done", ()):
            if own != "child" and not apart(p, path):
                self.complain(I, st, "after:" + own, "%s is %s only after %s" % ("the process's " + own, "written" if own == "input" else "read", "the process has exited" if k == "child" else "its input is written" if k == "input" else "its %s has been read" % k), ev.cx)
        self.put(st, done=self.get(st, "done", ()) + ((own, ev.val, path),))

    def isinput(self, v, B, i):
        """v is field i of the payload of B.fd_input"""
        v = peel(v)
        while v.k == "CALL" and v.a[0].split("::")[-1] in ("deref", "as_slice", "as_ref", "index", "as_bytes", "borrow", "clone", "cloned") and not (v.a[0].endswith("index") and not fullrange(v.a[2][1])):
            v = peel(v.a[2][0])
        if v.k != "FLD" or str(v.a[1]) != str(i):
            return False
        v = peel(v.a[0])
        if v.k != "VF" or v.a[1] != "Some":
            return False
        v = peel(v.a[0])
        return v.k == "FLD" and str(v.a[1]) == "fd_input" and peel(v.a[0]) is B

    # -------------------------------------------------------------- the start
    def spawn(self, I, st, ev):
        p = self.get(st, "prog")
        cx = ev.cx
        if p is None:
            return self.complain(I, st, "command", "spawns a command that is not made on this path", cx)
        B, first = element(I, st, p)
        if B is None or first != 0:
            return self.complain(I, st, "program", "the program is %s, not the first element of the task's command line" % show(p)[:60], cx)
        if self.local and not has(B, lambda t: t.k == "CALL" and t.a[0] == "await"):
            self.complain(I, st, "task", "the command line is not that of the task received last", cx)
        cfg = {}
        for m, v in self.get(st, "cfg", ()):
            if m in ("args", "fd_mappings") and m in cfg:
                self.complain(I, st, "command", "%s is given twice" % m, cx)
            cfg[m] = v
        if "args" not in cfg or not restof(I, st, cfg["args"], B):
            self.complain(I, st, "args", "the arguments are %s, not all elements of the task's command line after the first, in order" % show(cfg["args"])[:80] if "args" in cfg else "none", cx)
        if self.local and cfg.get("kill_on_drop") is not TRUE:
            self.complain(I, st, "kill", "the process is not killed when the runner's handle of it is dropped", cx)
        console = None
        for k, f in st.facts.items():
            if k.k == "DISCR" and peel(k.a[0]).k == "SYM" and peel(k.a[0]).a[0] == self.queue:
                vs = st.variants(k.a[0], self.qpath)
                if vs is not None and len(vs) == 1:
                    console = "Console" in next(iter(vs))
        if self.queue is None:
            console = False
        if console is None:
            self.complain(I, st, "queue", "the start does not depend on the kind of the queue", cx)
        else:
            want = {"stdin": "inherit", "stdout": "inherit", "stderr": "inherit"} if console else {"stdin": "null", "stdout": "piped", "stderr": "piped"}
            for s, w in want.items():
                v = cfg.get(s)
                v = None if v is None else peel(v)
                got = "not set" if v is None else v.a[0].split("::")[-1] if v.k == "CALL" else show(v)[:30]
                if got != w and not (got == "not set" and w == "inherit"):
                    self.complain(I, st, "stdio:" + s, "%s of a task%s is %s, not %s" % (s, " of the console queue" if console else "", got, w), cx)
                self.see("stdio")
        # descriptors
        maps = cfg.get("fd_mappings")
        es = {}
        if maps is None or maps.k != "COLL":
            return self.complain(I, st, "descriptors", "the descriptors given to the process are %s" % ("not given" if maps is None else show(maps)[:60]), cx)
        for x, _ in maps.a[1]:
            x = peel(I.canon(st, x))
            fs = dict(zip([str(n) for n in x.a[3]], x.a[4])) if x.k == "AGG" else {}
            raw, cfd = fs.get("parent_fd"), fs.get("child_fd")
            raw = None if raw is None else peel(I.canon(st, raw))
            e = endof(raw.a[2][0]) if raw is not None and raw.k == "CALL" and raw.a[0].split("::")[-1] == "as_raw_fd" else None
            if e is None:
                return self.complain(I, st, "descriptors", "a descriptor of the process is %s, not an end of a new pipe" % (show(raw)[:50] if raw is not None else show(x)[:50]), cx)
            cfd = peel(I.canon(st, cfd))
            key = "3" if cfd is C(3) else "input" if self.isinput(cfd, B, 0) else show(cfd)[:40]
            if key in es:
                self.complain(I, st, "descriptors", "descriptor %s is given twice" % key, cx)
            es[key] = e
        opt = st.variants(mk("FLD", B, "fd_input"), OPT) if False else self.hasinput(st, B)
        want = {"3"} | ({"input"} if opt == "Some" else set())
        if opt is None:
            self.complain(I, st, "descriptors", "the descriptors do not depend on whether the task has an fd_input", cx)
        elif set(es) != want:
            self.complain(I, st, "descriptors", "the descriptors given to a task %s fd_input are: %s" % ("with" if opt == "Some" else "without", ", ".join(sorted(es)) or "none"), cx)
        if "3" not in es:
            return
        w, r2 = es["3"], es.get("input")
        if w[1] != 1 or r2 is not None and (r2[1] != 0 or r2[0] is w[0]):
            self.complain(I, st, "ends", "the process is given the wrong end of a pipe", cx)
        for e in (w, r2):
            if e is not None:
                if e not in self.get(st, "blocking", ()):
                    self.complain(I, st, "blocking", "the process inherits a nonblocking end of a pipe as %s" % ("descriptor 3" if e is w else "its input"), cx)
                if e in self.get(st, "dropped", ()):
                    self.complain(I, st, "closed", "the end of the pipe that the process is to have is closed before it is started", cx)
        for e in self.get(st, "blocking", ()):
            if e not in (w, r2):
                self.complain(I, st, "own", "the runner makes its own end of a pipe blocking", cx)
        self.put(st, fds=(w, r2), base=B, dropped=frozenset())
        self.see("start with input" if r2 else "start")

    def hasinput(self, st, B):
        for k, f in st.facts.items():
            if k.k == "DISCR":
                v = peel(k.a[0])
                if v.k == "FLD" and str(v.a[1]) == "fd_input" and peel(v.a[0]) is B:
                    r = st.variants(v, OPT)
                    if r is not None and len(r) == 1:
                        return next(iter(r))
        return None

    # -------------------------------------------------------------- the join
    def joined(self, I, st, ev, begin):
        w = self.get(st, "fds")
        if w is None:
            return
        if begin:
            for e, s in ((w[0], "descriptor 3"), (w[1], "the input")):
                if e is not None and e not in self.get(st, "dropped", ()):
                    self.complain(I, st, "held:" + s, "the runner still holds the process's end of %s while it waits for the process: the reader of that pipe never sees its end" % s, ev.cx)
            return
        done = self.get(st, "done", ())
        if not done:
            return self.complain(I, st, "nothing", "a join that waits for nothing of the process", ev.cx)
        failed = any(st.variants(v, RES) == frozenset({"Err"}) for _, v, _ in done)
        kinds = {k for k, _, _ in done}
        child = self.get(st, "child")
        for s in ("child", "stdout", "stderr", "fd3"):
            if s in kinds or failed:
                continue
            if s in ("stdout", "stderr") and self.absent(st, s, child):
                continue
            self.complain(I, st, "missed:" + s, "the wait for the process can end without having %s" % ("waited for its exit" if s == "child" else "read %s to the end" % ("descriptor 3" if s == "fd3" else s)), ev.cx)
        if w[1] is not None:
            mine = (w[1][0], 1 - w[1][1])
            if "input" not in kinds:
                self.complain(I, st, "unsent", "the input is not written while the process is waited for", ev.cx)
            elif mine not in self.get(st, "dropped", ()):
                self.complain(I, st, "open", "the runner does not close the input after it has written it: the process never sees its end", ev.cx)
            elif self.get(st, "buffered") and not self.get(st, "flushed") and not any(k == "input" and st.variants(v, RES) == frozenset({"Err"}) for k, v, _ in done):
                self.complain(I, st, "unflushed", "the input is buffered and not flushed", ev.cx)
        self.see("failed" if failed else "ended with input" if w[1] else "ended")

    def absent(self, st, s, child):
        for k, f in st.facts.items():
            if k.k == "DISCR":
                v = peel(k.a[0])
                if v.k == "FLD" and str(v.a[1]) == s and has(v, lambda t: t is child) and st.variants(v, OPT) == frozenset({"None"}):
                    return True
        return False


def fullrange(v):
    v = peel(v)
    return v.k == "AGG" and v.a[1] and v.a[1].endswith("RangeFull")


def cmdline(I, st, v):
    """the B of B.cmdline"""
    v = peel(v)
    n = 6
    while n and (v.k == "REF" or v.k == "CALL" and v.a[0].split("::")[-1] in ("deref", "as_slice", "as_ref", "borrow", "clone", "as_str", "as_os_str", "to_owned", "into_boxed_slice", "to_string", "new", "unwrap", "expect")):
        v = peel(I.canon(st, st.load(v)) if v.k == "REF" else v.a[2][0])
        n -= 1
    if v.k == "FLD" and str(v.a[1]) == "cmdline":
        return peel(v.a[0])
    return None


def element(I, st, v):
    """(B, i) when v is element i of B.cmdline"""
    v = peel(v)
    n = 6
    while n and v.k == "CALL" and v.a[0].split("::")[-1] in ("deref", "as_ref", "borrow", "clone", "as_str", "to_owned", "as_os_str"):
        v = peel(v.a[2][0])
        n -= 1
    if v.k == "VF" and v.a[1] == "Some":
        c = peel(v.a[0])
        if c.k == "CALL" and c.a[0].split("::")[-1] == "first":
            return cmdline(I, st, c.a[2][0]), 0
        if c.k == "CALL" and c.a[0].split("::")[-1] == "get" and peel(c.a[2][1]).k == "C":
            return cmdline(I, st, c.a[2][0]), peel(c.a[2][1]).a[0]
    if v.k == "FLD" and str(v.a[1]) == "0":
        c = peel(v.a[0])
        if c.k == "VF" and c.a[1] == "Some" and iscall(peel(c.a[0]), "split_first"):
            return cmdline(I, st, peel(c.a[0]).a[2][0]), 0
    if v.k == "CALL" and v.a[0].split("::")[-1] == "index" and peel(v.a[2][1]).k == "C":
        return cmdline(I, st, v.a[2][0]), peel(v.a[2][1]).a[0]
    return None, None


def restof(I, st, v, B):
    v = peel(v)
    if v.k == "ITER":
        stages = v.a[1]
        if v.a[0].k == "SRC" and len(stages) == 1 and stages[0][0] == "skip":
            return stages[0][1] is C(1) and any(cmdline(I, st, x) is B for x in itsources(I, st, v))
        if v.a[0].k == "SRC" and not stages:
            return any(restof(I, st, x, B) for x in itsources(I, st, v))
        return False
    if v.k == "FLD" and str(v.a[1]) == "1":
        c = peel(v.a[0])
        return c.k == "VF" and c.a[1] == "Some" and iscall(peel(c.a[0]), "split_first") and cmdline(I, st, peel(c.a[0]).a[2][0]) is B
    if v.k == "CALL" and v.a[0].split("::")[-1] in ("index", "get", "unwrap_or_default"):
        r = peel(v.a[2][1])
        return r.k == "AGG" and r.a[1] and r.a[1].endswith("RangeFrom") and peel(r.a[4][0]) is C(1) and cmdline(I, st, v.a[2][0]) is B
    if v.k == "CALL" and v.a[0].split("::")[-1] in ("skip",):
        return False
    return False


LOCAL = ("send_started", "send_finished", "send_unable_to_start", "soft_cancelled", "ReadyTrackerClient::recv", "Cmd::call_preamble", "to_event")
POSTCARD = ("RequestBuilderExt>::postcard", "ResponseExt>::postcard")
REMOTE = ("ChildOutput::code", "ChildOutput::stdout_str", "ChildOutput::stderr_str", "ChildOutput::fd3_values") + POSTCARD


def check(P, rep):
    a = Child(P, rep, "local runner", LOCAL, True)
    b = P.fn("run_local_process_loop", "execgraph")
    q = adt(P, "LocalQueueType")["def"].npath
    a.qpath = q
    a.queue = "param:" + next((p for p, t in zip(b.params, [b.locals[i + 1] for i in range(b.argc)]) if p and "LocalQueueType" in str(getattr(t, "s", t))), "?")
    a.start(b)
    for k, n in (("stdio", 6), ("start", 1), ("start with input", 1), ("ended", 1), ("ended with input", 1)):
        rep.floor("local runner: " + k, a.n.get(k, 0), n)
    r = Child(P, rep, "remote runner", REMOTE, False)
    r.start(P.fn("run_command", "execgraph_remote"))
    for k, n in (("stdio", 3), ("start", 1), ("start with input", 1), ("ended", 1), ("ended with input", 1)):
        rep.floor("remote runner: " + k, r.n.get(k, 0), n)
