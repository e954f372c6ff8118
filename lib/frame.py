"""What the rules share: reports, running the interpreter on a root, type-driven anchors."""
import time
from absint import Interp, Rule, TooBig, V, show, mk, State, proj, op, C, RES, OPT, TRUE, FALSE
from mir import AnchorError


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viols = {}
        self.obs = {}
        self.functions = set()
        self.visits = 0
        self.calls = 0
        self.roots = []
        self.counts = {}

    def viol(self, key, msg, at=None, path=None, trace=None):
        if key not in self.viols:
            self.viols[key] = {"key": key, "msg": msg, "at": at, "path": path or [], "trace": trace or []}

    def ob(self, key, what=""):
        """an obligation of the rule that was found to hold (instance text)"""
        self.obs.setdefault(key, what)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, least, why=""):
        """fail closed when fewer instances than known to exist were recognised"""
        self.counts[name] = n
        if n < least:
            self.viol("floor:" + name, "only %d instance(s) of '%s' were found, at least %d exist in the code the rule was "
                      "written for: %s" % (n, name, least, why or "the rule would hold vacuously"))
        else:
            self.ob("floor:" + name, "%d >= %d" % (n, least))

    def need(self, cond, key, msg, at=None):
        if cond:
            self.ob(key, msg)
        else:
            self.viol(key, msg, at)
        return cond

    def take(self, I, rule, root=None):
        for k, v in rule.viols.items():
            self.viol(k, v["msg"], v["at"], v["path"], v["trace"])
        for k, v in rule.obl.items():
            self.ob(k, v or "")
        self.functions |= I.seen_bodies
        self.visits += I.visits
        self.calls += I.ncalls
        if root:
            self.roots.append(root)


class Base(Rule):
    """A rule with the small conveniences most rules use."""

    def __init__(self, prog, rep):
        super().__init__()
        self.prog = prog
        self.rep = rep

    def start(self, body, **kw):
        I = Interp(self.prog, self)
        for k, v in kw.items():
            setattr(I, k, v)
        out = I.root(body)
        self.rep.take(I, self, body.df.path)
        self.I = I
        return out


    def detached(self, I, st, ev, auto=None):
        """analyse the coroutine handed to tokio::spawn (a "call" event) with the state at the spawn; its own effects stay separate"""
        s = st.copy()
        if auto is not None:
            s.auto = auto
        return I.await_(s, ev.args[0], ev.cx)


SPAWN = ("tokio::spawn", "tokio::task::spawn", "tokio::task::spawn_local", "tokio::task::JoinSet::spawn", "tokio::runtime::Handle::spawn", "tokio::runtime::Runtime::spawn")


def where(cx):
    return "%s:%d (in %s)" % (cx.span[0], cx.span[1], cx.body.df.path)


def loc(body):
    return "%s:%d (%s)" % (body.df.span[0], body.df.span[1], body.df.path) if body.df.span else body.df.path


# ------------------------------------------------------------------ term helpers
def subterms(v, seen=None):
    seen = set() if seen is None else seen
    work = [v]
    while work:
        x = work.pop()
        if type(x) is not V or x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if type(y) is V:
                work.append(y)
            elif type(y) is tuple or type(y) is frozenset:
                stack = list(y)
                while stack:
                    z = stack.pop()
                    if type(z) is V:
                        work.append(z)
                    elif type(z) is tuple or type(z) is frozenset:
                        stack.extend(z)


def has(v, pred):
    return any(pred(x) for x in subterms(v))


def calls_in(v, suffix):
    return [x for x in subterms(v) if x.k == "CALL" and (x.a[0] == suffix or x.a[0].endswith("::" + suffix))]


def iscall(v, *suffixes):
    return v.k == "CALL" and any(v.a[0] == s or v.a[0].endswith("::" + s) for s in suffixes)


def pathis(p, *suffixes):
    return p is not None and any(p == s or p.endswith("::" + s) for s in suffixes)


# ------------------------------------------------------------------ type-driven anchors
def local_adts(prog, crate="execgraph"):
    return [a for a in prog.adts.values() if a["crate"] == crate]


def adt(prog, name, crate="execgraph"):
    r = [a for k, a in prog.adts.items() if k.split("::")[-1] == name and a["crate"] == crate]
    if len(r) != 1:
        raise AnchorError("expected one type %s, found %d" % (name, len(r)))
    return r[0]


def fields(a, variant=0):
    return a["variants"][variant]["fields"]


def fieldof(prog, a, pred, what):
    r = [f["name"] for f in fields(a) if pred(f["ty"])]
    if len(r) != 1:
        raise AnchorError("expected one field (%s) in %s, found %s" % (what, a["def"].path, r))
    return r[0]


def peel(v):
    """the value under dereferences"""
    while type(v) is V and v.k == "DEREF":
        v = v.a[0]
    return v


# ------------------------------------------------------------------ constant arithmetic on terms
UNITS = {"from_secs": 10**9, "from_millis": 10**6, "from_micros": 10**3, "from_nanos": 1, "as_nanos": 1, "as_micros": 10**3, "as_millis": 10**6, "as_secs": 10**9}


def number(v, env=None, ns=False):
    """the number a term of constants stands for (durations in nanoseconds), or None"""
    from fractions import Fraction
    if env:
        for k, x in env:
            if k is v or callable(k) and k(v):
                return x
    v = peel(v)
    if env:
        for k, x in env:
            if k is v or callable(k) and k(v):
                return x
    if v.k == "C":
        return v.a[0] if type(v.a[0]) in (int, float, bool) else None
    if v.k == "CAST":
        x = number(v.a[1], env)
        t = v.a[0] if type(v.a[0]) is str else getattr(v.a[0], "s", None)
        if x is None:
            return None
        if t in ("u8", "u16", "u32", "u64", "usize", "u128"):
            bits = 64 if t == "usize" else int(t[1:])
            return int(x) % (1 << bits)
        if t in ("i8", "i16", "i32", "i64", "isize", "i128"):
            bits = 64 if t == "isize" else int(t[1:])
            x = int(x) % (1 << bits)
            return x - (1 << bits) if x >= 1 << (bits - 1) else x
        return Fraction(x)
    if v.k == "OP":
        a = [number(x, env) for x in v.a[1:3]]
        if any(x is None for x in a):
            return None
        o = v.a[0]
        try:
            return {"Add": lambda: a[0] + a[1], "Sub": lambda: a[0] - a[1], "Mul": lambda: a[0] * a[1], "Div": lambda: (a[0] // a[1] if type(a[0]) is int and type(a[1]) is int else Fraction(a[0]) / Fraction(a[1])),
                    "Rem": lambda: a[0] % a[1], "neg": lambda: -a[0], "BitXor": lambda: a[0] ^ a[1], "BitAnd": lambda: a[0] & a[1], "BitOr": lambda: a[0] | a[1], "Shl": lambda: a[0] << a[1], "Shr": lambda: a[0] >> a[1]}[o]()
        except (KeyError, ZeroDivisionError, TypeError):
            return None
    if v.k == "AGG" and v.a[1] and v.a[1].split("::")[-1] == "Duration" and len(v.a[4]) == 2:
        a = [number(x.a[4][0] if x.k == "AGG" and len(x.a[4]) == 1 else x, env) for x in v.a[4]]
        return None if None in a else a[0] * 10**9 + a[1]
    if v.k == "CALL":
        m = v.a[0].split("::")[-1]
        a = [number(x, env) for x in v.a[2]]
        if any(x is None for x in a):
            return None
        if m.startswith("from_") and m in UNITS and len(a) == 1:
            return a[0] * UNITS[m]
        if m.startswith("as_") and m in UNITS:
            return int(a[0]) // UNITS[m]
        if m in ("as_secs_f64", "as_secs_f32"):
            return Fraction(a[0], 10**9)
        if m in ("from_secs_f64", "from_secs_f32"):
            return int(Fraction(a[0]) * 10**9)
        if m in ("mul_f64", "mul_f32", "mul", "saturating_mul"):
            return a[0] * a[1]
        if m == "div":
            return a[0] // a[1]
        if m in ("add", "wrapping_add", "saturating_add"):
            return a[0] + a[1]
        if m in ("min", "max"):
            return min(a) if m == "min" else max(a)
    return None


def infield(v, f):
    """the term (or the place a reference in it points to) lies within a field of that name"""
    return has(v, lambda t: t.k == "FLD" and t.a[1] == f or t.k == "VF" and t.a[2] == f or t.k == "REF" and any(e[0] == "f" and e[1] == f for e in t.a[1]))


# ------------------------------------------------------------------ "every element exactly once"
def itsources(I, st, it):
    """all terms an iterator draws from"""
    for x in subterms(it):
        if x.k == "SRC":
            for y in x.a[1:]:
                if type(y) is V:
                    yield from subterms(I.canon(st, y))
                    if y.k == "REF":
                        yield from subterms(st.load(y))


KEEPS = {"map", "cloned", "copied", "enumerate", "inspect", "peekable", "fuse", "into_iter", "by_ref"}


def whole(it, ordered=True):
    """no stage of the iterator leaves elements out (or reorders them)"""
    return it.k == "ITER" and not {x[0] for x in it.a[1]} - (KEEPS if ordered else KEEPS | {"rev"})


class Each:
    """bookkeeping for one collection whose elements must each be used exactly once: (element under way, uses, all so far, complete)"""
    ZERO = (None, 0, True, None)

    @staticmethod
    def on(I, st, ev, e, mine):
        """the new record after an iteration event of a collection for which mine(it) holds"""
        cur, used, sofar, done = e
        if ev.kind == "item" and mine(ev.args[0]):
            return (ev.val, 0, sofar, done)
        if ev.kind in ("step", "iterend", "itemdone") and mine(ev.args[0]):
            if cur is not None:
                sofar = sofar and used == 1
            if ev.kind == "iterend":
                done = sofar and whole(ev.args[0]) and done is None
                sofar = True
            return (None, 0, sofar, done)
        return e

    @staticmethod
    def use(e, v):
        """the value v was consumed"""
        cur, used, sofar, done = e
        if cur is not None and has(v, lambda t: t is cur):
            return (cur, min(2, used + 1), sofar, done)
        return e


class Once:
    """like Each, where other loops over the same collection may leave its elements alone: (element, uses, loop so far, complete)
    loop so far: "" no element yet, "hit" each was used once, "miss" none was used, "bad"; complete: None, "empty", "done", "bad" """
    ZERO = (None, 0, "", None)

    @staticmethod
    def close(e):
        cur, used, sofar, done = e
        if cur is None:
            return e
        w = "hit" if used == 1 else "miss" if used == 0 else "bad"
        return (None, 0, w if sofar in ("", w) else "bad", done)

    @staticmethod
    def on(I, st, ev, e, mine, ordered=True):
        if ev.kind not in ("item", "step", "iterend", "itemdone") or not mine(ev.args[0]):
            return e
        if ev.kind == "item":
            e = Once.close(e)
            return (ev.val, 0, e[2], e[3])
        cur, used, sofar, done = e = Once.close(e)
        if ev.kind == "iterend":
            if sofar == "":
                done = done or "empty"
            elif sofar == "hit":
                done = "done" if whole(ev.args[0], ordered) and done in (None, "empty") else "bad"
            elif sofar == "bad":
                done = "bad"
            sofar = ""
        return (cur, used, sofar, done)

    @staticmethod
    def use(e, v):
        cur, used, sofar, done = e
        if cur is not None and has(v, lambda t, c=peel(cur): t is cur or t is c):
            return (cur, min(2, used + 1), sofar, done)
        return e

    @staticmethod
    def ok(e):
        return e[3] in ("empty", "done")


def truth(v, env):
    """v under an assignment env [(term or predicate, number)]: a number, a truth value, or None"""
    r = number(v, env)
    if r is not None:
        return r
    v = peel(v)
    if v.k == "NOT":
        a = truth(v.a[0], env)
        return None if a is None else not a
    if v.k == "OP":
        a = [truth(y, env) for y in v.a[1:3]]
        if len(a) == 2 and None not in a:
            o = v.a[0]
            f = {"Eq": lambda: a[0] == a[1], "Ne": lambda: a[0] != a[1], "Lt": lambda: a[0] < a[1], "Le": lambda: a[0] <= a[1], "Gt": lambda: a[0] > a[1], "Ge": lambda: a[0] >= a[1],
                 "BitAnd": lambda: bool(a[0]) and bool(a[1]), "BitOr": lambda: bool(a[0]) or bool(a[1])}.get(o)
            return f() if f else None
    if v.k == "CALL" and len(v.a[2]) == 1 and v.a[0].split("::")[-1] == "is_zero":
        a = truth(v.a[2][0], env)
        return None if a is None else a == 0
    if v.k == "CALL" and len(v.a[2]) == 2 and v.a[0].split("::")[-1] in ("cmp", "partial_cmp"):
        a = [truth(y, env) for y in v.a[2]]
        if None not in a:
            return (a[0] > a[1]) - (a[0] < a[1])
    return None


def possible(st, env):
    """the facts of the state allow the assignment"""
    for k, (mode, vals) in st.facts.items():
        if k.k not in ("OP", "NOT", "CALL", "SYM", "FLD", "VF"):
            continue
        b = truth(k, env)
        if b is None:
            continue
        hit = b in vals
        if hit != (mode == "in"):
            return False
    return True
