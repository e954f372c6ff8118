"""Abstract interpreter over the dumped MIR.

Domain: memory cells hold hash-consed value terms (provenance of a value: constants, aggregates,
parameters, results of calls, field projections, arithmetic), branch conditions add facts
(value -> set of possible constants / enum variants), and a rule adds an automaton state.  Abstract
states are propagated along the control-flow graph to a fixpoint: states that agree on the automaton
state are joined at loop heads and wherever more than CAP of them meet (differing cells become PHI terms,
facts are intersected), so every loop and every input is covered.  Crate-local calls, closures and
awaited coroutines are analysed in place (context-sensitively); other code is modelled by models.py
or by an opaque result.  Nothing is executed and no path condition goes to a solver.
"""
import heapq
from mir import AnchorError

EMPTY = frozenset()


class V:
    __slots__ = ("k", "a", "atoms", "_str")

    def __init__(self, k, a, atoms):
        self.k = k
        self.a = a
        self.atoms = atoms
        self._str = None

    def __repr__(self):
        return show(self)


TABLE = {}
ATOMK = {"SYM", "PHI"}


def mk(k, *a):
    key = (k,) + a
    v = TABLE.get(key)
    if v is not None:
        return v
    at = []
    for x in a:
        if type(x) is V:
            if x.atoms:
                at.append(x.atoms)
        elif type(x) is tuple:
            for y in x:
                if type(y) is V:
                    if y.atoms:
                        at.append(y.atoms)
                elif type(y) is tuple:
                    for z in y:
                        if type(z) is V and z.atoms:
                            at.append(z.atoms)
    if len(at) == 0:
        atoms = EMPTY
    elif len(at) == 1:
        atoms = at[0]
    else:
        atoms = frozenset().union(*at)
    v = V(k, a, atoms)
    if k in ATOMK or (k == "CALL" and a[1] is not None):
        v.atoms = atoms | {v}
    TABLE[key] = v
    return v


def C(x):
    if x is True or x is False:
        return mk("C", x, "b")
    if isinstance(x, int):
        return mk("C", x, "i")
    if isinstance(x, str):
        return mk("C", x, "s")
    if x is None:
        return mk("C", None, "u")
    return mk("C", str(x), "f")


UNIT = mk("AGG", "tuple", "", None, (), ())
TRUE = C(True)
FALSE = C(False)
MOVED = mk("MOVED")
UNINIT = mk("UNINIT")
BOTTOM = mk("BOTTOM")


def tup(*xs):
    return mk("AGG", "tuple", "", None, tuple(str(i) for i in range(len(xs))), tuple(xs))


def enum(name, variant, *fs):
    return mk("AGG", "enum", name, variant, tuple(str(i) for i in range(len(fs))), tuple(fs))


OPT = "std::option::Option"
RES = "std::result::Result"
POLL = "std::task::Poll"
CF = "std::ops::ControlFlow"


def some(v):
    return enum(OPT, "Some", v)


NONE = enum(OPT, "None")


def ok(v):
    return enum(RES, "Ok", v)


def err(v):
    return enum(RES, "Err", v)


def ready(v):
    return enum(POLL, "Ready", v)


def call(path, site, *args):
    return mk("CALL", path, site, tuple(args))


def isagg(v, variant=None):
    return v.k == "AGG" and (variant is None or v.a[2] == variant)


def idxkey(el):
    if el[0] == "i" and len(el) > 1:
        return el[1]
    if el[0] == "ci" and not el[2]:
        return C(el[1])
    return "*"


def proj(v, el):
    """project a path element out of a value"""
    k = v.k
    if k == "AGG":
        if el[0] == "v":
            if v.a[0] == "enum":
                return v if v.a[2] == el[1] else BOTTOM
            return v
        if el[0] == "f":
            names = v.a[3]
            if el[1] in names:
                return v.a[4][names.index(el[1])]
            i = el[2]
            if i is not None and i < len(v.a[4]):
                return v.a[4][i]
            return mk("FLD", v, el[1])
        if el[0] in ("i", "ci"):
            if el[0] == "ci" and v.a[0] == "array" and not el[2] and el[1] < len(v.a[4]):
                return v.a[4][el[1]]
            return mk("IDX", v, idxkey(el))
    if k == "UPD":
        for kk, vv in v.a[1]:
            if samepath(kk, el):
                return vv
        return proj(v.a[0], el)
    if k in ("BOTTOM", "MOVED", "UNINIT"):
        return v
    if el[0] == "v":
        return mk("DC", v, el[1])
    if el[0] == "f":
        if k == "DC":
            return mk("VF", v.a[0], v.a[1], el[1])
        if k in ("REF",) and el[1] in ("__pointer", "pointer", "0"):
            return v
        return mk("FLD", v, el[1])
    if el[0] in ("i", "ci", "ss"):
        return mk("IDX", v, idxkey(el))
    return mk("FLD", v, "?")


def samepath(a, b):
    return a[0] == b[0] and (len(a) < 2 or len(b) < 2 or a[1] == b[1])


def upd(base, path, v):
    if not path:
        return v
    el = path[0]
    if base.k == "AGG":
        if el[0] == "v":
            if base.a[0] != "enum" or base.a[2] == el[1]:
                return upd(base, path[1:], v)
        elif el[0] == "f":
            names = base.a[3]
            i = names.index(el[1]) if el[1] in names else el[2]
            if i is not None and i < len(base.a[4]):
                fs = list(base.a[4])
                fs[i] = upd(fs[i], path[1:], v)
                return mk("AGG", base.a[0], base.a[1], base.a[2], names, tuple(fs))
    if el[0] in ("i", "ci", "ss", "oc"):
        return base
    inner = proj(base, el)
    nv = upd(inner, path[1:], v)
    if nv is inner:
        return base
    if base.k == "UPD":
        items = tuple((kk, vv) for kk, vv in base.a[1] if not samepath(kk, el)) + ((el[:2] if el[0] == "v" else el, nv),)
        b = base.a[0]
    else:
        items = ((el, nv),)
        b = base
    items = tuple(sorted(items, key=lambda x: x[0][:2]))
    return mk("UPD", b, items)


NEGOP = {}


def op(o, a, b, unsigned=True):
    if o in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
        r = op(o[:3], a, b, unsigned)
        return tup(r, FALSE if r.k == "C" else mk("OP", "ovf" + o[:3], a, b))
    if o.endswith("Unchecked"):
        o = o[:-9]
    if a.k == "C" and b.k == "C" and a.a[1] in "ib" and b.a[1] in "ib":
        x, y = a.a[0], b.a[0]
        try:
            if o == "Add":
                return C(x + y)
            if o == "Sub":
                return C(x - y) if x >= y or not unsigned else mk("OP", o, a, b)
            if o == "Mul":
                return C(x * y)
            if o == "Div" and y:
                return C(x // y)
            if o == "Rem" and y:
                return C(x % y)
            if o == "BitAnd":
                return C(x & y)
            if o == "BitOr":
                return C(x | y)
            if o == "BitXor":
                return C(x ^ y)
            if o in ("Shl",):
                return C(x << y)
            if o == "Shr":
                return C(x >> y)
        except Exception:
            pass
    if o == "Ne":
        return neg(op("Eq", a, b, unsigned))
    if o == "Gt":
        return op("Lt", b, a, unsigned)
    if o == "Ge":
        return neg(op("Lt", a, b, unsigned))
    if o == "Le":
        return neg(op("Lt", b, a, unsigned))
    if o == "Eq":
        if a is b:
            return TRUE
        if a.k == "C" and b.k != "C":
            a, b = b, a
        if a.k == "C" and b.k == "C":
            return TRUE if a.a == b.a else FALSE
        if b is TRUE:
            return a
        if b is FALSE:
            return neg(a)
        if a.k == "AGG" and b.k == "AGG" and a.a[0] == "enum" and b.a[0] == "enum":
            if a.a[2] != b.a[2]:
                return FALSE
            if not a.a[4] and not b.a[4]:
                return TRUE
            if len(a.a[4]) == 1 and len(b.a[4]) == 1:
                return op("Eq", a.a[4][0], b.a[4][0])
        if a.k == "AGG" and a.a[0] == "enum" and not a.a[4]:
            a, b = b, a
        if b.k == "AGG" and b.a[0] == "enum" and not b.a[4] and a.k != "AGG":
            return mk("OP", "Eq", mk("DISCR", a, b.a[1]), C(b.a[2]))
        # (x - c) == 0  <=>  x == c ; (x + c) == k
        if b.k == "C" and b.a[1] == "i" and a.k == "OP" and a.a[0] in ("Sub",) and a.a[2].k == "C" and a.a[2].a[1] == "i":
            return op("Eq", a.a[1], C(b.a[0] + a.a[2].a[0]))
        return mk("OP", "Eq", a, b)
    if o == "Lt":
        if a is b:
            return FALSE
        if a.k == "C" and b.k == "C" and a.a[1] == "i" and b.a[1] == "i":
            return TRUE if a.a[0] < b.a[0] else FALSE
        if unsigned:
            if b.k == "C" and b.a[0] == 1 and b.a[1] == "i":
                return op("Eq", a, C(0))
            if a.k == "C" and a.a[0] == 0 and a.a[1] == "i":
                return neg(op("Eq", b, C(0)))
            if b.k == "C" and b.a[0] == 0 and b.a[1] == "i":
                return FALSE
        return mk("OP", "Lt", a, b)
    if o == "BitAnd" and (a is FALSE or b is FALSE):
        return FALSE
    if o == "BitAnd" and a is TRUE:
        return b
    if o == "BitAnd" and b is TRUE:
        return a
    if o == "BitOr" and (a is TRUE or b is TRUE):
        return TRUE
    if o == "BitOr" and a is FALSE:
        return b
    if o == "BitOr" and b is FALSE:
        return a
    if o in ("Add", "Sub") and b.k == "C" and b.a[0] == 0:
        return a
    return mk("OP", o, a, b)


def neg(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.k == "NOT":
        return a.a[0]
    return mk("NOT", a)


def discr(v, ename=None):
    if v.k == "AGG" and v.a[0] == "enum":
        return C(v.a[2])
    if v.k == "UPD":
        return discr(v.a[0], ename)
    if v.k in ("BOTTOM",):
        return BOTTOM
    return mk("DISCR", v, ename)


# ------------------------------------------------------------------ printing
def show(v, d=0):
    if type(v) is not V:
        return str(v)
    if v._str is not None:
        return v._str
    if d > 14:
        return "…"
    k = v.k
    a = v.a
    if k == "C":
        r = repr(a[0]) if a[1] != "u" else "()"
    elif k == "AGG":
        if a[0] in ("closure", "coroutine"):
            r = "{%s %s}" % (a[0], a[1].split("::")[-2] + "::" + a[1].split("::")[-1] if "::" in a[1] else a[1])
        else:
            nm = (a[1] or "").split("::")[-1]
            if a[2] and a[2] != nm:
                nm = a[2] if nm in ("Option", "Result", "Poll", "ControlFlow") else nm + "::" + a[2]
            if a[4]:
                fs = []
                for n, f in zip(a[3] or [str(i) for i in range(len(a[4]))], a[4]):
                    fs.append(show(f, d + 1) if n.isdigit() else n + ": " + show(f, d + 1))
                r = nm + "(" + ", ".join(fs) + ")"
            else:
                r = nm or "()"
    elif k == "FN":
        r = "fn " + a[1]
    elif k == "REF":
        r = "&" + showroot(a[0], d + 1) + "".join("." + str(x[1]) if len(x) > 1 else "[]" for x in a[1])
    elif k == "CELL":
        r = "local%d@%s" % (a[1], a[0])
    elif k == "SYM":
        r = "%s" % (a[0],)
    elif k == "CALL":
        r = a[0].split("::")[-1] if not a[0].startswith("<") else a[0]
        r += "(" + ", ".join(show(x, d + 1) for x in a[2]) + ")"
    elif k == "FLD":
        r = show(a[0], d + 1) + "." + a[1]
    elif k == "VF":
        r = show(a[0], d + 1) + "?" + a[1] + ("" if a[2] == "0" else "." + a[2])
    elif k == "DC":
        r = show(a[0], d + 1) + "?" + a[1]
    elif k == "DEREF":
        r = show(a[0], d + 1)
    elif k == "IDX":
        r = show(a[0], d + 1) + "[]"
    elif k == "OP":
        r = "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    elif k == "NOT":
        r = "!" + show(a[0], d + 1)
    elif k == "DISCR":
        r = "variant(" + show(a[0], d + 1) + ")"
    elif k == "UPD":
        r = show(a[0], d + 1) + "{" + ", ".join("%s=%s" % (kk[1] if len(kk) > 1 else kk, show(x, d + 1)) for kk, x in a[1]) + "}"
    elif k == "COLL":
        r = "coll[" + "; ".join(sorted(show(e, d + 1) for e, _ in a[1])) + "]"
    elif k == "ITER":
        r = "iter(" + show(a[0], d + 1) + ")" + "".join("." + s[0] for s in a[1])
    elif k == "CAST":
        r = show(a[1], d + 1) + " as " + a[0]
    else:
        r = k.lower() + (str(a[1:]) if k == "PHI" else "")
    if d == 0 or len(r) < 200:
        v._str = r
    return r


def showroot(r, d=0):
    if r.k == "CELL":
        return "local%d" % r.a[1]
    return show(r, d)


# ------------------------------------------------------------------ states
class State:
    __slots__ = ("mem", "facts", "auto", "trace", "tag")

    def __init__(self, mem, facts, auto, trace, tag=None):
        self.tag = tag
        self.mem = mem
        self.facts = facts
        self.auto = auto
        self.trace = trace

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.auto, self.trace, self.tag)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.auto)

    # ---- memory
    def content(self, root):
        v = self.mem.get(root)
        if v is None:
            if root.k == "CELL":
                return UNINIT
            return mk("DEREF", root)
        return v

    def read(self, root, path):
        v = self.content(root)
        for el in path:
            v = proj(v, el)
        return v

    def write(self, root, path, val):
        if not path:
            self.mem[root] = val
        else:
            self.mem[root] = upd(self.content(root), path, val)

    def target(self, p):
        """location a pointer value points to"""
        if p.k == "REF":
            return p.a[0], p.a[1]
        return p, ()

    def load(self, p):
        r, path = self.target(p)
        return self.read(r, path)

    def loadall(self, p, n=8):
        while n and p.k == "REF":
            p = self.load(p)
            n -= 1
        return p

    # ---- facts
    def ev(self, v):
        """True / False / None"""
        if v.k == "C":
            return v.a[0] if v.a[1] == "b" else None
        if v.k == "NOT":
            r = self.ev(v.a[0])
            return None if r is None else not r
        f = self.facts.get(v)
        if f is not None and f[0] == "in" and len(f[1]) == 1:
            (x,) = f[1]
            if x is True or x is False:
                return x
        if v.k == "OP":
            o, a, b = v.a
            if o == "Eq" and b.k == "C":
                f = self.facts.get(a)
                if f is not None:
                    if f[0] == "in":
                        if b.a[0] not in f[1]:
                            return False
                        if len(f[1]) == 1:
                            return True
                    elif b.a[0] in f[1]:
                        return False
            elif o in ("BitAnd", "BitOr"):
                x, y = self.ev(a), self.ev(b)
                if x is not None and y is not None:
                    return (x and y) if o == "BitAnd" else (x or y)
                if o == "BitAnd" and (x is False or y is False):
                    return False
                if o == "BitOr" and (x is True or y is True):
                    return True
        return None

    def assume(self, v, val):
        """add the fact v == val (bool); False if infeasible"""
        while v.k == "NOT":
            v = v.a[0]
            val = not val
        if v.k == "BOTTOM":
            return False
        if v.k == "C":
            return v.a[0] == val
        r = self.ev(v)
        if r is not None and r != val:
            return False
        if v.k == "OP":
            o, a, b = v.a
            if o == "Eq" and b.k == "C":
                return self.restrict(a, [b.a[0]], val)
            if o == "BitAnd" and val:
                return self.assume(a, True) and self.assume(b, True)
            if o == "BitOr" and not val:
                return self.assume(a, False) and self.assume(b, False)
        self.facts[v] = ("in", frozenset([val]))
        return True

    def restrict(self, v, vals, positive=True):
        """v in vals (or not in vals)"""
        if v.k == "C":
            return (v.a[0] in vals) == positive
        if v.k == "BOTTOM":
            return False
        f = self.facts.get(v)
        s = frozenset(vals)
        if positive:
            if f is None:
                n = ("in", s)
            elif f[0] == "in":
                n = ("in", f[1] & s)
            else:
                n = ("in", s - f[1])
        else:
            if f is None:
                n = ("notin", s)
            elif f[0] == "in":
                n = ("in", f[1] - s)
            else:
                n = ("notin", f[1] | s)
        if n[0] == "in" and not n[1]:
            return False
        if n[0] == "notin" and v.k == "DISCR":
            dom = DOMAINS.get(v.a[1])
            if dom:
                left = dom - n[1]
                if not left:
                    return False
                n = ("in", left)
        self.facts[v] = n
        return True

    def variants(self, v, ename=None):
        """the possible variants of an enum value, or None when unknown"""
        d = discr(v, ename)
        if d.k == "C":
            return frozenset([d.a[0]])
        f = self.facts.get(d)
        if f is not None and f[0] == "in":
            return f[1]
        dom = DOMAINS.get(ename)
        if dom and f is not None:
            return dom - f[1]
        return dom

    def kill(self, atom):
        """the atom is about to denote a new value: forget facts and contents tied to the old one, and
        rename the old value wherever it is still held (collections keep their elements: an element
        drawn from a collection brings its own facts along)"""
        if self.facts:
            dead = [k for k in self.facts if atom in k.atoms]
            for k in dead:
                del self.facts[k]
        mem = self.mem
        hit = [k for k, v in mem.items() if atom in v.atoms or (k.atoms and atom in k.atoms)]
        for k in hit:
            if atom in k.atoms:
                del mem[k]
            else:
                mem[k] = subst_old(mem[k], atom)

    def killmany(self, atoms):
        if self.facts and atoms:
            dead = [k for k in self.facts if not atoms.isdisjoint(k.atoms)]
            for k in dead:
                del self.facts[k]


_subst = {}


def subst_old(v, atom):
    """v with atom replaced by a term for its previous value"""
    if atom not in v.atoms:
        return v
    if v is atom:
        return mk("OLD", show(atom), id(atom))
    if v.k == "COLL" or v.k == "ITER" or v.k == "SRC":
        return v
    key = (v, atom)
    r = _subst.get(key)
    if r is not None:
        return r

    def sub(x):
        if type(x) is V:
            return subst_old(x, atom)
        if type(x) is tuple:
            return tuple(sub(y) for y in x)
        return x
    r = mk(v.k, *[sub(x) for x in v.a])
    _subst[key] = r
    return r


DOMAINS = {
    OPT: frozenset(["Some", "None"]),
    RES: frozenset(["Ok", "Err"]),
    POLL: frozenset(["Ready", "Pending"]),
    CF: frozenset(["Continue", "Break"]),
}


def jval(a, b, site, cell, kills):
    if a is b:
        return a
    if a.k == "AGG" and b.k == "AGG" and a.a[:4] == b.a[:4] and len(a.a[4]) == len(b.a[4]):
        fs = tuple(jval(x, y, site, cell + (i,), kills) for i, (x, y) in enumerate(zip(a.a[4], b.a[4])))
        return mk("AGG", a.a[0], a.a[1], a.a[2], a.a[3], fs)
    if a.k == "COLL" and b.k == "COLL":
        return mkcoll(a.a[0], a.a[1] | b.a[1])
    if a.k == "ITER" and b.k == "ITER" and a.a[1] == b.a[1] and a.a[0].k == "SRC" and b.a[0].k == "SRC" and a.a[0].a[0] == b.a[0].a[0]:
        (m, x, y), (_, z, w) = a.a[0].a, b.a[0].a
        if type(x) is V and type(z) is V and x.k == "COLL" and z.k == "COLL" and type(y) is V and type(w) is V and (y is w or y.k == "COLL" and w.k == "COLL"):
            return mk("ITER", mk("SRC", m, jval(x, z, site, cell + ("x",), kills), jval(y, w, site, cell + ("y",), kills)), a.a[1])
    if (a.k == "UPD" or b.k == "UPD"):
        ba = a.a[0] if a.k == "UPD" else a
        bb = b.a[0] if b.k == "UPD" else b
        if ba is bb:
            da = dict(a.a[1]) if a.k == "UPD" else {}
            db = dict(b.a[1]) if b.k == "UPD" else {}
            items = []
            for kk in set(da) | set(db):
                x = da.get(kk) or proj(ba, kk)
                y = db.get(kk) or proj(ba, kk)
                items.append((kk, jval(x, y, site, cell + (kk,), kills)))
            return mk("UPD", ba, tuple(sorted(items, key=lambda x: x[0][:2])))
    p = mk("PHI", site, cell)
    kills[p] = (a, b)
    return p


MAXELEMS = 12


def mkcoll(site, elems):
    if len(elems) > MAXELEMS:
        # forget the fact snapshots that differ: intersect per element value
        by = {}
        for e, f in elems:
            by[e] = by[e] & f if e in by else f
        elems = frozenset(by.items())
        if len(elems) > 3 * MAXELEMS:
            elems = frozenset([(mk("SYM", "elem-of-many", site), EMPTY)])
    return mk("COLL", site, elems)


def jfact(k, x, y):
    """the strongest fact implied by both (None: nothing known)"""
    if x == y:
        return x
    if x[0] == "in" and y[0] == "in":
        u = x[1] | y[1]
        if u == frozenset([True, False]) or u == DOMAINS.get(k.a[1] if k.k == "DISCR" else None) or len(u) > 8:
            return None
        return ("in", u)
    if x[0] == "notin" and y[0] == "notin":
        return ("notin", x[1] & y[1]) if x[1] & y[1] else None
    i, n = (x, y) if x[0] == "in" else (y, x)
    return ("notin", n[1] - i[1]) if n[1] - i[1] else None


def discrfacts(st):
    return {k.a[0]: (k.a[1], f) for k, f in st.facts.items() if k.k == "DISCR"}


def opfacts(st, kills, side):
    """operand -> [(operator, position, other operand, fact)] for the values being merged"""
    want = {v[side] for v in kills.values()}
    out = {}
    for k, f in st.facts.items():
        if k.k == "OP" and len(k.a) == 3:
            if k.a[1] in want:
                out.setdefault(k.a[1], []).append((k.a[0], 0, k.a[2], f))
            if k.a[2] in want:
                out.setdefault(k.a[2], []).append((k.a[0], 1, k.a[1], f))
    return out


def join(a, b, site):
    kills = {}
    mem = {}
    for k, x in a.mem.items():
        y = b.mem.get(k)
        if y is None:
            if k.k == "CELL":
                continue  # dead or uninitialised on one side
            y = b.content(k)
        mem[k] = jval(x, y, site, (k,), kills)
    for k, y in b.mem.items():
        if k not in a.mem and k.k != "CELL":
            mem[k] = jval(a.content(k), y, site, (k,), kills)
    facts = {}
    for k, x in a.facts.items():
        y = b.facts.get(k)
        if y is None:
            continue
        n = jfact(k, x, y)
        if n is not None:
            facts[k] = n
    if kills:
        facts = {k: f for k, f in facts.items() if kills.keys().isdisjoint(k.atoms)}
        da = discrfacts(a)
        db = discrfacts(b)
        oa, ob = opfacts(a, kills, 0), opfacts(b, kills, 1)
        for p, (x, y) in kills.items():
            # comparisons of the merged value that hold on both sides
            fy = {(o, i, z): f for (o, i, z, f) in ob.get(y, ())}
            for (o, i, z, f) in oa.get(x, ()):
                g = fy.get((o, i, z))
                if g is not None and kills.keys().isdisjoint(z.atoms):
                    k = mk("OP", o, p, z) if i == 0 else mk("OP", o, z, p)
                    n = jfact(k, f, g)
                    if n is not None:
                        facts[k] = n
            fx = ("in", frozenset([x.a[0]])) if x.k == "C" else a.facts.get(x)
            fy = ("in", frozenset([y.a[0]])) if y.k == "C" else b.facts.get(y)
            if fx is not None and fy is not None:
                n = jfact(p, fx, fy)
                if n is not None:
                    facts[p] = n
            ex = (x.a[1], ("in", frozenset([x.a[2]]))) if x.k == "AGG" and x.a[0] == "enum" else da.get(x)
            ey = (y.a[1], ("in", frozenset([y.a[2]]))) if y.k == "AGG" and y.a[0] == "enum" else db.get(y)
            if ex is not None and ey is not None and ex[0] == ey[0]:
                k = mk("DISCR", p, ex[0])
                n = jfact(k, ex[1], ey[1])
                if n is not None:
                    facts[k] = n
    return State(mem, facts, a.auto, a.trace, a.tag if a.tag == b.tag else None)


class Ev:
    """An event of the abstract execution, handed to the rule."""
    __slots__ = ("kind", "path", "args", "val", "cx", "extra")

    def __init__(self, kind, path=None, args=(), val=None, cx=None, extra=None):
        self.kind = kind
        self.path = path
        self.args = args
        self.val = val
        self.cx = cx
        self.extra = extra


class Cx:
    """Where a call happens."""
    __slots__ = ("fid", "bb", "body", "span", "site", "dty", "atys", "gargs", "depth", "resdef", "trait", "calleepath")


class Rule:
    """Base class: subclasses override on()."""
    name = ""
    opaque = ()          # path suffixes of local functions not to enter

    def __init__(self):
        self.viols = {}
        self.obl = {}

    def init(self):
        return ()

    def on(self, I, st, ev):
        return True

    def part(self, st):
        return None

    def keepfact(self, st, k):
        return False

    def viol(self, I, st, key, msg, cx=None):
        if key not in self.viols:
            loc = None
            if cx is not None:
                loc = "%s:%d (in %s)" % (cx.span[0], cx.span[1], cx.body.df.path)
            self.viols[key] = {"key": key, "msg": msg, "at": loc, "path": I.chain(cx), "trace": I.tracelist(st)}

    def discharge(self, key, what=None):
        self.obl.setdefault(key, what)


class TooBig(Exception):
    pass


class Interp:
    CAP = 10
    HEADCAP = 3
    MAXVISITS = 400000

    def __init__(self, prog, rule):
        import models
        self.prog = prog
        self.rule = rule
        self.models = models.MODELS
        self.regexmodels = models.PREFIX
        self.fids = {}
        self.fidinfo = []
        self.visits = 0
        self.spawned = []
        self.stack = []
        self.seen_bodies = set()
        self.unmodelled = {}
        self.ncalls = 0
        self.in_select = False
        for p, t in prog.tydefs.items():
            DOMAINS.setdefault(p, frozenset(n for n, _ in t.variants))

    # ------------------------------------------------------------ ids and reporting
    def fid(self, parent, bb, key):
        k = (parent, bb, key)
        i = self.fids.get(k)
        if i is None:
            i = len(self.fidinfo)
            self.fids[k] = i
            self.fidinfo.append((parent, bb, key))
        return i

    def chain(self, cx):
        out = []
        if cx is None:
            return out
        f = cx.fid
        while f is not None and f >= 0:
            parent, bb, key = self.fidinfo[f]
            b = self.prog.bodies.get(key)
            out.append(b.df.path if b else key)
            f = parent
        out.reverse()
        return out

    def tracelist(self, st):
        out = []
        t = st.trace
        while t is not None and len(out) < 40:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    def note(self, st, cx, what):
        st.trace = ("%s:%s %s" % (cx.span[0].split("/")[-1], cx.span[1], what), st.trace)

    def emit(self, st, ev):
        return self.rule.on(self, st, ev) is not False

    # ------------------------------------------------------------ values
    def canon(self, st, v, n=6):
        """the value a reference denotes (for provenance)"""
        while n and v.k == "REF":
            v = st.load(v)
            n -= 1
        return v

    def placeof(self, st, p):
        """the place a (possibly nested) reference denotes"""
        n = 6
        while n and p.k == "REF":
            v = st.load(p)
            if v.k != "REF":
                break
            p = v
            n -= 1
        return p

    def spawn(self, st, f, cx):
        if f.k == "AGG" and f.a[0] == "coroutine":
            self.spawned.append((f.a[1], f, cx))

    def fresh(self, st, path, cx, *args):
        v = call(path, cx.site, *args)
        st.kill(v)
        return v

    def const_to_v(self, v, types):
        if isinstance(v, dict):
            if "float" in v:
                return mk("C", v["float"], "f")
            if "agg" in v:
                t = types[v["agg"]]
                fs = tuple(self.const_to_v(x, types) for x in v["fields"])
                if t.k == "adt":
                    var = v["variant"][1] if v["variant"] else None
                    adt = self.prog.adts.get(t.d.key)
                    names = tuple(str(i) for i in range(len(fs)))
                    if adt:
                        for vv in adt["variants"]:
                            if vv["name"] == var or not adt["enum"]:
                                names = tuple(f["name"] for f in vv["fields"])
                                break
                    if t.enum:
                        return mk("AGG", "enum", t.path, var, names, fs)
                    return mk("AGG", "adt", t.path, None, names, fs)
                if t.k == "tuple":
                    return tup(*fs)
                return mk("AGG", "array", "", None, tuple(str(i) for i in range(len(fs))), fs)
        return C(v)

    def operand(self, st, fr, o, cx=None):
        k = o[0]
        if k == "c" or k == "m":
            root, path = self.locate(st, fr, o[1])
            v = st.read(root, path)
            if k == "m" and not (v.k == "C" or v.k == "FN"):
                ty = o[1][2]
                if ty.k not in ("int", "uint", "bool", "ref", "char", "float") and "*" not in o[1][1]:
                    st.write(root, path, MOVED)
            return v
        if k == "k":
            if o[1] is None:
                t = o[2]
                if t.k == "adt" and not t.enum:
                    return mk("AGG", "adt", t.path, None, (), ())
                if o[3]:
                    return call("const:" + o[3], None)
                if t.k == "closure":
                    return mk("AGG", "closure", t.d.key, None, (), ())
                return call("const:" + t.s, None)
            t = o[2]
            if t.k == "ref" and o[3] is None and isinstance(o[1], str):
                return C(o[1])
            v = self.const_to_v(o[1], o[4])
            return v
        if k == "fn":
            d, r, rk, ga = o[1]
            return mk("FN", d.key, d.npath, r.key if r is not None else None)
        if k == "prom":
            return self.promoted(st, fr, o[1])
        if k == "static":
            return call("static:" + o[1].key, None)
        return call("rt", None)

    def promoted(self, st, fr, i):
        body = fr.body.prom[i]
        p = mk("SYM", "promoted", (body.key,))
        # evaluate: straight-line code
        sub = Frame(body, self.fid(None, 0, body.key))
        s2 = State({}, {}, (), None)
        bb = 0
        for _ in range(50):
            bl = body.blocks[bb]
            for s in bl.s:
                if s[0] == "=":
                    root, path = self.locate(s2, sub, s[1])
                    s2.write(root, path, self.rvalue(s2, sub, s[2], bb, s[3]))
            t = bl.t
            if t[0] == "goto":
                bb = t[1]
                continue
            if t[0] == "call":
                f = t[1]
                args = [self.operand(s2, sub, a) for a in t[2]]
                nm = f[1][0].npath if f[0] == "fn" else "?"
                root, path = self.locate(s2, sub, t[3])
                s2.write(root, path, call(nm, None, *[self.canon(s2, a) for a in args]))
                if t[4] is None:
                    break
                bb = t[4]
                continue
            if t[0] in ("assert", "drop"):
                bb = t[4] if t[0] == "assert" else t[2]
                continue
            break
        r = s2.content(sub.cell(0))
        # promoteds are references to constants: keep the pointees reachable
        for k, v in s2.mem.items():
            if k not in st.mem:
                st.mem[k] = v
        return r

    def locate(self, st, fr, place):
        local, path, ty = place
        root = fr.cell(local)
        p = ()
        for el in path:
            if el == "*":
                v = st.read(root, p)
                if v.k == "REF":
                    root, p = v.a
                else:
                    if v.k in ("UNINIT", "MOVED"):
                        v = mk("SYM", "moved-or-uninit", (fr.fid, local))
                    root, p = v, ()
            elif el[0] == "i":
                iv = st.content(fr.cell(el[1])) if type(el[1]) is int else None
                p = p + ((("i", iv) if iv is not None and iv.k not in ("UNINIT", "MOVED") else ("i",)),)
            else:
                p = p + (el,)
        return root, p

    def rvalue(self, st, fr, r, bb, span):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            root, path = self.locate(st, fr, r[2])
            if not path and root.k not in ("CELL",) and root.k != "ALLOC":
                return root if root.k != "REF" else mk("REF", root, path)
            return mk("REF", root, path)
        if k == "discr":
            root, path = self.locate(st, fr, r[1])
            v = st.read(root, path)
            t = r[1][2]
            return discr(v, t.path if t.k == "adt" else t.s)
        if k == "agg":
            kk = r[1]
            fs = tuple(self.operand(st, fr, o) for o in r[2])
            if kk[0] == "adt":
                d, var, names, isenum, af = kk[1], kk[2], kk[3], kk[4], kk[5]
                if isenum:
                    v = mk("AGG", "enum", d.npath, var, names, fs)
                else:
                    v = mk("AGG", "adt", d.npath, None, names, fs)
                return v
            if kk[0] in ("closure", "coroutine"):
                return mk("AGG", kk[0], kk[1].key, None, tuple(str(i) for i in range(len(fs))), fs)
            if kk[0] == "tuple":
                return tup(*fs)
            if kk[0] == "array":
                return mk("AGG", "array", "", None, tuple(str(i) for i in range(len(fs))), fs)
            return call("rawptr", None, *fs)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            uns = True
            for o in (r[2], r[3]):
                if o[0] in ("c", "m"):
                    uns = o[1][2].k not in ("int", "float")
                elif o[0] == "k":
                    uns = o[2].k not in ("int", "float")
            return op(r[1], a, b, uns)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                t = r[2][1][2] if r[2][0] in ("c", "m") else None
                if t is not None and t.k != "bool":
                    return mk("OP", "bitnot", a, C(0))
                return neg(a)
            if r[1] == "PtrMetadata":
                return call("len", None, self.canon(st, a))
            if a.k == "C" and a.a[1] == "i":
                return C(-a.a[0])
            return mk("OP", "neg", a, C(0))
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1] == "IntToInt":
                src = r[2][1][2] if r[2][0] in ("c", "m") else r[2][2]
                if v.k == "C" and v.a[1] == "b":
                    return C(1 if v.a[0] else 0)
                if v.k == "C" and v.a[1] == "s" and src.k == "adt":
                    for n, dv in src.variants or []:
                        if n == v.a[0]:
                            return C(dv)
                if v.k != "C" and r[3].s != src.s:
                    if not widening(src, r[3]):
                        return mk("CAST", r[3].s, v)
                return v
            if r[1] in ("FloatToInt", "IntToFloat", "FloatToFloat"):
                return mk("CAST", r[3].s, v)
            return v
        if k == "repeat":
            return mk("AGG", "array", "repeat", None, ("0",), (self.operand(st, fr, r[1]),))
        return call("other:" + str(r[1])[:40], None)

    # ------------------------------------------------------------ running
    def run(self, body, args, st, fid, depth):
        """-> list of (state, return value)"""
        if len(self.stack) > 60:
            raise TooBig("inlining depth in " + body.key)
        fr = Frame(body, fid)
        self.stack.append(body.key)
        self.seen_bodies.add(body.key)
        try:
            for i, a in enumerate(args):
                st.mem[fr.cell(i + 1)] = a
            return self._run(fr, st, depth)
        finally:
            self.stack.pop()

    def _run(self, fr, st0, depth):
        body = fr.body
        rpo = body.rpo
        heap = []
        pend = {}

        def push(bb, st):
            l = pend.get(bb)
            if l is None:
                pend[bb] = [st]
                heapq.heappush(heap, (rpo[bb], bb))
            else:
                l.append(st)

        push(0, st0)
        seen = {}
        widen = {}
        out = []
        cell0 = fr.cell(0)
        while heap:
            _, bb = heapq.heappop(heap)
            states = pend.pop(bb)
            site = (fr.fid, bb)
            # deduplicate / join
            if bb in body.heads:
                todo = []
                sd = seen.setdefault(bb, {})
                for s in states:
                    gk = (s.auto, self.rule.part(s))
                    ks = s.key()
                    got = sd.setdefault(gk, set())
                    if ks in got:
                        continue
                    w = widen.get((bb, gk))
                    if w is None and len(got) < self.HEADCAP:
                        got.add(ks)
                        todo.append(s)
                        continue
                    if w is None:
                        w = s
                        first = True
                    else:
                        first = False
                    n = join(w, s, site) if not first else s
                    n.auto = s.auto
                    kn = n.key()
                    if kn in got:
                        widen[(bb, gk)] = n
                        continue
                    got.add(kn)
                    widen[(bb, gk)] = n
                    todo.append(n)
                    if len(got) > 60:
                        raise TooBig("no convergence at %s bb%d" % (body.key, bb))
                states = todo
            elif len(states) > 1:
                groups = {}
                for s in states:
                    r0 = s.mem.get(cell0)
                    groups.setdefault((s.auto, self.rule.part(s), s.tag, shape_of(r0) if r0 is not None else "unset"), {})[s.key()] = s
                states = []
                for g, d in groups.items():
                    l = list(d.values())
                    if len(l) > self.CAP:
                        n = l[0]
                        for s in l[1:]:
                            n = join(n, s, site)
                        l = [n]
                    states += l
            for s in states:
                self.visits += 1
                if self.visits > self.MAXVISITS:
                    raise TooBig("visit limit in %s" % body.key)
                self.block(fr, bb, s, push, out, depth)
        # drop the frame's cells, merge equal returns
        res = {}
        for s, r in out:
            # values that still refer to this frame's cells keep them
            keep = self.reach(s, r, fr.fid)
            for k in [k for k in s.mem if k.k == "CELL" and k.a[0] == fr.fid and k not in keep]:
                del s.mem[k]
            self.factgc(s, r)
            res[(s.key(), r)] = (s, r)
        groups = {}
        for s, r in res.values():
            shape = shape_of(r)
            groups.setdefault((s.auto, self.rule.part(s), shape), []).append((s, r))
        final = []
        for g, l in groups.items():
            if len(l) > self.CAP:
                RET = mk("CELL", fr.fid, -1)
                n = None
                for s, r in l:
                    s.mem[RET] = r
                    n = s if n is None else join(n, s, (fr.fid, "ret"))
                r = n.mem.pop(RET)
                l = [(n, r)]
            final += l
        return final

    def reach(self, st, r, fid):
        """cells of frame fid that the return value or other frames' cells refer to"""
        keep = set()
        work = [r] + [v for k, v in st.mem.items() if not (k.k == "CELL" and k.a[0] == fid)]
        seen = set()
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            for x in refs_in(v):
                root = x
                if root.k == "CELL" and root.a[0] == fid and root not in keep:
                    keep.add(root)
                    c = st.mem.get(root)
                    if c is not None:
                        work.append(c)
        return keep

    def factgc(self, st, r):
        """drop facts about values that nothing refers to any more"""
        if not st.facts:
            return
        live = set(r.atoms)
        for k, v in st.mem.items():
            live |= v.atoms
            live |= k.atoms
        live |= self.rule_atoms(st)
        kf = self.rule.keepfact
        dead = [k for k in st.facts if k.atoms and not (k.atoms <= live) and not kf(st, k)]
        for k in dead:
            del st.facts[k]

    def rule_atoms(self, st):
        out = set()

        def walk(x):
            if type(x) is V:
                out.update(x.atoms)
            elif type(x) in (tuple, frozenset):
                for y in x:
                    walk(y)
        walk(st.auto)
        return out

    def block(self, fr, bb, st, push, out, depth, i0=0):
        st = st.copy()
        body = fr.body
        bl = body.blocks[bb]
        for i in range(i0, len(bl.s)):
            s = bl.s[i]
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], bb, s[3])
                if s[2][0] == "cast" and s[2][1] == "IntToInt" and v.k != "C" and s[2][2][0] in ("c", "m") and s[2][2][1][2] is not None and s[2][2][1][2].k == "bool":
                    # a truth value used as a number: one path each
                    b = v.a[1] if v.k == "CAST" else v
                    s2 = st.copy()
                    if s2.assume(b, False):
                        r2, p2 = self.locate(s2, fr, s[1])
                        s2.write(r2, p2, C(0))
                        self.block(fr, bb, s2, push, out, depth, i + 1)
                    if not st.assume(b, True):
                        return
                    v = C(1)
                if s[2][0] == "agg":
                    if v.a and v.k == "AGG" and v.a[0] in ("adt", "enum"):
                        if not self.emit(st, Ev("agg", v.a[1], v.a[4], v, self.mkcx(fr, bb, s[3], None, depth))):
                            return
                root, path = self.locate(st, fr, s[1])
                if path and (root.k != "CELL"):
                    if not self.emit(st, Ev("write", None, (root, path), v, self.mkcx(fr, bb, s[3], None, depth), st.read(root, path))):
                        return
                elif path and root.k == "CELL":
                    if not self.emit(st, Ev("lwrite", None, (root, path), v, self.mkcx(fr, bb, s[3], None, depth))):
                        return
                elif root.k != "CELL":
                    if not self.emit(st, Ev("write", None, (root, path), v, self.mkcx(fr, bb, s[3], None, depth), st.read(root, path))):
                        return
                st.write(root, path, v)
            elif k == "dead":
                st.mem.pop(fr.cell(s[1]), None)
            elif k == "live":
                st.mem.pop(fr.cell(s[1]), None)
            elif k == "setd":
                pass
        t = bl.t
        k = t[0]
        if k == "goto":
            push(t[1], st)
        elif k == "switch":
            self.switch(fr, bb, st, t, push)
        elif k == "return":
            r = st.content(fr.cell(0))
            st.mem.pop(fr.cell(0), None)
            out.append((st, r))
        elif k == "call":
            self.callterm(fr, bb, st, t, push, depth)
        elif k == "drop":
            root, path = self.locate(st, fr, t[1])
            if t[3]:
                v = st.read(root, path)
                if v.k not in ("MOVED", "UNINIT", "BOTTOM"):
                    cx = self.mkcx(fr, bb, bl.sp, None, depth)
                    if not self.emit(st, Ev("drop", t[1][2].s, (root, path), v, cx, t[1][2])):
                        return
                    if not t[4]:
                        if root.k == "CELL":
                            st.write(root, path, MOVED)
            push(t[2], st)
        elif k == "assert":
            c = self.operand(st, fr, t[1])
            cx = self.mkcx(fr, bb, bl.sp, None, depth)
            s2 = st.copy() if self.wants_panics else None
            if s2 is not None and s2.assume(c, not t[2]):
                self.emit(s2, Ev("panic", "assert:" + t[3], (c,), None, cx))
            if t[3].startswith(("Overflow", "DivisionByZero", "RemainderByZero", "BoundsCheck")) or c.k == "OP" and c.a[0].startswith("ovf"):
                push(t[4], st)
            elif st.assume(c, t[2]):
                push(t[4], st)
        elif k == "yield":
            cx = self.mkcx(fr, bb, bl.sp, None, depth)
            if not self.emit(st, Ev("yield", None, (), None, cx)):
                return
            root, path = self.locate(st, fr, t[2])
            st.write(root, path, call("resume", None))
            push(t[1], st)
        # resume / unreachable / others: path ends

    wants_panics = False

    def switch(self, fr, bb, st, t, push):
        v = self.operand(st, fr, t[1])
        ty = t[4]
        if v.k == "BOTTOM":
            return
        isbool = ty.k == "bool"
        names = None
        if v.k == "DISCR" or (v.k == "C" and v.a[1] == "s"):
            names = self.discr_names(v, fr, t)
        if isbool:
            for val, b in list(t[2]) + [(None, t[3])]:
                want = bool(val) if val is not None else True
                s = st.copy()
                if s.assume(v, want):
                    push(b, s)
            return
        taken = []
        for val, b in t[2]:
            key = val
            if names is not None:
                key = names.get(val)
                if key is None:
                    continue
            taken.append(key)
            s = st.copy()
            if s.restrict(v, [key], True):
                push(b, s)
        if fr.body.blocks[t[3]].t[0] == "unreachable" and not fr.body.blocks[t[3]].s:
            return
        s = st.copy()
        if s.restrict(v, taken, False):
            push(t[3], s)

    def discr_names(self, v, fr, t):
        if v.k == "DISCR":
            ty = self.prog.tydefs.get(v.a[1])
            if ty is not None:
                return {d: n for n, d in ty.variants}
            return None
        # constant variant name: find the enum from the defining statement
        o = t[1]
        if o[0] in ("c", "m"):
            local = o[1][0]
            for bl in fr.body.blocks:
                for s in bl.s:
                    if s[0] == "=" and s[1][0] == local and not s[1][1] and s[2][0] == "discr":
                        ty = s[2][1][2]
                        if ty.variants:
                            return {d: n for n, d in ty.variants}
                tt = bl.t
                if tt[0] == "call" and tt[3][0] == local and not tt[3][1]:
                    pass
        return None

    def mkcx(self, fr, bb, span, t, depth):
        c = Cx()
        c.fid = fr.fid
        c.bb = bb
        c.body = fr.body
        c.span = span
        c.site = (fr.fid, bb)
        c.depth = depth
        c.resdef = None
        c.trait = None
        c.calleepath = ""
        if t is not None:
            c.dty = t[3][2]
            c.atys = tuple(a[1][2] if a[0] in ("c", "m") else (a[2] if a[0] in ("k", "fn", "prom", "static") else None) for a in t[2])
            f = t[1]
            c.gargs = f[1][3] if f[0] == "fn" else ()
        else:
            c.dty = None
            c.atys = ()
            c.gargs = ()
        return c

    # ------------------------------------------------------------ calls
    def callterm(self, fr, bb, st, t, push, depth):
        args = [self.operand(st, fr, a) for a in t[2]]
        cx = self.mkcx(fr, bb, t[5], t, depth)
        f = t[1]
        if f[0] == "fn":
            d, r, rk, ga = f[1]
            results = self.dispatch(st, d, r, rk, args, cx)
        else:
            fv = self.operand(st, fr, f)
            results = self.invoke(st, fv, args, cx)
        if t[4] is None:
            return
        for s, v in results:
            if v is BOTTOM:
                continue
            root, path = self.locate(s, fr, t[3])
            if path or root.k != "CELL":
                self.emit(s, Ev("write" if root.k != "CELL" else "lwrite", None, (root, path), v, cx, s.read(root, path)))
            s.write(root, path, v)
            if t[3][2].k != "tuple" and (v.k in ("AGG", "C") or t[3][2].k == "adt"):
                s.tag = shape_of(v)
            push(t[4], s)

    def dispatch(self, st, d, r, rk, args, cx):
        """call of a known function item -> [(state, value)]"""
        self.ncalls += 1
        path = d.npath
        cx.calleepath = path
        cx.resdef = r
        cx.trait = d.trait
        body = None
        target = r if (r is not None and rk == "item") else d
        if target.local:
            body = self.prog.bodies.get(target.key)
            if r is None and d.trait is not None:
                body = None
        ev = Ev("call", path if body is None else target.npath, args, None, cx, target)
        if not self.emit(st, ev):
            return []
        m = self.models.get(path)
        if m is None and r is not None and r is not d:
            m = self.models.get(r.npath)
        if m is None:
            for pre, fn in self.regexmodels:
                if path.startswith(pre):
                    m = fn
                    break
        if m is not None and (body is None or path in FORCE_MODEL or target.key in self.prog.derived):
            res = m(self, st, args, cx)
            if res is not None:
                out = []
                for s, v in res:
                    if self.emit(s, Ev("ret", path, args, v, cx, target)):
                        out.append((s, v))
                return out
        if body is not None and not self.is_opaque(target):
            derived = target.impl_trait in ("std::fmt::Debug", "std::fmt::Display", "serde::Serialize", "serde::Deserialize")
            if not derived and self.stack.count(body.key) < 2:
                res = self.inline(st, body, args, cx)
                out = []
                for s, v in res:
                    if self.emit(s, Ev("ret", target.npath, args, v, cx, target)):
                        out.append((s, v))
                return out
        return self.default(st, path, args, cx, target)

    def is_opaque(self, d):
        for o in GLOBAL_OPAQUE + tuple(self.rule.opaque):
            if d.npath == o or d.npath.endswith("::" + o):
                return True
        return False

    def inline(self, st, body, args, cx):
        fid = self.fid(cx.fid, cx.bb, body.key)
        # closure-kind bodies take untupled arguments; the caller has already adapted them
        st = st.copy()
        return self.run(body, args, st, fid, cx.depth + 1)

    def default(self, st, path, args, cx, target=None):
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        cargs = [self.canon(st, a) for a in args]
        if cx.dty is not None and cx.dty.k == "never":
            self.emit(st, Ev("diverge", path, args, None, cx))
            return []
        states = [st]
        # closures handed to unknown code may be called any number of times: analyse one call
        for a in args:
            c = self.canon(st, a)
            if c.k == "AGG" and c.a[0] == "closure":
                nxt = []
                for s in states:
                    s2 = s.copy()
                    nxt.append(s)
                    b = self.prog.bodies.get(c.a[1])
                    if b is None:
                        continue
                    n = b.argc - 1
                    cargs2 = [mk("SYM", "cbarg%d" % i, cx.site) for i in range(n)]
                    for ca in cargs2:
                        s2.kill(ca)
                    for s3, _ in self.invoke(s2, a, cargs2, cx):
                        nxt.append(s3)
                states = nxt
        out = []
        for s in states:
            v = self.fresh(s, path, cx, *cargs)
            # unknown code may write through &mut arguments to plain data
            for a, ty in zip(args, cx.atys):
                if a.k == "REF" and ty is not None and ty.k in ("ref", "ptr") and ty.mut:
                    cur = s.load(a)
                    if cur.k in ("C", "COLL") or (cur.k == "AGG" and cur.a[0] in ("adt", "enum", "tuple", "array")):
                        n = mk("SYM", "havoc", cx.site)
                        s.kill(n)
                        s.write(a.a[0], a.a[1], n)
            if self.emit(s, Ev("ret", path, args, v, cx, target)):
                out.append((s, v))
        return out

    def invoke(self, st, fv, args, cx):
        """call a function value with untupled args"""
        f = fv
        loc = None
        n = 8
        while f.k == "REF" and n:
            loc = f
            f = st.load(f)
            n -= 1
        if f.k == "AGG" and f.a[0] == "closure":
            body = self.prog.bodies.get(f.a[1])
            if body is not None and self.stack.count(body.key) < 2:
                selfty = body.locals[1][0] if len(body.locals) > 1 else None
                if selfty is not None and selfty.k == "ref":
                    if loc is None:
                        root = mk("ALLOC", cx.site, "closure-env")
                        st.mem[root] = f
                        loc = mk("REF", root, ())
                    a0 = loc
                else:
                    a0 = f
                a = [a0] + list(args)
                a = a[: body.argc]
                return self.inline(st, body, a, cx)
        if f.k == "FN":
            key = f.a[2] or f.a[0]
            d = self.prog.defs.get(f.a[0])
            r = self.prog.defs.get(f.a[2]) if f.a[2] else None
            if d is not None:
                if d.kind == "Ctor(Variant, Fn)" or d.kind.startswith("Ctor"):
                    return [(st, self.ctor(d, args))]
                return self.dispatch(st, d, r, "item", list(args), cx)
        cargs = [self.canon(st, a) for a in args]
        if not self.emit(st, Ev("call", "dyncall", [fv] + list(args), None, cx)):
            return []
        return [(st, self.fresh(st, "dyncall", cx, self.canon(st, fv), *cargs))]

    def ctor(self, d, args):
        p = d.npath.split("::")
        adt = "::".join(p[:-1])
        fs = tuple(args)
        names = tuple(str(i) for i in range(len(fs)))
        if d.kind.startswith("Ctor(Variant"):
            return mk("AGG", "enum", adt, p[-1], names, fs)
        return mk("AGG", "adt", d.npath, None, names, fs)

    # ------------------------------------------------------------ futures
    def await_(self, st, fut, cx):
        """drive a future to completion -> [(state, output)]"""
        import models
        n = 10
        loc = None
        f = fut
        while n and (f.k == "REF" or f.k == "AGG" and len(f.a[4]) == 1 and f.a[1] and f.a[1].split("::")[-1] in ("Pin", "PinMacroHelper")):
            loc = f
            f = st.load(f) if f.k == "REF" else f.a[4][0]
            n -= 1
        if f.k == "AGG" and f.a[0] == "coroutine":
            body = self.prog.bodies.get(f.a[1])
            if body is not None and self.stack.count(body.key) < 2:
                fid = self.fid(cx.fid, cx.bb, body.key)
                st = st.copy()
                return self.run(body, [f, call("context", None)], st, fid, cx.depth + 1)
        if f.k == "CALL":
            m = models.FUTURES.get(f.a[0])
            if m is not None:
                r = m(self, st, f, cx)
                if r is not None:
                    return r
        if not self.emit(st, Ev("yield", "await", (f,), None, cx)):
            return []
        v = call("await", cx.site, f)
        st.kill(v)
        ev = Ev("await", f.a[0] if f.k == "CALL" else "?", (f,), v, cx)
        if not self.emit(st, ev):
            return []
        return [(st, ev.val)]        # a rule may give the result a shorter name

    # ------------------------------------------------------------ roots
    def root(self, body, args=None, st=None):
        """analyse a body from an unknown caller; an async fn is driven to completion"""
        if st is None:
            st = State({}, {}, self.rule.init(), None)
        fid = self.fid(None, 0, body.key)
        if args is None:
            args = []
            for i in range(body.argc):
                ty, nm = body.locals[i + 1]
                args.append(mk("SYM", "param:%s" % (body.params[i] if i < len(body.params) and body.params[i] else nm or i), (body.key, i)))
        out = self.run(body, args, st, fid, 0)
        if body.asyncfn:
            res = []
            cx = self.rootcx(body, fid)
            for s, v in out:
                res += self.await_(s, v, cx)
            out = res
        return out

    def rootcx(self, body, fid):
        c = Cx()
        c.fid = fid
        c.bb = "root"
        c.body = body
        c.span = (body.df.span[0] if body.df.span else "?", body.df.span[1] if body.df.span else 0, ())
        c.site = (fid, "root")
        c.dty = None
        c.atys = ()
        c.gargs = ()
        c.depth = 0
        c.resdef = None
        c.trait = None
        c.calleepath = ""
        return c


# only used to produce text for messages
GLOBAL_OPAQUE = ("Cmd::display",)
FORCE_MODEL = {"futures::Future::poll", "std::future::Future::poll", "core::future::Future::poll"}


def widening(src, dst):
    def bits(t):
        s = t.s
        if s in ("usize", "isize"):
            return 64
        d = "".join(ch for ch in s if ch.isdigit())
        return int(d) if d else 0
    if src.k == "bool":
        return True
    if src.k == "adt":
        return True
    if src.k == "uint" and dst.k == "uint":
        return bits(dst) >= bits(src)
    if src.k == "int" and dst.k == "int":
        return bits(dst) >= bits(src)
    if src.k == "uint" and dst.k == "int":
        return bits(dst) > bits(src)
    return False


def shape_of(r):
    if r.k == "AGG":
        if r.a[0] == "enum":
            return (r.a[1], r.a[2]) + tuple(shape_of(x) for x in r.a[4][:2])
        return (r.a[1],)
    if r.k == "C":
        return r.a
    return None


def refs_in(v, memo={}):
    """roots of REF terms inside v"""
    r = memo.get(v)
    if r is not None:
        return r
    out = set()
    if v.k == "REF":
        out.add(v.a[0])
        out |= refs_in(v.a[0])
    elif v.k == "COLL":
        for e, _ in v.a[1]:
            out |= refs_in(e)
    else:
        for x in v.a:
            if type(x) is V:
                out |= refs_in(x)
            elif type(x) is tuple:
                for y in x:
                    if type(y) is V:
                        out |= refs_in(y)
                    elif type(y) is tuple:
                        for z in y:
                            if type(z) is V:
                                out |= refs_in(z)
    memo[v] = frozenset(out)
    return memo[v]


class Frame:
    __slots__ = ("body", "fid", "_cells")

    def __init__(self, body, fid):
        self.body = body
        self.fid = fid
        self._cells = {}

    def cell(self, i):
        c = self._cells.get(i)
        if c is None:
            c = mk("CELL", self.fid, i)
            self._cells[i] = c
        return c
