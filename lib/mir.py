"""Loads the facts dumped by the driver: types, definitions, MIR bodies, ADTs, impls, constants."""
import json
import os
import re
import sys

sys.setrecursionlimit(20000)


class Ty:
    __slots__ = ("s", "k", "d", "a", "enum", "variants", "mut", "up", "ret", "box", "path", "name")

    def __init__(self):
        self.s = ""
        self.k = "other"
        self.d = None
        self.a = []
        self.enum = False
        self.variants = None
        self.mut = False
        self.up = []
        self.ret = None
        self.box = False
        self.path = ""
        self.name = ""

    def __repr__(self):
        return self.s

    def peel(self):
        """through references, boxes, pins and Arcs"""
        t = self
        for _ in range(12):
            if t.k in ("ref", "ptr"):
                t = t.a[0]
            elif t.k == "adt" and t.a and t.name in ("Box", "Arc", "Rc", "Pin"):
                t = t.a[0]
            else:
                break
        return t


class Def:
    __slots__ = ("key", "path", "name", "kind", "local", "impl_self", "impl_trait", "trait", "parent", "span", "npath")


def normpath(p):
    """std::option::Option::<T>::map -> std::option::Option::map ; keeps impl headers readable"""
    if "::<" not in p:
        return p
    out = []
    depth = 0
    i = 0
    n = len(p)
    while i < n:
        if depth == 0 and p.startswith("::<", i):
            # `::<impl ...>` segments are dropped as well (core::slice::<impl [T]>::iter)
            depth = 1
            i += 3
            while i < n and depth:
                if p[i] == "<":
                    depth += 1
                elif p[i] == ">" and p[i - 1] not in "-=":
                    depth -= 1
                i += 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Block:
    __slots__ = ("s", "t", "sp", "cleanup", "succ")


class Body:
    __slots__ = ("key", "df", "kind", "argc", "locals", "blocks", "heads", "rpo", "npreds", "prom", "upvars", "params",
                 "asyncfn", "vis", "prog", "ptype", "attrs", "lazy")

    def __getattr__(self, n):
        # filled on first use
        if n in ("blocks", "locals", "argc", "rpo", "heads", "npreds"):
            f = object.__getattribute__(self, "lazy")
            self.lazy = None
            f()
            return object.__getattribute__(self, n)
        raise AttributeError(n)

    def __repr__(self):
        return "<Body %s>" % self.key


class Program:
    def __init__(self, facts):
        self.bodies = {}
        self.defs = {}
        self.adts = {}
        self.impls = []
        self.consts = {}
        self.statics = {}
        self.raw = {}
        self.skipped = []
        self.tydefs = {}
        for crate in ("execgraph", "execgraph_remote"):
            with open(os.path.join(facts, crate + ".json")) as f:
                d = json.load(f)
            self._load(crate, d)
        self.derived = set()
        for im in self.impls:
            if im["derived"]:
                for it in im["items"]:
                    self.derived.add(it.key)
        self.children = {}
        for b in self.bodies.values():
            if b_parent(b.key):
                self.children.setdefault(b_parent(b.key), []).append(b.key)

    def _load(self, crate, d):
        files = d["files"]
        defs = []
        for x in d["defs"]:
            o = Def()
            o.key = x["key"]
            o.path = x["path"]
            o.npath = normpath(x["path"])
            o.name = x["name"]
            o.kind = x["kind"]
            o.local = x["local"] or x["key"].startswith("execgraph")
            o.impl_trait = x.get("impl_trait")
            o.trait = x.get("trait")
            o.impl_self = x.get("impl_self")
            o.parent = x.get("parent")
            sp = x.get("span")
            o.span = (files[sp[0]], sp[1]) if sp else None
            defs.append(o)
            if o.key not in self.defs or o.span:
                self.defs[o.key] = o
        types = [Ty() for _ in d["types"]]
        for t, x in zip(types, d["types"]):
            t.s = x["s"]
            t.k = x["k"]
            if "d" in x:
                t.d = defs[x["d"]]
                t.path = t.d.npath
                t.name = t.d.name
            t.a = [types[i] for i in x.get("a", [])]
            t.enum = x.get("enum", False)
            t.variants = x.get("variants")
            t.mut = x.get("mut", False)
            t.up = [types[i] for i in x.get("up", [])]
            t.box = x.get("box", False)
            if "ret" in x:
                t.ret = types[x["ret"]]
            if t.k == "adt" and t.enum:
                self.tydefs.setdefault(t.path, t)
        for o in defs:
            if isinstance(o.impl_self, int):
                o.impl_self = types[o.impl_self]
        self.raw[crate] = (d, defs, types, files)
        self.skipped += [(crate, s) for s in d["skipped"]]
        for b in d["bodies"]:
            self._body(crate, b, defs, types, files)
        for a in d["adts"]:
            o = defs[a["def"]]
            vs = []
            for v in a["variants"]:
                vs.append({
                    "name": v["name"],
                    "attrs": v["attrs"],
                    "fields": [{"name": f["name"], "ty": types[f["ty"]], "attrs": f["attrs"], "pub": f["pub"]}
                               for f in v["fields"]],
                })
            self.adts[o.key] = {"def": o, "enum": a["enum"], "attrs": a["attrs"], "variants": vs, "crate": crate}
        for im in d["impls"]:
            self.impls.append({
                "trait": im["trait"], "self": types[im["self"]], "targs": [types[i] for i in im["targs"]],
                "items": [defs[i] for i in im["items"]], "derived": im["derived"],
                "span": (files[im["span"][0]], im["span"][1]), "crate": crate})
        for c in d["consts"]:
            self.consts[defs[c["def"]].key] = (types[c["ty"]], self._cv(c["v"], types))

    def _cv(self, v, types):
        return v

    def _body(self, crate, x, defs, types, files):
        b = Body()
        df = defs[x["def"]]
        b.df = df
        b.key = df.key
        b.kind = x["kind"]
        b.upvars = x.get("upvars", [])
        b.params = x.get("params", [])
        b.asyncfn = x.get("async", False)
        b.vis = x.get("vis", False)
        b.attrs = x.get("attrs", [])
        b.prog = self
        b.lazy = lambda: self._fill(b, x["b"], defs, types, files)
        b.prom = []
        for i, p in enumerate(x["prom"]):
            pb = Body()
            pb.df = df
            pb.key = df.key + "::promoted%d" % i
            pb.kind = "promoted"
            pb.upvars = []
            pb.params = []
            pb.asyncfn = False
            pb.vis = False
            pb.attrs = []
            pb.prog = self
            pb.prom = []
            pb.lazy = lambda pb=pb, p=p: self._fill(pb, p, defs, types, files)
            b.prom.append(pb)
        self.bodies[b.key] = b

    def _fill(self, b, x, defs, types, files):
        b.argc = x["argc"]
        b.locals = [(types[t], n) for t, n in x["locals"]]

        def span(s):
            return (files[s[0]], s[1], tuple(s[3]) if len(s) > 3 else ())

        def place(p):
            path = []
            for e in p[1]:
                k = e[0]
                if k == "*":
                    path.append("*")
                elif k == "f":
                    path.append(("f", e[2] if e[2] is not None else str(e[1]), e[1]))
                elif k == "v":
                    path.append(("v", e[2] if e[2] is not None else str(e[1])))
                elif k == "i":
                    path.append(("i", e[1]))
                elif k == "ci":
                    path.append(("ci", e[1], e[3]))
                elif k == "ss":
                    path.append(("ss",))
                else:
                    path.append(("oc",))
            return (p[0], tuple(path), types[p[2]])

        def fnref(f):
            r = f.get("res")
            return (defs[f["fn"]], defs[r] if r is not None else None, f.get("rk"), tuple(types[i] for i in f["args"]))

        def oper(o):
            if o[0] in ("c", "m"):
                return (o[0], place(o[1]))
            if o[0] == "k":
                c = o[1]
                t = types[c["ty"]]
                if "f" in c:
                    return ("fn", fnref(c["f"]), t)
                if "promoted" in c:
                    return ("prom", c["promoted"], t)
                if "static" in c:
                    return ("static", defs[c["static"]], t)
                cd = defs[c["const"]].key if "const" in c else None
                return ("k", c.get("v"), t, cd, types)
            return ("rt",)

        def rval(r):
            k = r[0]
            if k == "use":
                return ("use", oper(r[1]))
            if k == "ref":
                return ("ref", r[1], place(r[2]))
            if k == "cast":
                return ("cast", r[1], oper(r[2]), types[r[3]])
            if k == "bin":
                return ("bin", r[1], oper(r[2]), oper(r[3]))
            if k == "un":
                return ("un", r[1], oper(r[2]))
            if k == "discr":
                return ("discr", place(r[1]))
            if k == "agg":
                kk = r[1]
                fs = tuple(oper(o) for o in r[2])
                if kk[0] == "adt":
                    return ("agg", ("adt", defs[kk[1]], kk[3], tuple(kk[4]), kk[5], kk[6]), fs)
                if kk[0] in ("closure", "coroutine"):
                    return ("agg", (kk[0], defs[kk[1]], tuple(kk[2])), fs)
                return ("agg", (kk[0],), fs)
            if k == "repeat":
                return ("repeat", oper(r[1]), r[2])
            return ("other", str(r[1]) if len(r) > 1 else "")

        blocks = []
        for bl in x["blocks"]:
            o = Block()
            o.cleanup = bl["cleanup"]
            o.sp = span(bl["sp"])
            ss = []
            if not o.cleanup:
                for s in bl["s"]:
                    if s[0] == "=":
                        ss.append(("=", place(s[1]), rval(s[2]), span(s[3])))
                    elif s[0] == "setd":
                        ss.append(("setd", place(s[1]), s[2], span(s[3])))
                    elif s[0] == "dead":
                        ss.append(("dead", s[1]))
                    elif s[0] == "live":
                        ss.append(("live", s[1]))
            o.s = ss
            t = bl["t"]
            k = t[0]
            o.succ = []
            if o.cleanup:
                o.t = ("resume",)
            elif k == "goto":
                o.t = ("goto", t[1])
                o.succ = [t[1]]
            elif k == "switch":
                o.t = ("switch", oper(t[1]), tuple((v, bb) for v, bb in t[2]), t[3], types[t[4]])
                o.succ = [bb for _, bb in t[2]] + [t[3]]
            elif k == "drop":
                o.t = ("drop", place(t[1]), t[2], t[4], t[5])
                o.succ = [t[2]]
            elif k == "call":
                o.t = ("call", oper(t[1]), tuple(oper(a) for a in t[2]), place(t[3]), t[4], span(t[6]))
                o.succ = [t[4]] if t[4] is not None else []
            elif k == "assert":
                o.t = ("assert", oper(t[1]), t[2], t[3], t[4])
                o.succ = [t[4]]
            elif k == "yield":
                o.t = ("yield", t[1], place(t[2]))
                o.succ = [t[1]]
            elif k == "return":
                o.t = ("return",)
            else:
                o.t = (k,)
            blocks.append(o)
        b.blocks = blocks
        # rpo + loop heads
        n = len(blocks)
        color = [0] * n
        order = []
        heads = set()
        stack = [(0, iter(blocks[0].succ))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(blocks[v].succ)))
                    break
                elif color[v] == 1:
                    heads.add(v)
            else:
                color[u] = 2
                order.append(u)
                stack.pop()
        order.reverse()
        b.rpo = {u: i for i, u in enumerate(order)}
        b.heads = heads
        np = [0] * n
        for u in order:
            for v in blocks[u].succ:
                np[v] += 1
        b.npreds = np

    # -------- lookups
    def by_path(self, suffix, crate=None, kind=None):
        """bodies whose pretty path (generics stripped) ends with the suffix on a segment boundary"""
        out = []
        for b in self.bodies.values():
            if crate and not b.key.startswith(crate + "::"):
                continue
            if kind and b.kind != kind:
                continue
            p = b.df.npath
            if p == suffix or p.endswith("::" + suffix):
                out.append(b)
        return out

    def fn(self, suffix, crate=None):
        r = self.by_path(suffix, crate, "fn")
        if len(r) != 1:
            raise AnchorError("expected one function %s, found %s" % (suffix, [b.key for b in r]))
        return r[0]

    def const(self, name, crate=None):
        r = [(k, v) for k, v in self.consts.items() if k.split("::")[-1] == name and (not crate or k.startswith(crate + "::"))]
        if len(r) != 1:
            raise AnchorError("expected one constant %s, found %s" % (name, [k for k, _ in r]))
        return r[0][1][1]


class AnchorError(Exception):
    pass


def b_parent(key):
    m = re.match(r"(.*)::\{closure#\d+\}$", key)
    return m.group(1) if m else None
