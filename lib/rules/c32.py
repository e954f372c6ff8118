"""C32: what add_task does to the task graph."""
from servicer import *
RULE = ("ExecGraph::add_task, every path: a command whose key is in the key map leaves graph and map as they are and its node's index is returned; otherwise a path that returns Ok has added exactly one node, holding the "
        "command, has recorded it under the command's key, returns its index, and has added one edge from each dependency to it; an edge is added only when the dependency was found to be another node that exists. A path "
        "that returns an error has added no node on balance and recorded nothing. Nothing else changes the nodes or edges of a task graph, or any field of a node but its priority.")
ASSUME = ["petgraph's add_node, remove_node and add_edge do what they document; removing the node added last changes no other index"]
MUT = {"add_node", "try_add_node", "add_edge", "try_add_edge", "update_edge", "try_update_edge", "remove_node", "remove_edge", "retain_nodes", "retain_edges", "clear", "clear_edges", "reverse", "extend_with_edges", "node_weights_mut",
       "node_weight_mut", "edge_weight_mut", "edge_weights_mut", "index_twice_mut", "into_edge_type", "reserve_nodes", "map_mut", "contract", "first_edge_mut"}
MAPMUT = {"insert", "remove", "clear", "retain", "drain", "remove_entry", "entry", "get_mut", "iter_mut", "values_mut", "extend", "try_insert", "or_insert", "or_insert_with", "insert_entry"}


def isgraph(t, cmd):
    while t is not None and t.k in ("ref", "ptr"):
        t = t.a[0]
    return t is not None and t.k == "adt" and t.name in ("Graph", "StableGraph", "DiGraph") and t.a and t.a[0].k == "adt" and t.a[0].path == cmd


class Add(Base):
    # auto: (nodes added, the node, edges: None | (item, edge added), validated all, all edges added, recorded, loop)
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        eg = adt(prog, "ExecGraph")
        self.cmd = adt(prog, "Cmd")["def"].npath
        self.g = fieldof(prog, eg, lambda t: isgraph(t, self.cmd), "task graph")
        self.m = fieldof(prog, eg, lambda t: t.k == "adt" and "Map" in t.name, "map of keys")
        self.key = "key"
        b = [b for b in prog.by_path("add_task", "execgraph", "fn") if b.df.npath.split("::")[-2:] == ["ExecGraph", "add_task"]]
        if len(b) != 1:
            raise AnchorError("ExecGraph::add_task")
        self.body = b[0]
        vec = [i for i in range(1, self.body.argc + 1) if self.body.locals[i][0].k == "adt" and self.body.locals[i][0].name == "Vec"]
        if len(vec) != 1:
            raise AnchorError("add_task's list of dependencies")
        self.deps = (self.body.key, vec[0] - 1)
        self.n = {}

    def count(self, x):
        self.n[x] = self.n.get(x, 0) + 1

    def init(self):
        # nodes, node, item under way, edge added for it, loop validated so far, validated all, looped edges so far, edges from all, recorded
        return (0, None, None, False, True, False, True, False, 0, False)

    def part(self, st):
        return st.auto + (tuple(sorted((show(k), tuple(sorted(map(str, f[1]))), f[0]) for k, f in st.facts.items() if self.relevant(k))),)

    def absent(self, st):
        for k in st.facts:
            if self.relevant(k) and (k.k == "DISCR" and st.variants(k.a[0], OPT) == frozenset(["None"]) or k.k == "CALL" and st.ev(k) is False):
                return True
        return False

    def relevant(self, k):
        return has(k, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] in ("get", "map.get", "contains_key", "map.contains", "contains") and len(t.a[2]) and self.infield(t.a[2][0], self.m))

    def keepfact(self, st, k):
        item = st.auto[2]
        return self.relevant(k) or item is not None and has(k, lambda t: t is item)

    def infield(self, v, f):
        return has(v, lambda t: t.k == "FLD" and t.a[1] == f or t.k == "REF" and any(e[0] == "f" and e[1] == f for e in t.a[1]))

    def dep(self, I, st, it):
        """the iterator walks over the list of dependencies"""
        return any(t.k == "SYM" and t.a[0].startswith("param:") and t.a[1] == self.deps for t in self.sources(I, st, it))

    def sources(self, I, st, it):
        for x in subterms(it):
            if x.k == "SRC":
                for y in x.a[1:]:
                    if type(y) is V:
                        yield from subterms(I.canon(st, y))
                        if y.k == "REF":
                            yield from subterms(st.load(y))

    def valid(self, I, st, item, node):
        """(exists, another node) as known on this path about a dependency"""
        exists = other = False
        mine = lambda v: has(v, lambda t: t is item)
        isnode = lambda v: has(v, lambda t: node is not None and t is node)
        for k, (how, vals) in list(st.facts.items()):
            if k.k == "DISCR" and k.a[0].k == "CALL" and k.a[0].a[0].split("::")[-1] in ("node_weight", "node_weight_mut") and mine(k.a[0]):
                if st.variants(k.a[0], OPT) == frozenset(["Some"]):
                    exists = True
        for k in list(st.facts):
            if k.k == "CALL" and mine(k) and k.a[0].split("::")[-1] in ("contains_node",) and st.ev(k) is True:
                exists = True
            if k.k == "OP" and len(k.a) > 2 and mine(k):
                o, a, b = k.a[0], k.a[1], k.a[2]
                r = st.ev(k)
                if r is None:
                    continue
                if not mine(a):
                    a, b = b, a
                    o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(o, o)
                if mine(b):
                    continue
                bound = has(b, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] in ("node_count", "node_bound", "len", "ntasks", "raw_nodes") or t.k == "OP" and t.a[0] == "Len")
                if not r:
                    o = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(o)
                if bound and o == "Lt":
                    exists = True
                    if node is None:
                        other = True
                if isnode(b) and o == "Lt":
                    exists = other = True
                if isnode(b) and o == "Ne":
                    other = True
        if node is None:
            # before the node was added: one that exists is another one
            other = other or exists
        return exists, other

    def closeitem(self, I, st):
        """the loop goes on to the next dependency"""
        nodes, node, item, edge, vsofar, vall, esofar, eall, rec, absent = st.auto
        if item is not None:
            e, o = self.valid(I, st, item, node)
            st.auto = (nodes, node, None, False, vsofar and e and o, vall, esofar and edge, eall, rec, absent)

    def on(self, I, st, ev):
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        nodes, node, item, edge, vsofar, vall, esofar, eall, rec, absent = st.auto
        if k == "item" and self.dep(I, st, ev.args[0]):
            v = ev.val
            st.auto = (nodes, node, v, False, vsofar, vall, esofar, eall, rec, absent)
            self.count("dependencies looked at")
        elif k == "step" and self.dep(I, st, ev.args[0]):
            self.closeitem(I, st)
        elif k == "iterend" and self.dep(I, st, ev.args[0]):
            nodes, node, item, edge, vsofar, vall, esofar, eall, rec, absent = st.auto
            # an empty list satisfies both
            whole = self.whole(ev.args[0]) and not any(t.k == "CALL" for t in self.sources(I, st, ev.args[0]))
            st.auto = (nodes, node, None, False, True, vall or vsofar and whole, True, eall or esofar and whole, rec, absent)
        elif k == "call" and ev.path and ("petgraph" in ev.path) and m in MUT and ev.cx.atys and isgraph(ev.cx.atys[0], self.cmd):
            if not self.infield(I.placeof(st, ev.args[0]) if ev.args[0].k == "REF" else ev.args[0], self.g):
                return True
            if m in ("add_node",):
                st.auto = st.auto[:9] + (absent or self.absent(st),)
                w = I.canon(st, ev.args[1])
                if not (w.k == "SYM" and w.a[0].startswith("param:")):
                    self.viol(I, st, "other-node", "the node that is added holds %s, not the command" % show(w)[:80], ev.cx)
                if nodes:
                    self.viol(I, st, "two-nodes", "a second node is added for one command", ev.cx)
            elif m == "add_edge" or m == "update_edge":
                a, b = I.canon(st, ev.args[1]), I.canon(st, ev.args[2])
                if node is None or not has(b, lambda t: t is node):
                    self.viol(I, st, "edge-target", "an edge is added that does not lead to the new node", ev.cx)
                elif item is None or not has(a, lambda t: t is item):
                    self.viol(I, st, "edge-source", "an edge is added that does not come from a dependency", ev.cx)
                else:
                    if m == "add_edge" and edge:
                        self.viol(I, st, "edge-twice", "two edges are added for one dependency", ev.cx)
                    e, o = self.valid(I, st, item, node)
                    if not (vall or e and o):
                        self.viol(I, st, "edge-unchecked", "an edge is added from a dependency that %s" % ("may not exist" if not e else "may be the new node itself: the graph is no longer acyclic"), ev.cx)
                    else:
                        self.discharge("edge", "from a dependency that exists and is another node")
                    st.auto = (nodes, node, item, True, vsofar, vall, esofar, eall, rec, absent)
            elif m == "remove_node":
                a = I.canon(st, ev.args[1])
                if node is None or not has(a, lambda t: t is node):
                    self.viol(I, st, "remove-other", "add_task removes a node it did not add", ev.cx)
                st.auto = (max(0, nodes - 1), None, None, False, vsofar, vall, esofar, eall, rec, absent)
            else:
                self.viol(I, st, "other-change", "add_task changes the graph with %s" % m, ev.cx)
        elif k == "ret" and m == "add_node" and ev.path and "petgraph" in ev.path:
            st.auto = (min(2, nodes + 1), ev.val) + st.auto[2:]
            self.count("nodes added")
        elif k == "call" and m in MAPMUT and ev.args and ev.args[0].k == "REF" and self.infield(I.placeof(st, ev.args[0]), self.m):
            if m != "insert":
                return True
            if len(ev.args) < 3:
                return True
            kk, v = I.canon(st, ev.args[1]), I.canon(st, ev.args[2])
            if not (kk.k == "FLD" and kk.a[1] == self.key and has(kk, lambda t: t.k == "SYM" and t.a[0].startswith("param:"))):
                self.viol(I, st, "recorded-key", "the new task is recorded under %s" % show(kk)[:60], ev.cx)
            if node is None or v is not node:
                self.viol(I, st, "recorded-node", "%s is recorded, not the new node" % show(v)[:60], ev.cx)
            st.auto = st.auto[:8] + (min(2, rec + 1), absent or self.absent(st))
        elif k == "call" and m == "insert" and ev.path.split("::")[-2] == "VacantEntry" and (self.entry(I, st, ev.args[0]) is not None):
            kk, v = self.entry(I, st, ev.args[0]), I.canon(st, ev.args[1])
            if not (kk.k == "FLD" and kk.a[1] == self.key and has(kk, lambda t: t.k == "SYM" and t.a[0].startswith("param:"))):
                self.viol(I, st, "recorded-key", "the new task is recorded under %s" % show(kk)[:60], ev.cx)
            if node is None or v is not node:
                self.viol(I, st, "recorded-node", "%s is recorded, not the new node" % show(v)[:60], ev.cx)
            st.auto = st.auto[:8] + (min(2, rec + 1), True)
        elif k == "write" and any(e[0] == "f" and e[1] in (self.g, self.m) for e in ev.args[1]) and not ev.cx.depth:
            self.viol(I, st, "other-change", "add_task overwrites the graph or the key map", ev.cx)
        return True

    def whole(self, it):
        """no stage of the iterator leaves elements out"""
        names = {x[0] for x in it.a[1]} if it.k == "ITER" else set()
        return it.k == "ITER" and not names - {"map", "cloned", "copied", "enumerate", "inspect", "rev", "peekable", "fuse"}

    def entry(self, I, st, v):
        for x in subterms(I.canon(st, v)):
            if x.k == "CALL" and x.a[0].split("::")[-1] == "entry" and len(x.a[2]) == 2 and self.infield(x.a[2][0], self.m):
                return x.a[2][1]

    def finish(self, I, out, body):
        for st, v in out:
            cx = I.rootcx(body, 0)
            nodes, node, item, edge, vsofar, vall, esofar, eall, rec, absent = st.auto
            vs = st.variants(v, RES) or frozenset(["Ok", "Err"])
            if "Err" in vs:
                if nodes or rec:
                    self.viol(I, st, "error-adds", "an error is returned although the %s" % ("new node stays in the graph" if nodes else "key was recorded"), cx)
                else:
                    self.count("errors")
                continue
            r = I.canon(st, proj(proj(v, ("v", "Ok")), ("f", "0", 0)))
            if nodes == 0:
                known = [x for x in subterms(r) if x.k in ("CALL", "VF") and self.relevant(x)]
                if not known:
                    self.viol(I, st, "not-added", "Ok(%s) is returned although no node was added and the key's node was not looked up" % show(r)[:60], cx)
                else:
                    self.count("known keys")
                continue
            absent = absent or self.absent(st)
            if not absent:
                self.viol(I, st, "duplicate", "a node is added on a path where the key may be in the graph already", cx)
            if rec != 1:
                self.viol(I, st, "not-recorded", "the new node is not recorded under its key", cx)
            if node is None or not has(r, lambda t: t is node):
                self.viol(I, st, "other-index", "the index that is returned, %s, is not the new node's" % show(r)[:80], cx)
            if eall is not True:
                self.viol(I, st, "edge-missing", "a node is added although not every dependency was given an edge to it", cx)
            if absent and rec == 1 and eall is True:
                self.count("tasks added")
        self.rep.take(I, self)


def check(P, rep):
    a = Add(P, rep)
    out = a.start(a.body)
    a.finish(a.I, out, a.body)
    for n in ("nodes added", "tasks added", "known keys", "errors", "dependencies looked at"):
        rep.floor(n, a.n.get(n, 0), 1)
    # elsewhere
    n = 0
    seen = {x for x in a.I.seen_bodies}
    for b in P.bodies.values():
        if not b.key.startswith("execgraph") or b.key in seen or b.df.path in seen:
            continue
        for bl in b.blocks:
            t = bl.t
            if t[0] == "call" and t[1][0] == "fn":
                d = t[1][1][0]
                m = d.npath.split("::")[-1]
                full = d.npath
                o = t[2][0] if t[2] else None
                ty = None
                if o is not None and o[0] in ("c", "m"):
                    ty = o[1][2]
                if "petgraph" in full and m in MUT and isgraph(ty, a.cmd) and m != "reserve_nodes" and not cloned(P, b, o[1][0]):
                    n += 1
                    rep.viol("outside:%s:%s" % (b.df.path, m), "%s changes a task graph" % m, "%s:%d (in %s)" % (t[5][0], t[5][1], b.df.path))
    w = 0
    for (b, span, f) in scan.field_writers(P, a.cmd, {f["name"] for f in fields(adt(P, "Cmd"))}):
        w += 1
        if f != "priority" and not b.df.path.endswith("Default::default"):
            rep.viol("cmd-field:%s:%s" % (b.df.path, f), "field %s of a command is changed" % f, "%s:%d (in %s)" % (span[0], span[1], b.df.path))
    rep.ob("outside", "no other function changes a graph of commands")
    rep.floor("writes of a command's fields", w, 1)


def cloned(P, b, local):
    """the local is a reference to a graph that was cloned in this body"""
    ref = None
    for bl in b.blocks:
        for s in bl.s:
            if s[0] == "=" and s[1][0] == local and not s[1][1] and s[2][0] == "ref":
                ref = s[2][2]
    if ref is None or ref[1]:
        return False
    for bl in b.blocks:
        t = bl.t
        if t[0] == "call" and t[3][0] == ref[0] and not t[3][1] and t[1][0] == "fn" and t[1][1][0].npath.endswith("::clone"):
            return True
    return False
