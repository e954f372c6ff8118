"""C11: which tasks a run executes, and which it skips."""
from servicer import *
RULE = ("get_subgraph, every path, for every task of the graph: a task is left out only if it is neither the target nor in the transitive closure of the target's dependencies, or the log has its success, or it was completed in "
        "this session and the log has no failure of it, or the log has its failure and (failures are not rerun or it was completed in this session), or such a failed task comes before it in the transitive closure. A task "
        "that is kept is none of these. Every edge is kept, and every weight is the task's own. Exactly the skipped successes and failures that were not completed in this session get one backref entry each and are added to the completed tasks.")
ASSUME = ["petgraph's filter_map keeps the edges between kept nodes", "transitive_closure_dag computes the transitive closure"]
PROPS = ("relevant", "success", "done", "failed", "downstream")
TEXT = {"relevant": "it is not needed for the target", "success": "the log has its success", "done": "it was completed in this session without failing", "failed": "it failed and failures are not to be rerun", "downstream": "it depends on a task that is skipped because it failed"}


def and3(a, b):
    return False if a is False or b is False else True if a is True and b is True else None


def or3(a, b):
    return True if a is True or b is True else False if a is False and b is False else None


def not3(a):
    return None if a is None else not a


class A:
    """the automaton's record; immutable by convention"""
    F = ("item", "ingraph", "put", "sets", "incomplete", "edge", "downbad", "downdone", "passes", "props", "rel", "emptyterms", "scanned", "reused", "bk", "bkdone")

    def __init__(self, **k):
        self.__dict__.update(k)

    def key(self):
        return tuple(self.__dict__[f] for f in A.F)

    def __eq__(self, o):
        return type(o) is A and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def upd(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return A(**d)


ZERO = A(item=None, ingraph=None, put=frozenset(), sets=frozenset(), incomplete=frozenset(), edge=None, downbad=False, downdone=False, passes=frozenset(), props=frozenset(), rel=frozenset(), emptyterms=frozenset(), scanned=frozenset(), reused=None, bk=None, bkdone=False)


class Sub(Base):
    opaque = ("has_success", "has_failure", "LogFile::write", "transitive_closure_dag", "tlevel_dag", "blevel_dag")

    def __init__(self, prog, rep, body):
        super().__init__(prog, rep)
        self.body = body
        self.n = {}
        cmd = adt(prog, "Cmd")["def"].npath
        self.key = "key"
        par = {}
        for i in range(1, body.argc + 1):
            t = body.locals[i][0]
            u = t.a[0] if t.k in ("ref", "ptr") else t
            if u.k == "adt" and u.name == "Graph":
                par["deps"] = (body.key, i - 1)
            elif u.k == "adt" and "Set" in u.name:
                par["completed"] = (body.key, i - 1)
            elif u.k == "bool":
                par["rerun"] = (body.key, i - 1)
            elif u.k == "adt" and u.name == "Option":
                par["target"] = (body.key, i - 1)
        for x in ("deps", "completed", "rerun", "target"):
            if x not in par:
                raise AnchorError("get_subgraph's parameter '%s'" % x)
        self.par = par

    def is_(self, v, what):
        v = peel(v) if type(v) is V else v
        return type(v) is V and v.k == "SYM" and v.a[0].startswith("param:") and v.a[1] == self.par[what]

    def init(self):
        return ZERO

    def part(self, st):
        a = st.auto
        t = [None if self.settled(a) else self.target(st)]
        if a.item is not None:
            x = a.item[0]
            t.append(tuple(sorted((show(k), f[0], tuple(sorted(map(str, f[1])))) for k, f in st.facts.items() if k.k == "CALL" and has(k, lambda y: y is x or y is a.edge))))
        t.append(self.rerun(st.facts))
        for e in sorted(a.emptyterms, key=show):
            t.append((show(e), st.ev(e)))
        return (a, tuple(t))

    def settled(self, a):
        return any("relevant" in p[1] for p in a.props)

    def target(self, st):
        for k in st.facts:
            if k.k == "DISCR" and self.is_(k.a[0], "target"):
                vs = st.variants(k.a[0], OPT)
                return tuple(sorted(vs)) if vs else None
        return None

    def keepfact(self, st, k):
        a = st.auto
        if k.k == "DISCR" and self.is_(k.a[0], "target"):
            return not self.settled(a)
        if self.is_(k, "rerun"):
            return True
        if k in a.emptyterms or k.k == "OP" and any(has(e, lambda t: t is k) for e in a.emptyterms):
            return True
        live = [x for x in (a.item and a.item[0], a.edge) if x is not None]
        return any(has(k, lambda t: t is x) for x in live)

    def count(self, x):
        self.n[x] = self.n.get(x, 0) + 1

    # ---- what is known about a task
    def know(self, facts, x, name):
        """has_success/has_failure of the task x, completed contains it: True/False/None"""
        for k, f in facts.items():
            if k.k != "CALL" or not has(k, lambda t: t is x):
                continue
            m = k.a[0].split("::")[-1]
            if name == "completed":
                if not (m == "contains" and any(self.is_(y, "completed") for y in subterms(k.a[2][0]))):
                    continue
            elif m != name:
                continue
            if f == ("in", frozenset([True])) or f == ("notin", frozenset([False])):
                return True
            if f == ("in", frozenset([False])) or f == ("notin", frozenset([True])):
                return False
        return None

    def rerun(self, facts):
        for k, f in facts.items():
            if self.is_(k, "rerun"):
                if f in (("in", frozenset([True])), ("notin", frozenset([False]))):
                    return True
                if f in (("in", frozenset([False])), ("notin", frozenset([True]))):
                    return False
        return None

    def failed(self, facts, x):
        return and3(self.know(facts, x, "has_failure"), or3(not3(self.rerun(facts)), self.know(facts, x, "completed")))

    def nodesource(self, I, st, it):
        """the graph over whose nodes the iterator runs"""
        for x in subterms(it):
            if x.k == "SRC":
                for y in x.a[1:]:
                    if type(y) is V and y.k == "CALL" and y.a[0].split("::")[-1] in ("node_indices", "node_references", "raw_nodes", "node_identifiers", "graph.items1") and y.a[2]:
                        return I.canon(st, y.a[2][0]), y.a[0].split("::")[-1]
        return None, None

    def edgesource(self, I, st, it):
        """(graph whose closure it is, reversed, node, direction, what) for an iterator over edges of a closure"""
        for x in subterms(it):
            if x.k == "SRC":
                for y in x.a[1:]:
                    if type(y) is V and y.k == "CALL" and y.a[0].split("::")[-1] in ("edges_directed", "neighbors_directed", "edges", "neighbors"):
                        g = I.canon(st, y.a[2][0])
                        tc = next((t for t in subterms(g) if t.k == "CALL" and t.a[0].endswith("transitive_closure_dag")), None)
                        if tc is None:
                            continue
                        base = I.canon(st, tc.a[2][0])
                        rev = base.k == "CALL" and base.a[0] == "reversed"
                        if rev:
                            base = base.a[2][0]
                        d = "Outgoing"
                        if len(y.a[2]) > 2:
                            dd = I.canon(st, y.a[2][2])
                            d = dd.a[2] if dd.k == "AGG" else None
                        return base, rev, I.canon(st, y.a[2][1]), d, y
        return None

    def elemset(self, I, st, v):
        """the collection behind a reference"""
        v = st.load(v) if v.k == "REF" else v
        n = 5
        while v.k == "REF" and n:
            v = st.load(v)
            n -= 1
        return v if v.k == "COLL" else None

    def classify(self, I, st, coll):
        """'failures' (all elements failed tasks), 'relevant', 'keys', None"""
        if coll is None:
            return None
        els = list(coll.a[1])
        if not els:
            return "empty"
        if all(self.isrel(I, st, x) for x, f in els):
            return "relevant"
        good = True
        for x, f in els:
            it = next((t for t in subterms(x) if t.k == "CALL" and t.a[0] in ("elem", "index") and has(t, lambda u: u.k == "CALL" and u.a[0] == "iter#")), None)
            if it is None or self.failed({**{k: v for k, v in st.facts.items() if self.is_(k, "rerun")}, **dict(f)}, it) is not True:
                good = False
        return "failures" if good else None

    def isrel(self, I, st, x):
        """the target itself or one of its transitive dependencies: 'self'/'dep'"""
        ed = [t for t in subterms(x) if t.k == "CALL" and t.a[0].split("::")[-1] in ("edges_directed", "neighbors_directed", "edges", "neighbors")]
        if not ed:
            return "self" if has(x, lambda t: self.is_(t, "target")) else None
        r = self.edgesource(I, st, mk("X", mk("SRC", "opq", ed[0], ed[0])))
        if r is None:
            return None
        base, rev, node, d, y = r
        if not self.is_(base, "deps") or not has(node, lambda t: self.is_(t, "target")) or d is None:
            return None
        up = (d == "Outgoing") == rev
        end = "target" if has(x, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] == "target") else "source" if has(x, lambda t: t.k == "CALL" and t.a[0].split("::")[-1] == "source") else None
        neigh = y.a[0].split("::")[-1].startswith("neighbors")
        if not up or not (neigh and end is None or not neigh and end == ("target" if d == "Outgoing" else "source")):
            return None
        return "dep"

    def close(self, I, st):
        """the walk over the nodes goes on: what became of the last one"""
        a = st.auto
        if a.item is not None and a.item[2] != "graph.items1":
            x, g, _ = a.item
            if not a.put:
                if self.failed(st.facts, x) is not False:
                    st.auto = a = a.upd(incomplete=a.incomplete | {g})
        st.auto = a.upd(item=None, put=frozenset())

    def closeedge(self, I, st):
        a = st.auto
        if a.edge is not None:
            ok = any(k.k == "CALL" and k.a[0] == "contains" and has(k.a[2][1], lambda t: t is a.edge) and st.ev(k) is False for k in st.facts)
            st.auto = a.upd(edge=None, downbad=a.downbad or not ok)

    def on(self, I, st, ev):
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        a = st.auto
        if k in ("step", "iterend", "item", "itemout", "itemdone"):
            g, how = self.nodesource(I, st, ev.args[0])
            if g is not None:
                self.nodes(I, st, ev, g, how)
                return True
            e = self.edgesource(I, st, ev.args[0])
            if e is not None:
                self.edges(I, st, ev, e)
                return True
            if k in ("step", "iterend", "item"):
                self.backs(I, st, ev)
            return True
        if k == "graphitem":
            self.graphitem(I, st, ev)
            return True
        if k == "ret" and m == "filter_map" and ev.path.startswith("petgraph"):
            base = I.canon(st, ev.args[0])
            mine = [p for p in a.passes if p[0] is base]
            old = next((p[1] for p in a.props if p[0] is base), frozenset())
            new = mine[0][1] if mine else frozenset(PROPS)
            if self.target(st) == ("None",):
                new = new | {"relevant"}
            st.auto = a.upd(passes=frozenset(p for p in a.passes if p[0] is not base), props=frozenset(p for p in a.props if p[0] is not ev.val) | {(ev.val, old | new)}, item=None, rel=frozenset(), scanned=frozenset(), incomplete=frozenset(), downdone=False, downbad=False, edge=None)
            self.count("graphs filtered")
            return True
        if k == "call" and m == "map" and ev.path.startswith("petgraph::Graph"):
            return True
        if k == "ret" and m in ("is_empty", "len") and ev.args:
            c = self.elemset(I, st, ev.args[0])
            cl = self.classify(I, st, c)
            if cl == "empty" and m == "is_empty" and a.scanned:
                st.auto = a.upd(emptyterms=a.emptyterms | {TRUE})
            elif cl == "failures":
                t = ev.val if m == "is_empty" else op("Eq", ev.val, C(0))
                st.auto = a.upd(emptyterms=a.emptyterms | {t})
            return True
        if k == "ret" and m == "contains" and ev.val is FALSE and len(ev.args) == 2 and a.item is not None and self.classify(I, st, self.elemset(I, st, ev.args[0])) == "empty":
            x = I.canon(st, ev.args[1])
            if a.edge is not None and has(x, lambda t: t is a.edge):
                st.auto = a.upd(edge=None)
            elif has(x, lambda t: t is a.item[0]):
                st.auto = a.upd(put=a.put | {"notin"})
            return True
        if k == "collect":
            x = ev.val
            r = self.isrel(I, st, x)
            if r == "self":
                st.auto = a = a.upd(rel=a.rel | {"self"})
            elif r == "dep" and a.edge is not None and has(x, lambda t: t is a.edge):
                st.auto = a = a.upd(edge=None)
            if a.item is not None and has(x, lambda t: t is a.item[0]):
                c = ev.args[0]
                iskey = x.k == "FLD" and x.a[1] == self.key or has(x, lambda t: t.k == "FLD" and t.a[1] == self.key)
                if a.item[2] == "graph.items1" and iskey or iskey:
                    st.auto = a.upd(put=a.put | {"key"}, reused=c if a.item[2] == "graph.items1" else a.reused)
                else:
                    st.auto = a.upd(put=a.put | {"node"})
            return True
        if k == "call" and m == "insert" and len(ev.args) == 2 and self.is_(st.load(ev.args[0]) if ev.args[0].k == "REF" else ev.args[0], "completed"):
            x = I.canon(st, ev.args[1])
            if a.bk is None or not has(x, lambda t: t is a.bk[0]):
                if not (a.item is not None and has(x, lambda t: t is a.item[0]) and False):
                    self.viol(I, st, "completed-other", "%s is counted as completed" % show(x)[-80:], ev.cx)
            else:
                st.auto = a.upd(bk=(a.bk[0], a.bk[1], min(2, a.bk[2] + 1)))
            return True
        if k == "call" and m == "write" and "LogFile" in ev.path:
            e = I.canon(st, ev.args[1])
            if a.bk is None or not (e.k == "AGG" and e.a[2] == "Backref" and has(e, lambda t: t is a.bk[0])):
                self.viol(I, st, "log-other", "%s is written to the log while the tasks to run are chosen" % show(e)[:100], ev.cx)
            else:
                st.auto = a.upd(bk=(a.bk[0], min(2, a.bk[1] + 1), a.bk[2]))
                self.count("backrefs")
        return True

    def nodes(self, I, st, ev, g, how):
        a = st.auto
        k = ev.kind
        if k == "item":
            st.auto = a.upd(item=(ev.val, g, how), put=frozenset(), edge=None, downbad=False, downdone=False)
        elif k == "itemout" and how != "graph.items1":
            stages = {x[0] for x in ev.args[0].a[1]} if ev.args[0].k == "ITER" else set()
            if stages & {"filter", "filter_map"}:
                if ev.args[0] and ev.path == "item":
                    st.auto = a.upd(put=a.put | {"node"})
        elif k in ("step", "iterend"):
            self.close(I, st)
            if k == "iterend" and how != "graph.items1":
                stages = {x[0] for x in ev.args[0].a[1]} if ev.args[0].k == "ITER" else set()
                if not stages & {"skip", "take", "skip_while", "take_while", "map_while", "step_by"}:
                    st.auto = st.auto.upd(scanned=st.auto.scanned | {g})
        elif k == "itemdone" and how != "graph.items1":
            self.close(I, st)

    def edges(self, I, st, ev, e):
        base, rev, node, d, y = e
        a = st.auto
        k = ev.kind
        if a.item is None or a.item[2] != "graph.items1" or not has(node, lambda t: t is a.item[0]):
            if not has(node, lambda t: self.is_(t, "target")):
                return
            if k == "item":
                st.auto = a.upd(edge=ev.val)
            elif k in ("step", "iterend") and a.edge is not None:
                st.auto = a = a.upd(rel=a.rel | {"partial"}, edge=None)
            if k == "iterend":
                names = {x[0] for x in ev.args[0].a[1]} if ev.args[0].k == "ITER" else set()
                if not names - {"map", "cloned", "copied", "enumerate", "inspect"}:
                    st.auto = a.upd(rel=a.rel | {"dep"})
            return
        if k == "item":
            st.auto = a.upd(edge=ev.val)
        elif k in ("step", "iterend"):
            self.closeedge(I, st)
            if k == "iterend":
                stages = {x[0] for x in ev.args[0].a[1]} if ev.args[0].k == "ITER" else set()
                up = (d == "Incoming") != rev
                if up and base is a.item[1] and not stages & {"skip", "take", "skip_while", "take_while", "map_while", "step_by"}:
                    st.auto = st.auto.upd(downdone=True)

    def sets(self, I, st, x, want):
        """(contains a set of the kind wanted: True/False/None) for a node or key of the item"""
        out = None
        for k in st.facts:
            if k.k == "CALL" and k.a[0] == "contains" and len(k.a[2]) == 2 and has(k.a[2][1], lambda t: t is x):
                c = self.elemset(I, st, k.a[2][0])
                cl = self.classify(I, st, c)
                if cl == want:
                    out = st.ev(k)
                    if out is not None:
                        return out
        return out

    def graphitem(self, I, st, ev):
        g, idx, w, what = ev.args
        r = ev.val
        vs = {r.a[2]} if r.k == "AGG" else (st.variants(r, OPT) or {"Some", "None"})
        if "filter_map" not in ev.path:
            return
        if what == "edge":
            if "None" in vs:
                self.viol(I, st, "edge-dropped", "an edge between two tasks is left out: the second no longer waits for the first", ev.cx)
            return
        a = st.auto
        x = a.item[0] if a.item else None
        if x is None:
            return
        F = st.facts
        S, D, C_ = self.know(F, x, "has_success"), self.know(F, x, "has_failure"), self.know(F, x, "completed")
        inrel = self.sets(I, st, x, "relevant")
        infail = self.sets(I, st, x, "failures")
        isempty = self.sets(I, st, x, "empty")
        if infail is None and (isempty is not None or "notin" in a.put):
            infail = False
        complete = g in a.scanned and g not in a.incomplete
        edgefail = False
        if a.edge is not None:
            for k in F:
                if k.k == "CALL" and k.a[0] == "contains" and has(k.a[2][1], lambda t: t is a.edge) and self.classify(I, st, self.elemset(I, st, k.a[2][0])) == "failures" and st.ev(k) is True:
                    edgefail = not has(k.a[2][1], lambda t: t.k == "CALL" and t.a[0].split("::")[-1] == "target")
        direct = self.failed(F, x)
        reasons = []
        if inrel is False and {"self", "dep"} <= a.rel and "partial" not in a.rel:
            reasons.append("relevant")
        if S is True:
            reasons.append("success")
        if C_ is True and D is False:
            reasons.append("done")
        if infail is True or direct is True:
            reasons.append("failed")
        if edgefail:
            reasons.append("downstream")
        if "None" in vs:
            if not reasons:
                self.viol(I, st, "dropped", "a task is left out of the run without one of the reasons to skip it", ev.cx)
            elif set(reasons) & {"success", "failed"} and "relevant" not in reasons:
                inserted = "key" in a.put
                if inserted and C_ is not False and not (S and D):
                    self.viol(I, st, "backref-twice", "a task that may have been completed in this session gets a backref", ev.cx)
                elif not inserted and C_ is not True:
                    self.viol(I, st, "no-backref", "a task is skipped because of an earlier session, but is not given a backref: the next session does not know of it", ev.cx)
                else:
                    self.discharge("backref", "exactly for tasks of earlier sessions")
            elif "key" in a.put:
                self.viol(I, st, "backref-wrong", "a task is given a backref that is skipped for another reason (%s)" % reasons, ev.cx)
            for q in reasons:
                self.count("dropped: " + q)
        if "Some" in vs:
            if "key" in a.put:
                self.viol(I, st, "backref-kept", "a task that is run is given a backref", ev.cx)
            pw = I.canon(st, proj(proj(r, ("v", "Some")), ("f", "0", 0)))
            if not has(pw, lambda t: t is x):
                self.viol(I, st, "weight", "a task is replaced by %s" % show(pw)[:80], ev.cx)
            est = set()
            if inrel is True:
                est.add("relevant")
            if S is False:
                est.add("success")
            if C_ is False or D is True:
                est.add("done")
            if infail is False and complete or direct is False:
                est.add("failed")
            if a.downdone and not a.downbad and complete:
                est.add("downstream")
            cur = next((p[1] for p in a.passes if p[0] is g), frozenset(PROPS))
            st.auto = a.upd(passes=frozenset(p for p in a.passes if p[0] is not g) | {(g, cur & frozenset(est))})
            self.count("kept")
        st.auto = st.auto.upd(edge=None)

    def backs(self, I, st, ev):
        """the walk over the keys that get a backref"""
        a = st.auto
        srcs = [x for x in subterms(ev.args[0]) if x.k == "SRC"]
        coll = None
        for s in srcs:
            for y in s.a[1:]:
                if type(y) is V:
                    c = y if y.k == "COLL" else self.elemset(I, st, y) if y.k == "REF" else None
                    if c is not None and all(has(x, lambda t: t.k == "FLD" and t.a[1] == self.key) for x, f in c.a[1]):
                        coll = c
        if coll is None:
            return
        if ev.kind == "item":
            st.auto = a.upd(bk=(ev.val, 0, 0))
            return
        if a.bk is not None:
            if a.bk[1] != 1 or a.bk[2] != 1:
                self.viol(I, st, "backref-count", "a key that is reused gets %d backref entries and is counted as completed %d times" % (a.bk[1], a.bk[2]), ev.cx)
            st.auto = a = a.upd(bk=None)
        if ev.kind == "iterend":
            stages = {x[0] for x in ev.args[0].a[1]} if ev.args[0].k == "ITER" else set()
            if not stages - {"cloned", "copied", "map", "enumerate", "inspect"}:
                st.auto = a.upd(bkdone=True)

    def finish(self, I, out, body):
        for st, v in out:
            cx = I.rootcx(body, 0)
            vs = st.variants(v, RES) or {"Ok", "Err"}
            if "Ok" not in vs:
                continue
            a = st.auto
            g = I.canon(st, proj(proj(v, ("v", "Ok")), ("f", "0", 0)))
            chain = g
            while chain.k == "CALL" and chain.a[0].startswith("petgraph") and chain.a[0].endswith("filter_map"):
                chain = I.canon(st, chain.a[2][0])
            if not self.is_(chain, "deps"):
                self.viol(I, st, "other-graph", "the graph that is run, %s, does not come from the task graph" % show(g)[:100], cx)
                continue
            got = set(next((p[1] for p in a.props if p[0] is g), frozenset()))
            t = self.target(st)
            if t == ("None",):
                got.add("relevant")
            if any(e is TRUE or st.ev(e) is True for e in a.emptyterms) and any(x is g for x in a.scanned) and not any(x is g for x in a.incomplete):
                got |= {"failed", "downstream"}
            for q in PROPS:
                if q not in got:
                    self.viol(I, st, "kept:" + q, "a task may be run although %s" % TEXT[q], cx)
                else:
                    self.discharge("kept:" + q, "no task is run although " + TEXT[q])
            if not a.bkdone:
                self.viol(I, st, "backrefs-not-written", "the run starts without the backrefs of the reused tasks having been written", cx)
            self.count("subgraphs")
        self.rep.take(I, self)


def check(P, rep):
    r = P.by_path("get_subgraph", "execgraph", "fn")
    if len(r) != 1:
        r = [b for b in P.bodies.values() if b.key.startswith("execgraph") and b.kind == "fn" and b.argc >= 5 and b.locals[0][0].k == "adt" and b.locals[0][0].name == "Result" and b.locals[0][0].a[0].name == "Graph"]
    if len(r) != 1:
        raise AnchorError("get_subgraph")
    s = Sub(P, rep, r[0])
    out = s.start(r[0])
    s.finish(s.I, out, r[0])
    for q in PROPS:
        rep.floor("dropped: " + q, s.n.get("dropped: " + q, 0), 1)
    for q in ("kept", "backrefs", "subgraphs", "graphs filtered"):
        rep.floor(q, s.n.get(q, 0), 1)
