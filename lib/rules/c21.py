"""C21: a log's entries are sorted into the current and the outdated ones correctly."""
from frame import *
from scan import *
import absint
from absint import call, discr
from models import payload
RULE = ("LogFileSnapshotReader::read_current_and_outdated, every path of its walk over the entries from the last one back: each entry is put into one of two lists once, or (a Backref of the last session) into the set of keys that are looked for. "
        "Up to the last Header, which ends the last session, all other entries are current and so is that Header, as the first one. Before it a Ready, Started or Finished entry is current exactly if its key is looked for, and the Ready entry ends the search for its key; "
        "everything else is outdated. The first list is returned in the log's order and whole, the second in the log's order without exactly the entries whose key one of the first list has. "
        "LogFileSnapshotReader::read: from the start of the file, each line is parsed once and each parsed entry is in the result once, in order; only a line that does not parse is left out, and Ok means that the end was reached.")
ASSUME = ["HashSet behaves as a set", "read_line gives 0 at the end of the file only"]
KEYED = ("contains", "remove", "take", "get", "contains_key")


def last(t):
    return t.a[0].split("::")[-1]


class Snap(Base):
    """auto: phase, the walk is over, entry under way, what was done with it, answers about its key, list of the last session, other list, set of keys looked for, Header put, no key is looked for, keys of the current entries, reversals, entry under way in a later loop over a list, the same for the keys"""
    opaque = ("LogFileSnapshotReader::read",)
    F = ("phase", "over", "item", "done", "mem", "cur", "out", "keys", "hput", "none", "asked", "revs", "sec", "ask", "noks")

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.E = adt(prog, "LogEntry")
        self.ep = self.E["def"].npath
        self.n = {}
        self.J = None

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def init(self):
        return (1, False, None, (), (), None, None, None, False, False, None, frozenset(), None, None, False)

    def g(self, st, k):
        return st.auto[self.F.index(k)]

    def put(self, st, **kw):
        a = list(st.auto)
        for k, v in kw.items():
            a[self.F.index(k)] = v
        st.auto = tuple(a)

    def part(self, st):
        if self.J is not None:
            self.spent(self.J, st)
        a = st.auto
        it = self.g(st, "item")
        return (a[0], a[1], a[3], tuple((m, r, st.ev(v)) for m, r, v in a[4]), a[5:12], a[12] and a[12][:2] + tuple(st.ev(v) for v in a[12][2]) + a[12][3:], a[13], st.variants(it, self.ep) if it is not None else None)

    def keepfact(self, st, k):
        return True

    # ------------------------------------------------------------ recognisers
    def srcs(self, I, st, it):
        for x in subterms(it):
            if x.k == "SRC":
                for y in x.a[1:]:
                    if type(y) is V:
                        z = I.canon(st, y)
                        n = 4
                        while z.k == "REF" and n:
                            z = I.canon(st, st.load(z))
                            n -= 1
                        yield z

    def main(self, I, st, it):
        return any(z.k != "COLL" and has(z, lambda t: iscall(t, "LogFileSnapshotReader::read")) for z in self.srcs(I, st, it))

    def lists(self, I, st, it):
        """it iterates over a list that was made before"""
        return [z for z in self.srcs(I, st, it) if z.k == "COLL"]

    def root(self, I, st, v):
        n = 4
        while v.k == "REF" and n:
            w = st.load(v)
            if w.k != "REF":
                return v
            v = w
            n -= 1
        return v

    def keyof(self, I, st, v, item):
        """v is the key of the entry"""
        n = 4
        while v.k == "REF" and n:
            v = st.load(v)
            n -= 1
        v = peel(I.canon(st, v))
        while v.k == "CALL" and last(v) in ("clone", "to_owned", "to_string", "as_str", "deref", "as_ref", "borrow", "into") and v.a[2]:
            v = peel(I.canon(st, v.a[2][0]))
            if v.k == "REF":
                v = peel(I.canon(st, st.load(v)))
        return v.k in ("FLD", "VF") and v.a[-1] == "key" and item is not None and has(v, lambda t: t is item)

    # ------------------------------------------------------------ the walk
    def close(self, I, st, cx):
        it = self.g(st, "item")
        if it is None:
            return
        vs = st.variants(it, self.ep) or frozenset(v["name"] for v in self.E["variants"])
        done, mem, ph = self.g(st, "done"), self.g(st, "mem"), self.g(st, "phase")
        cur, keys = self.g(st, "cur"), self.g(st, "keys")
        puts = [d for d in done if d[0] == "put"]
        kins = [d for d in done if d[0] == "key"]
        rem = [d for d in done if d[0] == "removed"]
        hd = [d for d in done if d[0] == "kept"]
        self.see("phase %d" % ph)
        if ph == 1:
            if "Header" in vs:
                if vs != frozenset(["Header"]):
                    self.viol(I, st, "last-session", "an entry that may be a Header or a %s is handled without a distinction" % "/".join(sorted(vs - {"Header"})), cx)
                elif kins or rem or len(puts) > 1:
                    self.viol(I, st, "header", "the last Header is %s" % ("put into a list twice" if len(puts) > 1 else "treated as a backref"), cx)
                else:
                    self.see("header")
                # it is put later, unless done already
                self.put(st, phase=2, hput="yes" if puts else "due")
                if puts:
                    self.put(st, hput=("at", puts[0][1]))
                self.header = it
            elif vs == frozenset(["Backref"]):
                if puts or len(kins) != 1:
                    self.viol(I, st, "backref", "a Backref of the last session is %s" % ("put into a list" if puts else "not looked for" if not kins else "looked for twice"), cx)
                else:
                    self.discharge("backref", "looked for once, in no list")
                    if keys is None:
                        self.put(st, keys=kins[0][1])
                    elif keys is not kins[0][1]:
                        self.viol(I, st, "backref", "the Backrefs of the last session are collected in different sets", cx)
            elif "Backref" in vs:
                self.viol(I, st, "last-session", "an entry that may be a Backref or a %s is handled without a distinction" % "/".join(sorted(vs - {"Backref"})), cx)
            else:
                if len(puts) != 1 or kins:
                    self.viol(I, st, "last-session", "a %s entry of the last session is %s" % ("/".join(sorted(vs)), "left out" if not puts else "put into a list twice" if len(puts) > 1 else "treated as a backref"), cx)
                else:
                    self.listed(I, st, "cur", puts[0][1], cx)
        else:
            if kins:
                self.viol(I, st, "older-backref", "a key of an earlier session is looked for", cx)
            if len(puts) != 1:
                self.viol(I, st, "older", "a %s entry of an earlier session is %s" % ("/".join(sorted(vs)), "left out" if not puts else "put into a list twice"), cx)
            else:
                y, n = self.known(st)
                yes = y or puts[0][2]
                no = not yes and (n or puts[0][3] or self.nothing(I, st))
                runs = vs <= {"Ready", "Started", "Finished"}
                if not (vs & {"Ready", "Started", "Finished"}):
                    self.listed(I, st, "out", puts[0][1], cx)
                elif no and not yes:
                    self.listed(I, st, "out", puts[0][1], cx)
                elif yes and runs:
                    self.listed(I, st, "cur", puts[0][1], cx)
                    r = bool(rem) or any(m in ("remove", "take") for m, q, v in mem)
                    if vs == frozenset(["Ready"]) and not r:
                        self.viol(I, st, "search-end", "the Ready entry of a key that is looked for does not end the search, so that an earlier run of it is current as well", cx)
                    elif "Ready" not in vs and r:
                        self.viol(I, st, "search-end", "a %s entry ends the search for its key, so that the rest of its run is outdated" % "/".join(sorted(vs)), cx)
                    elif "Ready" in vs and vs != frozenset(["Ready"]):
                        self.viol(I, st, "search-end", "the Ready entry of a key is not told apart", cx)
                    else:
                        self.discharge("search-end", "with the Ready entry")
                else:
                    self.viol(I, st, "older", "a %s entry of an earlier session is put into a list without knowing whether its key is looked for" % "/".join(sorted(vs)), cx)
        self.put(st, item=None, done=(), mem=())

    def known(self, st):
        """the key of the entry under way is looked for / is not"""
        keys = self.g(st, "keys")
        a = [st.ev(v) for m, r, v in self.g(st, "mem") if keys is None or r is keys]
        return any(x is True for x in a), any(x is False for x in a)

    def nothing(self, I, st):
        """no key is looked for any more"""
        keys = self.g(st, "keys")
        if self.g(st, "none"):
            return True
        if keys is None:
            # the last session has no Backref
            return self.g(st, "phase") == 2
        v = st.load(keys) if keys.k == "REF" else keys
        if v.k == "COLL" and not v.a[1]:
            return True
        v = I.canon(st, v)
        for k, f in st.facts.items():
            if f == ("in", frozenset([0])) and self.size(k) is v:
                return True
            if k.k == "OP" and k.a[0] in ("Eq", "Ne", "Lt", "Gt") and C(0) in k.a[1:] and has(k, lambda t: (t.k == "OP" and t.a[0] == "len" or t.k == "CALL" and last(t) == "len") and has(t, lambda u: u is v)):
                if st.ev(k) is (k.a[0] == "Eq"):
                    return True
        return False

    def size(self, k):
        """what k is the length of"""
        if k.k == "OP" and k.a[0] == "len":
            return k.a[1]
        if k.k == "CALL" and last(k) == "len" and k.a[2]:
            return k.a[2][0]
        return None

    def listed(self, I, st, which, r, cx):
        x = self.g(st, which)
        other = self.g(st, "out" if which == "cur" else "cur")
        name = "current" if which == "cur" else "outdated"
        if r is other:
            self.viol(I, st, "list-" + which, "an entry that is %s is put into the other list" % name, cx)
        elif x is not None and x is not r:
            self.viol(I, st, "list-" + which, "%s entries are put into different lists" % name, cx)
        else:
            self.put(st, **{which: r})
            self.discharge("list-" + which, "all into the same list")
            if which == "cur" and self.g(st, "hput") not in (False, "due"):
                self.viol(I, st, "header-first", "entries are put after the Header, so that it is not the first", cx)

    def on(self, I, st, ev):
        if self.act(I, st, ev) is False:
            return False
        self.spent(I, st)
        return True

    def spent(self, I, st):
        if self.g(st, "phase") == 2 and not self.g(st, "none") and self.nothing(I, st):
            self.put(st, none=True)

    def act(self, I, st, ev):
        self.J = I
        self.spent(I, st)
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        if k in ("item", "step", "iterend", "itemdone") and ev.args and ev.args[0].k == "ITER" and self.main(I, st, ev.args[0]):
            self.close(I, st, ev.cx)
            if k == "iterend":
                self.put(st, over=True)
            elif k == "item":
                if self.g(st, "over"):
                    return False
                rev = sum(1 for x in ev.args[0].a[1] if x[0] == "rev") % 2
                if {x[0] for x in ev.args[0].a[1]} - KEEPS - {"rev"}:
                    self.viol(I, st, "walk", "the walk over the entries leaves some out (%s)" % show(ev.args[0])[:60], ev.cx)
                if rev != 1:
                    self.viol(I, st, "walk", "the entries are not walked from the last one back", ev.cx)
                # entries of the last session and earlier ones get terms of their own
                ev.val = call("item:%d" % self.g(st, "phase"), ev.cx.site)
                st.kill(ev.val)
                self.put(st, item=ev.val, revs=self.g(st, "revs") | {("walk", None, rev, None)})
                self.see("entries")
            return True
        if k in ("item", "step", "iterend", "itemdone") and ev.args and ev.args[0].k == "ITER":
            if self.later(I, st, ev) is False:
                return False
        it = self.g(st, "item")
        if k == "collect":
            d = ev.args[0]
            v = I.canon(st, ev.val)
            w = st.load(v) if v.k == "REF" else v
            if d.k == "REF" and self.g(st, "hput") == "due" and iscall(w, "item:1"):
                self.hdr(I, st, self.root(I, st, d), ev.cx)
            elif d.k == "REF" and it is not None:
                r = self.root(I, st, d)
                if w is it:
                    self.put(st, done=self.g(st, "done")[:3] + (("put", r) + self.known(st),))
                elif self.keyof(I, st, v, it):
                    self.put(st, done=self.g(st, "done")[:3] + (("key", r),))
            self.second(I, st, ev, d, v, w)
        elif k == "ret" and m in KEYED and len(ev.args) >= 2 and it is not None and ev.args[0].k == "REF":
            if self.keyof(I, st, ev.args[1], it):
                r = self.root(I, st, ev.args[0])
                self.put(st, mem=self.g(st, "mem")[:3] + ((m, r, ev.val),))
        if k == "ret" and m in KEYED and len(ev.args) >= 2 and self.g(st, "sec") is not None and ev.args[0].k == "REF":
            x = self.g(st, "sec")
            if self.keyof(I, st, ev.args[1], x[1]):
                r = self.root(I, st, ev.args[0])
                a = self.g(st, "asked")
                if a is None or not (r is a or st.load(r) is a):
                    self.viol(I, st, "filter-set", "outdated entries are left out by something else than the keys of the current ones", ev.cx)
                if ev.val is C(False):
                    self.put(st, noks=True)
                self.put(st, sec=x[:2] + (x[2][:3] + (ev.val,),) + x[3:])
        elif k == "ret" and m == "reverse" and ev.args and ev.args[0].k == "REF" and self.g(st, "phase") == 2:
            self.put(st, revs=self.g(st, "revs") | {(self.cls(st.load(self.root(I, st, ev.args[0]))), ev.cx.site, 1, None)})
        elif k == "ret" and m in ("collect", "from_iter") and ev.val.k == "COLL" and self.g(st, "ask") == "done":
            self.put(st, asked=ev.val, ask=None)
        return True

    def hdr(self, I, st, r, cx):
        if self.g(st, "item") is not None and any(d[0] == "put" for d in self.g(st, "done")):
            self.close(I, st, cx)
        if r is not self.g(st, "cur") and self.g(st, "cur") is not None or r is self.g(st, "out"):
            self.viol(I, st, "header", "the last Header is put into another list than the entries of its session", cx)
        self.put(st, hput=("at", r), cur=r)

    # ------------------------------------------------------------ what is done with the lists
    def entry(self, w):
        return w.k == "CALL" and w.a[0] in ("item:1", "item:2")

    def cls(self, z):
        """on paths with an earlier session only the current list has an entry of the last one (its Header)"""
        return "current" if any(has(x, lambda t: self.entry(t) and t.a[0] == "item:1") for x, f in z.a[1]) else "outdated"

    def later(self, I, st, ev):
        """iteration over a list"""
        self.endsec(I, st, ev.cx)
        self.endask(I, st, ev.cx)
        z = [z for z in self.lists(I, st, ev.args[0]) if any(has(x, self.entry) for x, f in z.a[1])]
        if not z or self.g(st, "phase") != 2:
            return True
        c = self.cls(z[0])
        names = {x[0] for x in ev.args[0].a[1]}
        if ev.kind == "iterend":
            if c == "current":
                # it has the Header at least
                if self.g(st, "ask") == "some":
                    self.put(st, ask="done")
                elif not any(x[:2] == (c, ev.cx.site) and x[3] == "item:1" for x in self.g(st, "revs")) and self.g(st, "ask") is None:
                    return False
            return True
        if ev.kind != "item":
            return True
        if names - KEEPS - {"rev", "filter", "filter_map"}:
            self.viol(I, st, "whole", "a part of the %s entries is left out (%s)" % (c, ", ".join(sorted(names - KEEPS))), ev.cx)
        v = ev.val
        if self.entry(v):
            self.put(st, sec=(c, v, (), False), revs=self.g(st, "revs") | {(c, ev.cx.site, sum(1 for x in ev.args[0].a[1] if x[0] == "rev") % 2, v.a[0])})
            self.see("elements")
        elif v.k == "REF" and c == "current":
            self.put(st, ask=(v, False))
        return True

    def second(self, I, st, ev, d, v, w):
        x = self.g(st, "sec")
        if x is not None and w is x[1]:
            self.put(st, sec=x[:3] + (True,))
        a = self.g(st, "ask")
        if type(a) is tuple:
            e = st.load(a[0])
            if self.keyof(I, st, v, e) or v.k == "REF" and v.a[0] is a[0].a[0] and v.a[1] and v.a[1][-1][1] == "key":
                self.put(st, ask=(a[0], True))
                if d.k == "REF":
                    self.put(st, asked=self.root(I, st, d))
                self.see("keys of current entries")

    def endsec(self, I, st, cx):
        x = self.g(st, "sec")
        if x is None:
            return
        if not x[3]:
            if x[0] == "current":
                self.viol(I, st, "whole", "a current entry is left out", cx)
            elif not any(st.ev(v) is True for v in x[2]):
                self.viol(I, st, "whole", "an outdated entry is left out although its key may not be the key of a current one", cx)
            else:
                self.discharge("filter", "only entries whose key a current one has")
        self.put(st, sec=None)

    def endask(self, I, st, cx):
        a = self.g(st, "ask")
        if type(a) is not tuple:
            return
        vs = st.variants(I.canon(st, st.load(a[0])), self.ep)
        if not a[1] and vs != frozenset(["Header"]):
            self.viol(I, st, "current-keys", "the key of a current %s entry is left out of those that are kept from the outdated ones" % "/".join(sorted(vs or ["?"])), cx)
        self.put(st, ask="some")

    # ------------------------------------------------------------ the result
    def result(self, st, v, cx):
        I = self.I
        v = I.canon(st, v)
        vs = st.variants(v, RES)
        if vs == frozenset(["Err"]):
            return
        t = I.canon(st, payload(v, "Ok"))
        if t.k != "AGG" or len(t.a[4]) != 2 or any(x.k != "COLL" for x in t.a[4]):
            self.viol(I, st, "result", "what is returned are not the two lists (%s)" % show(v)[:60], cx)
            return
        self.see("results")
        self.close(I, st, cx)
        if not self.g(st, "over"):
            self.viol(I, st, "walk-end", "the walk over the entries ends before the first one", cx)
        cur, out = t.a[4]
        for name, L, bad in (("current", cur, None), ("outdated", out, "item:1")):
            for x, f in L.a[1]:
                if not self.entry(x):
                    self.viol(I, st, "result", "%s is among the %s entries" % (show(x)[:60], name), cx)
        if self.g(st, "phase") == 1:
            if out.a[1]:
                self.viol(I, st, "result", "entries of the only session are outdated", cx)
            return
        h = self.g(st, "hput")
        if h == "due":
            self.viol(I, st, "header", "the last Header is in none of the lists", cx)
            return
        if any(x.a[0] == "item:1" for x, f in out.a[1]) or not any(x.a[0] == "item:1" for x, f in cur.a[1]):
            self.viol(I, st, "result", "the two lists are not the current and the outdated entries", cx)
        for name, L in (("current", cur), ("outdated", out)):
            if L.a[1]:
                r = self.g(st, "revs")
                if sum(x[2] for x in {y[:3] for y in r} if x[0] in ("walk", name)) % 2:
                    self.viol(I, st, "order", "the %s entries are returned in reverse order" % name, cx)
                else:
                    self.discharge("order:" + name, "in the log's order")
        for x, f in out.a[1]:
            f = dict(f)
            vs = f.get(discr(x, self.ep))
            if vs is not None and vs[0] == "in" and vs[1] == frozenset(["Header"]):
                continue
            if not self.g(st, "noks") and not any(k.k == "CALL" and last(k) in KEYED and len(k.a[2]) == 2 and self.keyof(I, st, k.a[2][1], x) and not self.looked(k) and b == ("in", frozenset([False])) for k, b in f.items()):
                self.viol(I, st, "filter", "an entry that is not a Header is outdated although it is not known that no current entry has its key", cx)
            else:
                self.discharge("filter", "outdated only if no current entry has the key")

    def looked(self, k):
        """the answer is about the keys that were looked for"""
        return any(k.a[2][0] is x for x in self.keysets)


class Reads(Base):
    """auto: (the line's buffer is empty, result of the last read, of its parse, times pushed)"""
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.n = {}

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def init(self):
        return (True, None, None, 0, False)

    def part(self, st):
        c, r, p, n, s = st.auto
        return (c, r is not None, p is not None and st.variants(p, RES), n, s)

    def keepfact(self, st, k):
        c, r, p, n, s = st.auto
        return any(x is not None and has(k, lambda t: t is x) for x in (r, p))

    def end(self, I, st, cx):
        c, r, p, n, s = st.auto
        if r is None:
            return
        if p is None:
            self.viol(I, st, "unparsed", "a line is read and not looked at", cx)
            return
        vs = st.variants(p, RES)
        if vs is None or "Ok" in vs:
            if n != 1:
                self.viol(I, st, "unlisted", "an entry that was read may be put into the result %d times" % n, cx)
            else:
                self.discharge("listed", "each entry once")

    def on(self, I, st, ev):
        k = ev.kind
        m = ev.path.split("::")[-1] if ev.path else None
        c, r, p, n, s = st.auto
        if k == "ret" and m == "seek":
            v = I.canon(st, ev.args[1])
            st.auto = (c, r, p, n, v.k == "AGG" and v.a[2] == "Start" and v.a[4][0] is C(0))
        elif k == "ret" and m == "rewind":
            st.auto = (c, r, p, n, True)
        elif k == "ret" and m == "clear" or k == "ret" and m == "new" and "String" in ev.path:
            self.end(I, st, ev.cx)
            st.auto = (True, None, None, 0, s)
        elif k == "ret" and m == "read_line":
            self.end(I, st, ev.cx)
            if not c:
                self.viol(I, st, "line", "a line is read behind the one before", ev.cx)
            if not s:
                self.viol(I, st, "start", "lines are read from somewhere else than the start of the file", ev.cx)
            st.kill(ev.val)
            st.auto = (False, ev.val, None, 0, s)
            self.see("reads")
        elif k == "item" and has(ev.args[0], lambda t: t.k == "CALL" and last(t) == "lines"):
            if not whole(ev.args[0]):
                self.viol(I, st, "lines", "not every line is looked at", ev.cx)
            st.auto = (True, ev.val, None, 0, s)
            self.see("reads")
        elif k in ("step", "iterend") and has(ev.args[0], lambda t: t.k == "CALL" and last(t) == "lines"):
            self.end(I, st, ev.cx)
            st.auto = (True, mk("CALL", "end", None, ()), None, 1, s) if k == "iterend" else (True, None, None, 0, s)
        elif k == "ret" and m in ("from_str", "from_slice", "from_reader") and "serde_json" in ev.path:
            st.kill(ev.val)
            if p is not None:
                self.viol(I, st, "unparsed", "a line is parsed twice", ev.cx)
            st.auto = (c, r, ev.val, n, s)
            self.see("parsed")
        elif k == "collect" and p is not None and has(I.canon(st, ev.val), lambda t: t is p):
            st.auto = (c, r, p, min(n + 1, 2), s)
        return True

    def done(self, out, body):
        cx = self.I.rootcx(body, 0)
        for st, v in out:
            v = self.I.canon(st, v)
            if st.variants(v, RES) == frozenset(["Err"]):
                continue
            c, r, p, n, s = st.auto
            self.see("results")
            if r is None:
                self.viol(self.I, st, "end", "Ok is returned before the end of the file was seen", cx)
                continue
            if not iscall(r, "end"):
                z = payload(r, "Ok")
                if not (z in st.facts and st.facts[z] == ("in", frozenset([0])) or any(st.ev(op("Eq", z, C(0))) is True for _ in (1,))):
                    self.viol(self.I, st, "end", "Ok is returned before the end of the file was seen", cx)
                    continue
            self.discharge("end", "Ok only at the end of the file")


def check(P, rep):
    E = P.fn("LogFileSnapshotReader::read_current_and_outdated", "execgraph")
    absint.MAXELEMS = 48
    g = Snap(P, rep)
    out = g.start(E)
    cx = g.I.rootcx(E, 0)
    g.keysets = {g.g(st, "keys") for st, v in out if g.g(st, "keys") is not None}
    for st, v in out:
        g.result(st, v, cx)
    rep.take(g.I, g)
    for k in ("phase 1", "phase 2", "header", "elements", "keys of current entries", "results"):
        rep.floor(k, g.n.get(k, 0), 1)
    R = P.fn("LogFileSnapshotReader::read", "execgraph")
    r = Reads(P, rep)
    out = r.start(R)
    r.done(out, R)
    rep.take(r.I, r)
    for k in ("reads", "parsed", "results"):
        rep.floor("read: " + k, r.n.get(k, 0), 1)
