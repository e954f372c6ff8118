"""Syntactic queries over the resolved MIR: which bodies build, borrow or assign what."""
from mir import AnchorError


def placetypes(prog, body, place):
    """-> list of (type of the base, field name) for each field projection of a place"""
    local, path, _ = place
    t = body.locals[local][0]
    out = []
    var = None
    for el in path:
        if t is None:
            break
        if el == "*":
            t = t.a[0] if t.a else None
            continue
        if el[0] == "v":
            var = el[1]
            continue
        if el[0] == "f":
            if t.k == "adt":
                out.append((t, el[1]))
                a = prog.adts.get(t.d.key)
                nt = None
                if a is not None:
                    for v in a["variants"]:
                        if var is None or v["name"] == var:
                            for f in v["fields"]:
                                if f["name"] == el[1]:
                                    nt = f["ty"]
                elif t.name in ("Option", "Result", "Box", "Poll", "Arc") and t.a:
                    nt = t.a[1] if var == "Err" and len(t.a) > 1 else t.a[0]
                if nt is not None and nt.k == "param" and t.a:
                    nt = t.a[0]
                t = nt
            elif t.k in ("closure", "coroutine"):
                i = el[2]
                t = t.up[i] if t.up and i is not None and i < len(t.up) else None
            elif t.k == "tuple":
                i = el[2]
                t = t.a[i] if i is not None and i < len(t.a) else None
            else:
                t = None
            var = None
            continue
        if el[0] in ("i", "ci"):
            t = t.a[0] if t.a else None
            continue
        t = None
    return out


def derived(prog, body):
    return body.key in prog.derived


def builders(prog, adtpath, variant=None):
    """bodies with an aggregate expression of the type: [(body, span)]"""
    out = []
    for b in prog.bodies.values():
        if derived(prog, b):
            continue
        for bl in b.blocks:
            for s in bl.s:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].npath == adtpath:
                    if variant is None or s[2][1][2] == variant:
                        out.append((b, s[3]))
    return out


def field_writers(prog, adtpath, fields, borrow=True):
    """bodies that assign one of the fields or take &mut of a place through it: [(body, span, field)]"""
    out = []
    for b in prog.bodies.values():
        if derived(prog, b):
            continue
        for bl in b.blocks:
            for s in bl.s:
                if s[0] != "=":
                    continue
                for (t, f) in placetypes(prog, b, s[1]):
                    if t.path == adtpath and f in fields:
                        out.append((b, s[3], f))
                r = s[2]
                if borrow and r[0] == "ref" and r[1] not in ("shared", "fake"):
                    for (t, f) in placetypes(prog, b, r[2]):
                        if t.path == adtpath and f in fields:
                            out.append((b, s[3], f))
            t = bl.t
            if t[0] == "call":
                for (ty, f) in placetypes(prog, b, t[3]):
                    if ty.path == adtpath and f in fields:
                        out.append((b, t[5], f))
    return out


def calls(prog, pred, crate=None):
    """call sites whose (declared or resolved) callee path satisfies pred: [(body, span, path, term)]"""
    out = []
    for b in prog.bodies.values():
        if crate and not b.key.startswith(crate + "::"):
            continue
        for bl in b.blocks:
            t = bl.t
            if t[0] == "call" and t[1][0] == "fn":
                d, r, rk, ga = t[1][1]
                if pred(d.npath) or (r is not None and pred(r.npath)):
                    out.append((b, t[5], d.npath, t))
    return out


def fn_mentions(prog, path):
    """bodies that mention a local function as a value or call it"""
    out = []
    for b in prog.bodies.values():
        for bl in b.blocks:
            t = bl.t
            ops = []
            if t[0] == "call":
                ops = [t[1]] + list(t[2])
            for s in bl.s:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("use", "cast"):
                        ops.append(r[1] if r[0] == "use" else r[2])
                    elif r[0] == "agg":
                        ops += list(r[2])
            for o in ops:
                if o[0] == "fn" and (o[1][0].npath == path or o[1][0].npath.endswith("::" + path)):
                    out.append(b)
    return out


def enclosing_fn(prog, body):
    """the named function a closure or coroutine body belongs to"""
    k = body.key
    while "::{" in k.rsplit("::", 1)[-1] or k.rsplit("::", 1)[-1].startswith("{"):
        k = k.rsplit("::", 1)[0]
        if k in prog.bodies and prog.bodies[k].kind == "fn":
            return prog.bodies[k]
        if not k:
            return body
    return prog.bodies.get(k, body)
