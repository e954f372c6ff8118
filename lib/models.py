"""Abstract transformers for library functions the analysed code uses.

A handler gets (I, st, args, cx) and returns [(state, value)], or None to fall back to an opaque result.
Only functions whose meaning matters for the provenance domain are modelled; everything else is opaque
(a fresh unknown value), which is the conservative default.
"""
from absint import (C, V, mk, call, op, neg, discr, some, NONE, ok, err, ready, enum, tup, isagg, proj, mkcoll, join,
                    UNIT, TRUE, FALSE, MOVED, BOTTOM, OPT, RES, POLL, CF, EMPTY, DOMAINS, Ev, State, FORCE_MODEL)

MODELS = {}
PREFIX = []
FUTURES = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def future(*names):
    def deco(f):
        for n in names:
            FUTURES[n] = f
        return f
    return deco


def one(st, v):
    return [(st, v)]


# ------------------------------------------------------------------ helpers
def split(st, v, ename):
    """case split an enum value on its variant -> [(state, variant, value)]"""
    if v.k == "AGG" and v.a[0] == "enum":
        return [(st, v.a[2], v)]
    if v.k == "BOTTOM":
        return []
    vs = st.variants(v, ename)
    if vs is None:
        return [(st, None, v)]
    out = []
    d = discr(v, ename)
    for n in sorted(vs):
        s = st.copy() if len(vs) > 1 else st
        if s.restrict(d, [n], True):
            out.append((s, n, v))
    return out


def payload(v, var, i=0):
    return proj(proj(v, ("v", var)), ("f", str(i), i))


def ptr_payload(st, p, var):
    """pointer to the payload of the enum behind pointer p"""
    root, path = st.target(p)
    return mk("REF", root, path + (("v", var), ("f", "0", 0)))


def argty(cx, i):
    return cx.atys[i] if i < len(cx.atys) else None


POINTERS = ("Arc", "Rc", "Box", "RefMut", "Ref", "RefMulti", "RefMutMulti", "MutexGuard", "RwLockReadGuard", "RwLockWriteGuard",
            "Pin", "Lazy", "Cow", "ManuallyDrop", "PyRef", "PyRefMut")


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::pin::Pin::as_mut", "std::pin::Pin::as_ref")
def m_deref(I, st, args, cx):
    p = args[0]
    ty = argty(cx, 0)
    inner = ty.a[0] if ty is not None and ty.k == "ref" and ty.a else None
    if inner is not None and inner.k == "adt" and inner.name in POINTERS:
        v = st.load(p)
        if v.k in ("REF",):
            return one(st, v)
        if v.k in ("AGG", "COLL", "C", "UPD"):
            return one(st, p)
        return one(st, v)
    return one(st, p)


@model("std::pin::Pin::new", "std::pin::Pin::new_unchecked", "std::pin::Pin::get_mut", "std::pin::Pin::into_inner",
       "std::pin::Pin::get_unchecked_mut", "std::pin::pin_new_unchecked_in_helper",
       "std::future::IntoFuture::into_future", "std::hint::must_use", "anyhow::__private::must_use",
       "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
       "std::iter::Iterator::by_ref", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
       "std::string::String::as_str", "std::string::String::as_bytes", "core::str::as_bytes", "std::string::String::as_mut_str",
       "std::boxed::Box::from_raw", "std::mem::ManuallyDrop::new", "std::convert::identity",
       "std::path::Path::as_os_str", "std::path::Path::new", "std::ffi::OsStr::new",
       "std::vec::Vec::into_boxed_slice", "std::intrinsics::transmute", "std::mem::transmute",
       "tracing::Instrument::instrument", "tracing::Instrument::in_current_span", "tracing::Instrument::or_current",
       "dashmap::mapref::one::Ref::value", "dashmap::mapref::one::RefMut::value", "dashmap::mapref::one::RefMut::value_mut",
       "dashmap::mapref::multiple::RefMulti::value", "dashmap::mapref::multiple::RefMutMulti::value",
       "dashmap::mapref::multiple::RefMutMulti::value_mut", "std::boxed::Box::into_pin", "std::boxed::Box::leak",
       "tokio::task::unconstrained")
def m_identity(I, st, args, cx):
    v = args[0]
    if cx.dty is not None and cx.dty.k not in ("ref", "ptr") and cx.trait is None and v.k == "REF" and cx.resdef is not None:
        pass
    return one(st, v)


@model("dashmap::mapref::one::RefMut::value", "dashmap::mapref::one::Ref::value", "dashmap::mapref::one::RefMut::value_mut",
       "dashmap::mapref::multiple::RefMulti::value", "dashmap::mapref::multiple::RefMutMulti::value_mut",
       "dashmap::mapref::multiple::RefMutMulti::value")
def m_refvalue(I, st, args, cx):
    return one(st, st.load(args[0]))


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::string::ToString::to_string", "core::clone::Clone::clone",
       "std::path::Path::to_path_buf", "std::slice::to_vec", "std::ffi::OsStr::to_os_string", "std::slice::into_vec",
       "std::sync::Arc::clone", "std::rc::Rc::clone", "std::option::Option::cloned", "std::option::Option::copied")
def m_clone(I, st, args, cx):
    p = args[0]
    ty = argty(cx, 0)
    path = cx.calleepath
    if path.endswith("Option::cloned") or path.endswith("Option::copied"):
        out = []
        for s, n, v in split(st, p, OPT):
            out.append((s, some(s.load(payload(v, "Some")))) if n == "Some" else (s, NONE))
        return out
    if path.endswith("::to_string"):
        inner = ty.a[0] if ty is not None and ty.k == "ref" else None
        if inner is not None and not (inner.k == "str" or (inner.k == "adt" and inner.name in ("String", "Cow"))):
            return None
    v = st.load(p) if p.k != "C" else p
    if v.k in ("MOVED", "UNINIT"):
        return None
    return one(st, v)


@model("std::convert::Into::into", "std::convert::From::from")
def m_into(I, st, args, cx):
    v = args[0]
    src, dst = argty(cx, 0), cx.dty
    if src is None or dst is None:
        return None
    if src.s == dst.s:
        return one(st, v)
    if dst.k == "adt" and dst.name == "Box" and dst.a:
        return m_boxnew(I, st, args, cx)
    if dst.k in ("uint", "int", "float") and src.k in ("uint", "int", "bool"):
        return one(st, v)
    if dst.k == "adt" and dst.name in ("String", "PathBuf", "OsString", "Vec"):
        return one(st, I.canon(st, v))
    if dst.k == "adt" and dst.name == "Option":
        return one(st, some(v))
    return None


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def m_tryinto(I, st, args, cx):
    src = argty(cx, 0)
    if src is not None and src.k in ("uint", "int"):
        # the numeric value is unchanged when the conversion succeeds
        c = I.fresh(st, "try_into", cx, args[0])
        s1, s2 = st.copy(), st.copy()
        out = []
        out.append((s1, ok(args[0])))
        out.append((s2, err(c)))
        return out
    if src is not None and src.k == "adt":
        c = I.fresh(st, "try_into", cx, args[0])
        return [(st.copy(), ok(args[0])), (st.copy(), err(c))]
    return None


@model("std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new", "std::boxed::Box::pin", "std::sync::Arc::pin")
def m_boxnew(I, st, args, cx):
    root = mk("ALLOC", cx.site, "box")
    st.mem[root] = args[0]
    return one(st, mk("REF", root, ()))


# -- tracing is inert: events and spans have no effect on the analysed state
@model("tracing::Span::is_disabled")
def m_true(I, st, args, cx):
    return one(st, TRUE)


@model("tracing::subscriber::Interest::is_never", "tracing::__macro_support::__is_enabled", "tracing::dispatcher::has_been_set")
def m_false(I, st, args, cx):
    return one(st, FALSE)


# -- comparisons
def numeric(ty):
    t = ty
    n = 4
    while t is not None and t.k == "ref" and n:
        t = t.a[0]
        n -= 1
    return t is not None and t.k == "uint"


def cmpmodel(name, o):
    def f(I, st, args, cx):
        ty = argty(cx, 0)
        s = ty.s if ty is not None else ""
        a, b = I.canon(st, args[0]), I.canon(st, args[1])
        if "tracing::Level" in s or "LevelFilter" in s or any(x.k == "AGG" and "LevelFilter" in str(x.a[1]) for x in (a, b)):
            return one(st, FALSE)
        return one(st, op(o, a, b, numeric(ty)))
    MODELS[name] = f
    FORCE_DERIVED.add(name)


FORCE_DERIVED = {"std::clone::Clone::clone"}
for _n, _o in (("std::cmp::PartialEq::eq", "Eq"), ("std::cmp::PartialEq::ne", "Ne"), ("std::cmp::PartialOrd::lt", "Lt"),
               ("std::cmp::PartialOrd::le", "Le"), ("std::cmp::PartialOrd::gt", "Gt"), ("std::cmp::PartialOrd::ge", "Ge")):
    cmpmodel(_n, _o)


@model("std::intrinsics::discriminant_value", "std::mem::discriminant")
def m_discr(I, st, args, cx):
    t = argty(cx, 0)
    while t is not None and t.k == "ref":
        t = t.a[0]
    return one(st, discr(I.canon(st, args[0]), t.path if t is not None else None))


@model("core::time::Duration::is_zero", "std::time::Duration::is_zero")
def m_iszero(I, st, args, cx):
    v = I.canon(st, args[0])
    if v.k == "CALL" and v.a[0].split("::")[-1] in ("from_secs", "from_millis", "from_micros", "from_nanos") and len(v.a[2]) == 1:
        return one(st, op("Eq", v.a[2][0], C(0)))
    return None


@model("core::num::saturating_sub")
def m_satsub(I, st, args, cx):
    return one(st, op("SatSub", args[0], args[1]))


@model("core::num::wrapping_add", "core::num::saturating_add")
def m_wadd(I, st, args, cx):
    return one(st, op("Add", args[0], args[1]))


@model("core::num::wrapping_sub")
def m_wsub(I, st, args, cx):
    return one(st, op("Sub", args[0], args[1]))


def checked(o):
    def f(I, st, args, cx):
        if o == "Div":
            z = op("Eq", args[1], C(0))
            zero = st.copy()
            return ([(zero, NONE)] if zero.assume(z, True) else []) + ([(st, some(op(o, args[0], args[1])))] if st.assume(z, False) else [])
        r = op(o, args[0], args[1])
        if r.k == "C":
            return one(st, some(r))
        return [(st.copy(), some(r)), (st, NONE)]
    return f


MODELS["core::num::checked_add"] = checked("Add")
MODELS["core::num::checked_sub"] = checked("Sub")
MODELS["core::num::checked_mul"] = checked("Mul")
MODELS["core::num::checked_div"] = checked("Div")


@model("std::ops::AddAssign::add_assign")
def m_addassign(I, st, args, cx):
    r, p = st.target(args[0])
    old = st.read(r, p)
    v = op("Add", old, I.canon(st, args[1]))
    if r.k != "CELL":
        I.emit(st, Ev("write", None, (r, p), v, cx, old))
    st.write(r, p, v)
    return one(st, UNIT)


# -- mem
@model("std::mem::take", "std::option::Option::take")
def m_take(I, st, args, cx):
    r, p = st.target(args[0])
    old = st.read(r, p)
    isopt = cx.calleepath.endswith("Option::take") or (cx.dty is not None and cx.dty.k == "adt" and cx.dty.path == OPT)
    new = NONE if isopt else mkcoll((0, "empty"), EMPTY)
    if r.k != "CELL":
        if not I.emit(st, Ev("write", None, (r, p), new, cx, old)):
            return []
    st.write(r, p, new)
    return one(st, old)


@model("std::mem::replace", "std::option::Option::replace", "std::option::Option::insert")
def m_replace(I, st, args, cx):
    r, p = st.target(args[0])
    old = st.read(r, p)
    new = args[1] if cx.calleepath == "std::mem::replace" else some(args[1])
    if r.k != "CELL":
        if not I.emit(st, Ev("write", None, (r, p), new, cx, old)):
            return []
    st.write(r, p, new)
    if cx.calleepath.endswith("insert"):
        return one(st, ptr_payload(st, args[0], "Some"))
    return one(st, old)


@model("std::mem::drop", "core::mem::drop")
def m_drop(I, st, args, cx):
    ty = argty(cx, 0)
    v = args[0]
    if not I.emit(st, Ev("drop", ty.s if ty is not None else "?", (None, ()), v, cx, ty)):
        return []
    return one(st, UNIT)


# -- Option / Result
def is_variant(ename, var):
    def f(I, st, args, cx):
        v = I.canon(st, args[0])
        if v.k == "AGG":
            return one(st, TRUE if v.a[2] == var else FALSE)
        out = []
        for s, n, _ in split(st, v, ename):
            out.append((s, TRUE if n == var else FALSE))
        return out
    return f


MODELS["std::option::Option::is_some"] = is_variant(OPT, "Some")
MODELS["std::option::Option::is_none"] = is_variant(OPT, "None")
MODELS["std::result::Result::is_ok"] = is_variant(RES, "Ok")
MODELS["std::result::Result::is_err"] = is_variant(RES, "Err")


def unwrapper(ename, good):
    def f(I, st, args, cx):
        out = []
        for s, n, v in split(st, args[0], ename):
            if n == good:
                out.append((s, payload(v, good)))
            else:
                I.emit(s, Ev("panic", cx.calleepath, args, None, cx))
        return out
    return f


for _x in ("unwrap", "expect", "unwrap_unchecked"):
    MODELS["std::option::Option::" + _x] = unwrapper(OPT, "Some")
    MODELS["std::result::Result::" + _x] = unwrapper(RES, "Ok")
MODELS["std::result::Result::unwrap_err"] = unwrapper(RES, "Err")
MODELS["std::result::Result::expect_err"] = unwrapper(RES, "Err")


@model("std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref",
       "std::option::Option::as_deref_mut", "std::result::Result::as_ref", "std::result::Result::as_mut",
       "std::option::Option::as_pin_mut")
def m_asref(I, st, args, cx):
    p = args[0]
    v = st.load(p)
    if "Result" in cx.calleepath:
        out = []
        for s, n, _ in split(st, v, RES):
            out.append((s, enum(RES, n, ptr_payload(s, p, n))))
        return out
    out = []
    for s, n, _ in split(st, v, OPT):
        if n == "Some":
            q = ptr_payload(s, p, "Some")
            if "deref" in cx.calleepath:
                x = s.load(q)
                if x.k in ("REF",):
                    q = x
            out.append((s, some(q)))
        else:
            out.append((s, NONE))
    return out


def combin(I, st, v, ename, fs, cx):
    """fs: variant -> function(state, payload) -> [(state, value)]"""
    out = []
    for s, n, x in split(st, v, ename):
        f = fs.get(n)
        if f is None:
            out.append((s, x))
        else:
            out += f(s, x)
    return out


def app(I, cx, f, wrap=lambda x: x):
    def g(s, v, var):
        return [(s2, wrap(r)) for s2, r in I.invoke(s, f, [payload(v, var)], cx)]
    return g


@model("std::option::Option::map", "std::option::Option::and_then", "std::option::Option::inspect")
def m_omap(I, st, args, cx):
    wrap = some if cx.calleepath.endswith("map") else (lambda x: x)
    g = app(I, cx, args[1], wrap)
    return combin(I, st, args[0], OPT, {"Some": lambda s, v: g(s, v, "Some"), "None": lambda s, v: [(s, NONE)]}, cx)


@model("std::option::Option::filter")
def m_ofilter(I, st, args, cx):
    out = []
    for s, n, v in split(st, args[0], OPT):
        if n != "Some":
            out.append((s, NONE))
            continue
        x = payload(v, "Some")
        for s2, r in I.invoke(s, args[1], [mkref(s, x, cx)], cx):
            for s3, b in cases(s2, r):
                out.append((s3, some(x) if b else NONE))
    return out


def cases(st, b):
    """split a boolean value"""
    r = st.ev(b)
    if r is not None:
        return [(st, r)]
    out = []
    for val in (True, False):
        s = st.copy()
        if s.assume(b, val):
            out.append((s, val))
    return out


def mkref(st, v, cx, tag="tmp"):
    """a reference to a value"""
    if v.k in ("AGG", "COLL", "C", "REF", "UPD", "ITER"):
        root = mk("ALLOC", cx.site, tag)
        st.mem[root] = v
        return mk("REF", root, ())
    root = mk("ALLOC", cx.site, tag)
    st.mem[root] = v
    return mk("REF", root, ())


@model("std::option::Option::is_some_and", "std::result::Result::is_ok_and", "std::option::Option::is_none_or")
def m_issomeand(I, st, args, cx):
    en, good = (OPT, "Some") if "Option" in cx.calleepath else (RES, "Ok")
    other = TRUE if cx.calleepath.endswith("none_or") else FALSE
    out = []
    for s, n, v in split(st, args[0], en):
        if n == good:
            out += I.invoke(s, args[1], [payload(v, good)], cx)
        else:
            out.append((s, other))
    return out


@model("std::option::Option::map_or", "std::option::Option::map_or_else", "std::result::Result::map_or",
       "std::result::Result::map_or_else")
def m_omapor(I, st, args, cx):
    en, good, bad = (OPT, "Some", "None") if "Option" in cx.calleepath else (RES, "Ok", "Err")
    out = []
    for s, n, v in split(st, args[0], en):
        if n == good:
            out += I.invoke(s, args[2], [payload(v, good)], cx)
        elif cx.calleepath.endswith("else"):
            out += I.invoke(s, args[1], [] if en is OPT else [payload(v, bad)], cx)
        else:
            out.append((s, args[1]))
    return out


@model("std::option::Option::ok_or", "std::option::Option::ok_or_else")
def m_okor(I, st, args, cx):
    out = []
    for s, n, v in split(st, args[0], OPT):
        if n == "Some":
            out.append((s, ok(payload(v, "Some"))))
        elif cx.calleepath.endswith("else"):
            out += [(s2, err(r)) for s2, r in I.invoke(s, args[1], [], cx)]
        else:
            out.append((s, err(args[1])))
    return out


@model("std::option::Option::unwrap_or", "std::option::Option::unwrap_or_else", "std::option::Option::unwrap_or_default",
       "std::option::Option::or_else", "std::option::Option::or", "std::result::Result::unwrap_or",
       "std::result::Result::unwrap_or_else", "std::result::Result::unwrap_or_default")
def m_unwrapor(I, st, args, cx):
    en, good, bad = (OPT, "Some", "None") if "Option" in cx.calleepath else (RES, "Ok", "Err")
    keep = cx.calleepath.endswith(("::or", "or_else")) and "unwrap" not in cx.calleepath
    out = []
    for s, n, v in split(st, args[0], en):
        if n == good:
            out.append((s, v if keep else payload(v, good)))
        elif cx.calleepath.endswith("else"):
            out += I.invoke(s, args[1], [] if en is OPT else [payload(v, bad)], cx)
        elif cx.calleepath.endswith("default"):
            out.append((s, default_of(I, s, cx.dty, cx)))
        else:
            out.append((s, args[1]))
    return out


@model("std::result::Result::map", "std::result::Result::and_then", "std::result::Result::map_err",
       "std::result::Result::or_else", "std::result::Result::inspect_err", "std::result::Result::inspect")
def m_rmap(I, st, args, cx):
    p = cx.calleepath
    which = "Err" if p.endswith(("map_err", "or_else", "inspect_err")) else "Ok"
    out = []
    for s, n, v in split(st, args[0], RES):
        if n == which:
            x = payload(v, which)
            if p.endswith(("inspect", "inspect_err")):
                for s2, _ in I.invoke(s, args[1], [mkref(s, x, cx)], cx):
                    out.append((s2, v))
                continue
            for s2, r in I.invoke(s, args[1], [x], cx):
                out.append((s2, enum(RES, which, r) if p.endswith(("map", "map_err")) else r))
        else:
            out.append((s, enum(RES, n, payload(v, n))))
    return out


@model("std::result::Result::ok", "std::result::Result::err")
def m_rok(I, st, args, cx):
    which = "Ok" if cx.calleepath.endswith("::ok") else "Err"
    out = []
    for s, n, v in split(st, args[0], RES):
        out.append((s, some(payload(v, n)) if n == which else NONE))
    return out


@model("anyhow::Context::context", "anyhow::Context::with_context")
def m_context(I, st, args, cx):
    ty = argty(cx, 0)
    if ty is not None and ty.path == OPT:
        out = []
        for s, n, v in split(st, args[0], OPT):
            out.append((s, ok(payload(v, "Some"))) if n == "Some" else (s, err(call("anyhow", cx.site))))
        return out
    out = []
    for s, n, v in split(st, args[0], RES):
        out.append((s, ok(payload(v, "Ok")) if n == "Ok" else err(call("context", None, payload(v, "Err")))))
    return out


@model("std::ops::Try::branch")
def m_branch(I, st, args, cx):
    ty = argty(cx, 0)
    if ty is None or ty.path not in (OPT, RES):
        return None
    out = []
    for s, n, v in split(st, args[0], ty.path):
        if n in ("Ok", "Some"):
            out.append((s, enum(CF, "Continue", payload(v, n))))
        elif n == "Err":
            out.append((s, enum(CF, "Break", err(payload(v, "Err")))))
        else:
            out.append((s, enum(CF, "Break", NONE)))
    return out


@model("std::ops::FromResidual::from_residual")
def m_residual(I, st, args, cx):
    v = args[0]
    if isagg(v, "Err"):
        # the From conversion of the error: a local impl is entered, so a fresh wrapper otherwise
        e = v.a[4][0]
        rty = cx.dty
        aty = argty(cx, 0)
        et = rty.a[1] if rty is not None and rty.k == "adt" and len(rty.a) > 1 else None
        at = aty.a[1] if aty is not None and aty.k == "adt" and len(aty.a) > 1 else None
        if et is not None and at is not None and et.s != at.s:
            for im in I.prog.impls:
                if im["trait"] and im["trait"].endswith("convert::From") and im["self"].s == et.s and im["targs"] and im["targs"][-1].s == at.s:
                    for it in im["items"]:
                        b = I.prog.bodies.get(it.key)
                        if b is not None:
                            return [(s, err(r)) for s, r in I.inline(st, b, [e], cx)]
            return one(st, err(call("from", None, e)))
        return one(st, err(e))
    return one(st, v)


@model("core::bool::then", "core::bool::then_some")
def m_then(I, st, args, cx):
    out = []
    for s, b in cases(st, args[0]):
        if not b:
            out.append((s, NONE))
        elif cx.calleepath.endswith("then_some"):
            out.append((s, some(args[1])))
        else:
            out += [(s2, some(r)) for s2, r in I.invoke(s, args[1], [], cx)]
    return out


def default_of(I, st, ty, cx):
    if ty is None:
        return call("default", cx.site)
    if ty.k in ("uint", "int"):
        return C(0)
    if ty.k == "bool":
        return FALSE
    if ty.k == "adt":
        if ty.path == OPT:
            return NONE
        if ty.name in ("Vec", "VecDeque", "HashSet", "HashMap", "BTreeMap", "BTreeSet"):
            return mkcoll(cx.site, EMPTY)
        if ty.name == "String":
            return C("")
    return call("default", cx.site)


@model("std::default::Default::default")
def m_default(I, st, args, cx):
    v = default_of(I, st, cx.dty, cx)
    if v.k == "CALL":
        return None
    return one(st, v)


# ------------------------------------------------------------------ collections
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::HashSet::new", "std::collections::HashMap::new",
       "std::collections::VecDeque::new", "std::collections::BTreeMap::new", "std::collections::BTreeSet::new",
       "std::collections::HashMap::with_capacity", "std::collections::HashSet::with_capacity")
def m_collnew(I, st, args, cx):
    return one(st, mkcoll(cx.site, EMPTY))


@model("std::string::String::new", "std::string::String::with_capacity")
def m_strnew(I, st, args, cx):
    return one(st, C(""))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_vecmacro(I, st, args, cx):
    v = I.canon(st, args[0])
    if v.k == "CALL" and v.a[0].endswith("new_uninit"):
        v = st.read(v, (("f", "value", 1), ("f", "value", 0)))
    while v.k == "AGG" and v.a[0] != "array" and v.a[4]:
        v = v.a[4][-1]
    if v.k == "AGG" and v.a[0] == "array":
        return one(st, mkcoll(cx.site, frozenset((x, snap(st, x)) for x in v.a[4])))
    return None


def iteratoms(v):
    return frozenset(a for a in v.atoms if a.k == "CALL" and (a.a[0] in ("iter#", "elem", "await", "pop") or a.a[0].startswith("item:")))


def snap(st, v):
    at = iteratoms(v)
    if not at:
        return EMPTY
    return frozenset((k, f) for k, f in st.facts.items() if not at.isdisjoint(k.atoms) and len(show_small(k)) >= 0)


def show_small(k):
    return ""


def additem(I, st, p, x, cx):
    I.emit(st, Ev("collect", None, (p,), x, cx))
    r, path = st.target(p)
    old = st.read(r, path)
    if old.k == "COLL":
        new = mkcoll(old.a[0], old.a[1] | {(x, snap(st, x))})
        st.write(r, path, new)
    return old


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back", "std::vec::Vec::insert",
       "std::collections::VecDeque::push_front")
def m_push(I, st, args, cx):
    additem(I, st, args[0], args[-1], cx)
    return one(st, UNIT)


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_front", "std::collections::VecDeque::pop_back")
def m_pop(I, st, args, cx):
    """an element of the collection, or None where it is empty (an iteration step over it)"""
    r, p = st.target(args[0])
    v = st.read(r, p)
    if v.k != "COLL":
        return None
    it = itercell(mk("SRC", "val", v, v))
    if not I.emit(st, Ev("step", None, (it,), None, cx)):
        return []
    e = st.copy()
    e.write(r, p, mkcoll(v.a[0], EMPTY))
    out = []
    if I.emit(e, Ev("iterend", None, (it,), None, cx)):
        out.append((e, NONE))
    k = call("iter#", (cx.site, ""))
    for x, f in sorted(v.a[1], key=lambda z: str(z[0])):
        s2 = st.copy()
        for a in iteratoms(x):
            if a.a[0] == "iter#":
                s2.kill(a)
        for kk, ff in f:
            s2.facts[kk] = ff
        s2.kill(k)
        if I.emit(s2, Ev("item", None, (it,), x, cx, k)) and I.emit(s2, Ev("itemout", "item", (it,), x, cx, x)):
            out.append((s2, some(x)))
    return out


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def m_setinsert(I, st, args, cx):
    additem(I, st, args[0], args[1], cx)
    forget(st, args[0])
    v = call("set.insert", cx.site, args[0], I.canon(st, args[1]))
    st.kill(v)
    return one(st, v)


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def m_mapinsert(I, st, args, cx):
    additem(I, st, args[0], tup(args[1], args[2]), cx)
    prev = mapterm(I, st, args[0], args[1])
    d = discr(prev, OPT)
    f = st.facts.get(d)
    v = call("map.insert", cx.site, args[0], I.canon(st, args[1]))
    st.kill(v)
    if f is not None:
        st.facts[discr(v, OPT)] = f
    forget(st, args[0])
    return one(st, v)


def mapterm(I, st, m, k):
    return call("map.get", None, m, I.canon(st, k))


def forget(st, m):
    """a map or set changed: drop what was known about lookups in it"""
    dead = [k for k in st.facts if mentions(k, m)]
    for k in dead:
        del st.facts[k]


_ment = {}


def mentions(v, m):
    key = (v, m)
    r = _ment.get(key)
    if r is None:
        r = False
        if v.k == "CALL" and v.a[0] in ("map.get", "contains", "len", "isempty") and v.a[2] and v.a[2][0] is m:
            r = True
        else:
            for x in v.a:
                if type(x) is V:
                    r = r or mentions(x, m)
                elif type(x) is tuple:
                    for y in x:
                        if type(y) is V:
                            r = r or mentions(y, m)
        _ment[key] = r
    return r


@model("std::collections::HashMap::get", "std::collections::HashMap::get_mut", "std::collections::BTreeMap::get",
       "std::collections::BTreeMap::get_mut")
def m_mapget(I, st, args, cx):
    v = st.load(args[0])
    t = mapterm(I, st, args[0], args[1])
    if v.k == "COLL" and not v.a[1]:
        return one(st, NONE)
    out = []
    for s, n, x in split(st, t, OPT):
        out.append((s, some(payload(x, "Some")) if n == "Some" else NONE))
    return out


@model("std::collections::HashMap::remove", "std::collections::BTreeMap::remove")
def m_mapremove(I, st, args, cx):
    t = mapterm(I, st, args[0], args[1])
    f = st.facts.get(discr(t, OPT))
    v = call("map.remove", cx.site, args[0], I.canon(st, args[1]))
    st.kill(v)
    if f is not None:
        st.facts[discr(v, OPT)] = f
    forget(st, args[0])
    return one(st, v)


@model("std::collections::HashMap::clear", "std::collections::HashSet::clear", "std::vec::Vec::clear")
def m_clear(I, st, args, cx):
    r, p = st.target(args[0])
    v = st.read(r, p)
    if v.k == "COLL":
        st.write(r, p, mkcoll(v.a[0], EMPTY))
    forget(st, args[0])
    return one(st, UNIT)


@model("std::collections::HashSet::contains", "std::collections::HashMap::contains_key", "std::collections::BTreeSet::contains")
def m_contains(I, st, args, cx):
    v = st.load(args[0])
    if v.k == "COLL" and not v.a[1]:
        return one(st, FALSE)
    k = I.canon(st, args[1])
    if cx.calleepath.endswith("contains_key"):
        t = mapterm(I, st, args[0], args[1])
        return one(st, mk("OP", "Eq", discr(t, OPT), C("Some")))
    return one(st, call("contains", None, args[0], k))


@model("std::vec::Vec::len", "core::slice::len", "std::collections::HashMap::len", "std::collections::HashSet::len",
       "core::str::len", "std::string::String::len")
def m_len(I, st, args, cx):
    v = I.canon(st, args[0])
    if v.k == "COLL":
        return one(st, mk("OP", "len", v, C(0)) if v.a[1] else C(0))
    return one(st, call("len", None, v))


@model("std::vec::Vec::is_empty", "core::slice::is_empty", "std::collections::HashMap::is_empty", "std::collections::HashSet::is_empty",
       "core::str::is_empty", "std::string::String::is_empty")
def m_isempty(I, st, args, cx):
    v = I.canon(st, args[0])
    if v.k == "COLL" and not v.a[1]:
        return one(st, TRUE)
    if v.k == "COLL":
        # elements may or may not have been added
        return one(st, op("Eq", mk("OP", "len", v, C(0)), C(0)))
    if v.k == "C" and v.a[1] == "s":
        return one(st, TRUE if v.a[0] == "" else FALSE)
    if v.k in ("MOVED", "UNINIT", "BOTTOM"):
        return None
    return one(st, op("Eq", call("len", None, v), C(0)))


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(I, st, args, cx):
    ty = argty(cx, 0)
    inner = ty.a[0] if ty is not None and ty.k == "ref" else None
    idx = args[1]
    idx = I.canon(st, idx)
    if inner is not None and inner.k == "adt" and inner.name in ("HashMap", "BTreeMap"):
        t = mapterm(I, st, args[0], args[1])
        return one(st, payload(t, "Some"))
    base = args[0]
    v = st.load(base)
    if v.k == "REF" or (inner is not None and inner.k == "adt" and inner.name in ("Arc", "Box") and v.k not in ("AGG", "COLL")):
        base = v
    return one(st, call("index", None, base, idx))


@model("core::slice::get", "core::slice::get_mut", "core::slice::get_unchecked")
def m_get(I, st, args, cx):
    aty = argty(cx, 1)
    if aty is not None and aty.k != "uint":
        return None
    base = args[0]
    idx = I.canon(st, args[1])
    t = call("get?", None, base, idx)
    out = []
    for s, n, x in split(st, t, OPT):
        out.append((s, some(call("index", None, base, idx)) if n == "Some" else NONE))
    return out


@model("core::slice::first", "core::slice::last")
def m_first(I, st, args, cx):
    return None


# ------------------------------------------------------------------ iterators
def itercell(v, stages=()):
    return mk("ITER", v, tuple(stages))


ITERSRC = ("std::collections::HashMap::iter", "std::collections::HashMap::iter_mut", "std::collections::HashSet::iter", "core::slice::iter",
           "core::slice::iter_mut", "std::collections::HashMap::values", "std::collections::HashMap::keys",
           "std::collections::HashMap::values_mut", "std::collections::HashMap::into_values", "std::collections::HashMap::into_keys",
           "std::collections::HashSet::drain", "std::collections::HashMap::drain", "std::vec::Vec::drain",
           "dashmap::DashMap::iter", "dashmap::DashMap::iter_mut",
           "slotmap::SlotMap::drain", "slotmap::SlotMap::iter", "core::str::lines", "core::str::split", "core::str::chars",
           "petgraph::Graph::edges_directed", "petgraph::Graph::edges", "petgraph::Graph::neighbors", "petgraph::Graph::neighbors_directed",
           "petgraph::Graph::node_indices", "petgraph::Graph::raw_nodes_", "bitvec::slice::BitSlice::iter_ones",
           "std::option::Option::iter", "ringbuffer::RingBuffer::iter", "std::collections::BTreeMap::iter", "std::collections::BTreeSet::iter")


@model(*ITERSRC)
def m_iter(I, st, args, cx):
    v = st.load(args[0]) if args[0].k == "REF" else args[0]
    name = cx.calleepath
    if v.k == "COLL":
        drain = name.endswith("drain")
        if drain:
            r, p = st.target(args[0])
            st.write(r, p, mkcoll(v.a[0], EMPTY))
            forget(st, args[0])
        mode = "val" if drain or name.endswith(("into_values", "into_keys")) else "ref"
        stages = ()
        if name.endswith(("keys",)):
            stages = (("fst",),)
        elif name.endswith(("values", "values_mut")):
            stages = (("snd",),)
        return one(st, itercell(mk("SRC", mode, v, args[0]), stages))
    if name in ("core::slice::iter", "core::slice::iter_mut", "std::collections::HashSet::iter", "std::option::Option::iter",
                "ringbuffer::RingBuffer::iter"):
        return one(st, itercell(mk("SRC", "idx", I.placeof(st, args[0]), args[0])))
    if name.startswith(("std::collections::HashMap::iter", "std::collections::BTreeMap::iter")):
        return one(st, itercell(mk("SRC", "map", args[0], args[0])))
    if name.startswith("std::collections::HashMap::") and name.endswith(("values", "values_mut")):
        return one(st, itercell(mk("SRC", "map", args[0], args[0]), (("snd",),)))
    if name.startswith("std::collections::HashMap::") and name.endswith("keys"):
        return one(st, itercell(mk("SRC", "map", args[0], args[0]), (("fst",),)))
    if name.startswith("dashmap"):
        return one(st, itercell(mk("SRC", "opq", call(name, None, args[0]), args[0])))
    return one(st, itercell(mk("SRC", "opq", call(name, None, *[I.canon(st, a) for a in args]), args[0])))


@model("std::iter::IntoIterator::into_iter")
def m_intoiter(I, st, args, cx):
    v = args[0]
    ty = argty(cx, 0)
    if v.k == "ITER":
        return one(st, v)
    if v.k == "REF":
        x = st.load(v)
        if x.k == "ITER":
            return one(st, v)
        isref = ty is not None and ty.k == "ref"
        inner = ty.a[0] if isref else None
        if x.k == "COLL" and isref:
            return one(st, itercell(mk("SRC", "ref", x, v)))
        if inner is not None and inner.k == "adt" and inner.name in ("HashMap", "BTreeMap"):
            return one(st, itercell(mk("SRC", "map", v, v)))
        return one(st, itercell(mk("SRC", "idx", v, v)))
    if v.k == "COLL":
        return one(st, itercell(mk("SRC", "val", v, v)))
    if v.k == "AGG" and v.a[1] in ("std::ops::Range", "std::ops::RangeInclusive"):
        return one(st, itercell(mk("SRC", "range" if v.a[1].endswith("Range") else "rangei", v.a[4][0], v.a[4][1] if len(v.a[4]) > 1 else v.a[4][0])))
    if ty is not None and ty.k == "adt" and ty.name in ("Vec", "HashSet", "VecDeque"):
        return one(st, itercell(mk("SRC", "idxv", v, v)))
    if ty is not None and ty.k == "array":
        return one(st, itercell(mk("SRC", "idxv", v, v)))
    if ty is not None and ty.k == "adt" and ty.name in ("HashMap", "BTreeMap"):
        return one(st, itercell(mk("SRC", "mapv", v, v)))
    if v.k == "AGG" and v.a[0] == "array":
        return one(st, itercell(mk("SRC", "val", mkcoll(cx.site, frozenset((x, EMPTY) for x in v.a[4])), v)))
    if ty is not None and ty.k == "ref":
        inner = ty.a[0]
        if inner.k == "adt" and inner.name in ("HashMap", "BTreeMap"):
            return one(st, itercell(mk("SRC", "map", v, v)))
        return one(st, itercell(mk("SRC", "idx", v, v)))
    return one(st, itercell(mk("SRC", "opq", v, v)))


@model("std::ops::RangeInclusive::new")
def m_rangeincl(I, st, args, cx):
    return one(st, itercell(mk("SRC", "rangei", args[0], args[1])))


@model("std::iter::once")
def m_once(I, st, args, cx):
    return one(st, itercell(mk("SRC", "val", mkcoll((cx.site, "once"), frozenset([(args[0], snap(st, args[0]))])), UNIT)))


@model("std::iter::empty")
def m_empty(I, st, args, cx):
    return one(st, itercell(mk("SRC", "val", mkcoll((cx.site, "once"), EMPTY), UNIT)))


def asiter(I, st, v, cx):
    """view any iterable value as an ITER term"""
    n = 6
    while v.k == "REF" and n:
        x = st.load(v)
        if x.k == "ITER":
            return x
        if x.k in ("COLL",):
            return itercell(mk("SRC", "ref", x, v))
        if x.k == "REF":
            v = x
            n -= 1
            continue
        if x.k == "AGG" and x.a[1] == "std::ops::Range":
            v = x
            break
        return itercell(mk("SRC", "idx", v, v))
    if v.k == "ITER":
        return v
    if v.k == "COLL":
        return itercell(mk("SRC", "val", v, v))
    if v.k == "AGG" and v.a[1] in ("std::ops::Range", "std::ops::RangeInclusive") and len(v.a[4]) > 1:
        return itercell(mk("SRC", "range", v.a[4][0], v.a[4][1]))
    return itercell(mk("SRC", "opq", v, v))


def stage(kind, fn=False):
    def f(I, st, args, cx):
        it = asiter(I, st, args[0], cx)
        s = (kind,) + tuple(args[1:])
        return one(st, itercell(it.a[0], it.a[1] + (s,)))
    return f


for _k in ("map", "filter", "filter_map", "enumerate", "zip", "inspect", "take_while", "skip_while", "rev", "peekable",
           "cloned", "copied", "take", "skip", "flat_map", "flatten", "fuse", "map_while", "step_by"):
    MODELS["std::iter::Iterator::" + _k] = stage(_k)


@model("std::iter::Iterator::chain")
def m_chain(I, st, args, cx):
    a = asiter(I, st, args[0], cx)
    b = asiter(I, st, args[1], cx)
    root = mk("ALLOC", (cx.site, "chain"), "pos")     # which of the two is under way
    st.mem[root] = C(0)
    return one(st, itercell(mk("SRC", "chain", a, tup(b, mk("REF", root, ())))))


def advance(I, st, it, cx, tag=""):
    """one step of an iterator -> [(state, kind, value)] kind in item/skip/end"""
    src, stages = it.a
    mode, x, y = src.a
    outs = []
    if mode != "chain" and not I.emit(st, Ev("step", None, (it,), None, cx)):
        return []
    k = call("iter#", (cx.site, tag))
    if mode == "chain":
        second, pos = y.a[4]
        at = st.load(pos)
        later = [st.copy()] if at is not C(0) else []
        if at is not C(1):
            s0 = st.copy()
            for s, kind, v in advance(I, s0, x, cx, tag + "a"):
                if kind == "end":
                    r0, p0 = s.target(pos)
                    s.write(r0, p0, C(1))
                    later.append(s)
                else:
                    outs.append((s, kind, v, None))
        for s1 in later:
            for s, kind, v in advance(I, s1, second, cx, tag + "b"):
                outs.append((s, kind, v, None))
    else:
        # end of the sequence
        outs.append((st.copy(), "end", None, None))
        s = st.copy()
        if mode in ("val", "ref"):
            for e, f in sorted(x.a[1], key=lambda z: str(z[0])):
                s2 = st.copy()
                for a in iteratoms(e):
                    # a different element than the one drawn before; facts recorded when it was stored hold again
                    if a.a[0] == "iter#":
                        s2.kill(a)
                    else:
                        for kk in [kk for kk in s2.facts if a in kk.atoms]:
                            del s2.facts[kk]
                good = True
                for kk, ff in f:
                    s2.facts[kk] = ff
                v = e
                if mode == "ref":
                    root = mk("ALLOC", (cx.site, tag), "elem")
                    s2.mem[root] = e
                    v = mk("REF", root, ())
                    if y.k == "REF" and e.k == "AGG" and e.a[0] == "tuple" and len(e.a[4]) == 2 and False:
                        pass
                s2.kill(k)
                if good:
                    outs.append((s2, "item", v, k))
        elif mode in ("range", "rangei"):
            s.kill(k)
            if y.k == "C" and x.k == "C" and (y.a[0] <= x.a[0] if mode == "range" else y.a[0] < x.a[0]):
                pass
            else:
                outs.append((s, "item", k, k))
        elif mode in ("idx", "idxv"):
            s.kill(k)
            v = call("index", None, x, k)
            if mode == "idxv":
                v = mk("DEREF", v)
            outs.append((s, "item", v, k))
        elif mode in ("map", "mapv"):
            s.kill(k)
            key = call("key", None, x, k)
            val = payload(call("map.get", None, x, mk("DEREF", key) if mode == "map" else key), "Some")
            if mode == "mapv":
                val = mk("DEREF", val)
            outs.append((s, "item", tup(key, val), k))
        else:
            s.kill(k)
            outs.append((s, "item", call("elem", None, x, k), k))
    res = []
    for s, kind, v, idx in outs:
        if kind != "item":
            if mode != "chain" and kind == "end" and not I.emit(s, Ev("iterend", None, (it,), None, cx)):
                continue
            res.append((s, kind, v))
            continue
        if mode == "chain":
            res += stagesrun(I, s, v, idx, stages, 0, cx, tag)
            continue
        ev = Ev("item", None, (it,), v, cx, idx)
        if not I.emit(s, ev):
            continue
        v = ev.val
        for s2, kind2, w in stagesrun(I, s, v, idx, stages, 0, cx, tag):
            if I.emit(s2, Ev("itemout", kind2, (it,), w, cx, v)):
                res.append((s2, kind2, w))
    return res


def stagesrun(I, s, v, idx, stages, i, cx, tag):
    while i < len(stages):
        stg = stages[i]
        n = stg[0]
        if n in ("fst", "snd"):
            w = v
            if w.k == "REF":
                w = s.load(w)
            v = proj(w, ("f", "0" if n == "fst" else "1", 0 if n == "fst" else 1))
        elif n in ("map", "flat_map", "map_while"):
            res = []
            for s2, r in I.invoke(s, stg[1], [v], cx):
                if n == "flat_map" and r.k == "AGG" and r.a[0] == "enum" and r.a[2] in ("Some", "Ok", "None", "Err"):
                    if r.a[2] in ("Some", "Ok"):
                        res += stagesrun(I, s2, r.a[4][0], None, stages, i + 1, cx, tag)
                    else:
                        res.append((s2, "skip", None))
                elif n == "flat_map":
                    it2 = asiter(I, s2, r, cx)
                    for s3, kind, w in advance(I, s2, it2, cx, tag + "f%d" % i):
                        if kind == "item":
                            res += stagesrun(I, s3, w, None, stages, i + 1, cx, tag)
                        else:
                            res.append((s3, "skip", None))
                elif n == "map_while":
                    for s3, var, w in split(s2, r, OPT):
                        if var == "Some":
                            res += stagesrun(I, s3, payload(w, "Some"), idx, stages, i + 1, cx, tag)
                        else:
                            res.append((s3, "end", None))
                else:
                    res += stagesrun(I, s2, r, idx, stages, i + 1, cx, tag)
            return res
        elif n in ("filter", "take_while", "skip_while"):
            res = []
            for s2, r in I.invoke(s, stg[1], [mkref(s, v, cx, "it%d" % i)], cx):
                for s3, b in cases(s2, r):
                    if n == "skip_while":
                        if b:
                            res.append((s3, "skip", None))
                        res += stagesrun(I, s3.copy(), v, None, stages, i + 1, cx, tag)
                    elif b:
                        res += stagesrun(I, s3, v, None if n == "filter" else idx, stages, i + 1, cx, tag)
                    else:
                        res.append((s3, "skip" if n == "filter" else "end", None))
            return res
        elif n == "filter_map":
            res = []
            for s2, r in I.invoke(s, stg[1], [v], cx):
                for s3, var, w in split(s2, r, OPT):
                    if var == "Some":
                        res += stagesrun(I, s3, payload(w, "Some"), None, stages, i + 1, cx, tag)
                    else:
                        res.append((s3, "skip", None))
            return res
        elif n == "enumerate":
            j = idx
            if j is None:
                j = call("iter#", (cx.site, tag + "e%d" % i))
                s.kill(j)
            v = tup(j, v)
        elif n == "zip":
            other = asiter(I, s, stg[1], cx)
            osrc, ost = other.a
            if osrc.a[0] in ("idx", "idxv") and idx is not None and not ost:
                w = call("index", None, osrc.a[1], idx)
                if osrc.a[0] == "idxv":
                    w = mk("DEREF", w)
                v = tup(v, w)
            elif osrc.a[0] == "range" and idx is not None and not ost:
                v = tup(v, idx)
            else:
                res = []
                for s2, kind, w in advance(I, s, other, cx, tag + "z%d" % i):
                    if kind == "item":
                        res += stagesrun(I, s2, tup(v, w), idx, stages, i + 1, cx, tag)
                    else:
                        res.append((s2, kind, None))
                return res
        elif n in ("cloned", "copied"):
            v = s.load(v)
        elif n in ("rev", "skip", "step_by"):
            idx = None
        elif n == "flatten":
            res = []
            if v.k == "AGG" and v.a[0] == "enum":
                if v.a[2] in ("Some", "Ok"):
                    return stagesrun(I, s, v.a[4][0], None, stages, i + 1, cx, tag)
                return [(s, "skip", None)]
            it2 = asiter(I, s, v, cx)
            for s3, kind, w in advance(I, s, it2, cx, tag + "f%d" % i):
                if kind == "item":
                    res += stagesrun(I, s3, w, None, stages, i + 1, cx, tag)
                else:
                    res.append((s3, "skip", None))
            return res
        elif n == "inspect":
            res = []
            for s2, _ in I.invoke(s, stg[1], [mkref(s, v, cx, "it%d" % i)], cx):
                res += stagesrun(I, s2, v, idx, stages, i + 1, cx, tag)
            return res
        i += 1
    return [(s, "item", v)]


def fold(I, st, it, cx, onitem, tag=""):
    """run an iterator to exhaustion; onitem(state, value) -> [(state, stop?)]; returns
    (end states, stopped [(state, value)])"""
    seen = {}
    work = [st]
    ends = []
    stops = []
    n = 0
    wid = {}
    while work:
        s = work.pop()
        g = (s.auto, I.rule.part(s))
        l = seen.setdefault(g, set())
        if len(l) >= 4:
            w = wid.get(g)
            s2 = join(w, s, (cx.site, "fold" + tag)) if w is not None else s
            s2.auto = s.auto
            s = s2
            wid[g] = s2
        ks = s.key()
        if ks in l:
            continue
        l.add(ks)
        n += 1
        if n > 200:
            from absint import TooBig
            raise TooBig("iterator fold at %s" % (cx.span,))
        for s2, kind, v in advance(I, s.copy(), it, cx, tag):
            if kind == "end":
                ends.append(s2)
            elif kind == "skip":
                work.append(s2)
            else:
                for s3, stop in onitem(s2, v):
                    if not I.emit(s3, Ev("itemdone", "stop" if stop is not None else None, (it,), v, cx)):
                        continue
                    if stop is None:
                        work.append(s3)
                    else:
                        stops.append((s3, stop))
    return dedup(ends), stops


def dedup(states):
    d = {}
    for s in states:
        d[s.key()] = s
    return list(d.values())


@model("std::iter::Iterator::next")
def m_next(I, st, args, cx):
    p = args[0]
    it = st.load(p) if p.k == "REF" else p
    n = 4
    while it.k == "REF" and n:
        it = st.load(it)
        n -= 1
    if it.k == "AGG" and it.a[1] == "std::ops::Range":
        it = asiter(I, st, it, cx)
    if it.k != "ITER":
        if it.k in ("PHI",) or True:
            v = call("elem", None, I.canon(st, p), call("iter#", cx.site))
            st.kill(call("iter#", cx.site))
            s2 = st.copy()
            return [(st, some(v)), (s2, NONE)]
    out = []
    work = [st]
    seen = set()
    rounds = 0
    while work:
        s = work.pop()
        ks = s.key()
        if ks in seen:
            continue
        seen.add(ks)
        rounds += 1
        if rounds > 60:
            from absint import TooBig
            raise TooBig("iterator step at %s" % (cx.span,))
        for s2, kind, v in advance(I, s.copy(), it, cx):
            if kind == "item":
                out.append((s2, some(v)))
            elif kind == "end":
                out.append((s2, NONE))
            else:
                work.append(s2)
    return out


def collect_into(I, st, it, cx, resultkind):
    """collect to a collection term; resultkind None / RES / OPT"""
    ACC = mk("ALLOC", cx.site, "collect")
    st.mem[ACC] = mkcoll(cx.site, EMPTY)

    def onitem(s, v):
        out = []
        if resultkind is None:
            if not I.emit(s, Ev("collect", None, (it,), v, cx)):
                return []
            acc = s.mem[ACC]
            s.mem[ACC] = mkcoll(acc.a[0], acc.a[1] | {(v, snap(s, v))})
            return [(s, None)]
        for s2, var, w in split(s, v, resultkind):
            if var in ("Ok", "Some"):
                x = payload(w, var)
                if not I.emit(s2, Ev("collect", None, (it,), x, cx)):
                    continue
                acc = s2.mem[ACC]
                s2.mem[ACC] = mkcoll(acc.a[0], acc.a[1] | {(x, snap(s2, x))})
                out.append((s2, None))
            else:
                out.append((s2, enum(resultkind, var, payload(w, var)) if var == "Err" else NONE))
        return out
    ends, stops = fold(I, st, it, cx, onitem)
    res = []
    for s in ends:
        acc = s.mem.pop(ACC)
        if resultkind is None:
            res.append((s, acc))
        else:
            res.append((s, ok(acc) if resultkind == RES else some(acc)))
    for s, v in stops:
        s.mem.pop(ACC, None)
        res.append((s, v))
    return merge(I, res, cx)


def merge(I, res, cx):
    """join results that agree on the automaton (keeps the number of states down)"""
    groups = {}
    for s, v in res:
        tag = v.a[2] if v.k == "AGG" else None
        groups.setdefault((s.auto, I.rule.part(s), tag), []).append((s, v))
    out = []
    for g, l in groups.items():
        if len(l) == 1:
            out += l
            continue
        R = mk("ALLOC", cx.site, "res")
        n = None
        for s, v in l:
            s.mem[R] = v
            n = s if n is None else join(n, s, (cx.site, "merge"))
        out.append((n, n.mem.pop(R)))
    return out


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(I, st, args, cx):
    it = asiter(I, st, args[0], cx)
    rk = None
    if cx.dty is not None and cx.dty.k == "adt" and cx.dty.path in (RES, OPT):
        rk = cx.dty.path
    return collect_into(I, st, it, cx, rk)


@model("std::iter::Iterator::for_each", "std::iter::Iterator::try_for_each")
def m_foreach(I, st, args, cx):
    it = asiter(I, st, args[0], cx)
    tr = cx.calleepath.endswith("try_for_each")

    def onitem(s, v):
        out = []
        for s2, r in I.invoke(s, args[1], [v], cx):
            if not tr:
                out.append((s2, None))
                continue
            en = cx.dty.path if cx.dty is not None else RES
            for s3, var, w in split(s2, r, en):
                out.append((s3, None if var in ("Ok", "Some", "Continue") else w))
        return out
    ends, stops = fold(I, st, it, cx, onitem)
    fin = UNIT if not tr else (ok(UNIT) if cx.dty is None or cx.dty.path == RES else enum(cx.dty.path, "Continue" if cx.dty.path == CF else "Some", UNIT))
    return merge(I, [(s, fin) for s in ends] + stops, cx)


@model("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::find", "std::iter::Iterator::find_map",
       "std::iter::Iterator::position")
def m_any(I, st, args, cx):
    it = asiter(I, st, args[0], cx)
    nm = cx.calleepath.split("::")[-1]

    def onitem(s, v):
        out = []
        a = mkref(s, v, cx, "any") if nm == "find" else v
        for s2, r in I.invoke(s, args[1], [a], cx):
            if nm == "find_map":
                for s3, var, w in split(s2, r, OPT):
                    out.append((s3, w if var == "Some" else None))
                continue
            for s3, b in cases(s2, r):
                if nm == "any":
                    out.append((s3, TRUE if b else None))
                elif nm == "all":
                    out.append((s3, None if b else FALSE))
                elif nm == "position":
                    out.append((s3, some(call("position", cx.site)) if b else None))
                else:
                    out.append((s3, some(v) if b else None))
        return out
    ends, stops = fold(I, st, it, cx, onitem)
    fin = FALSE if nm == "any" else TRUE if nm == "all" else NONE
    return merge(I, [(s, fin) for s in ends] + stops, cx)


@model("std::iter::Iterator::fold")
def m_fold(I, st, args, cx):
    it = asiter(I, st, args[0], cx)
    ACC = mk("ALLOC", cx.site, "fold")
    st.mem[ACC] = args[1]

    def onitem(s, v):
        out = []
        for s2, r in I.invoke(s, args[2], [s.mem[ACC], v], cx):
            s2.mem[ACC] = r
            out.append((s2, None))
        return out
    ends, stops = fold(I, st, it, cx, onitem)
    return merge(I, [(s, s.mem.pop(ACC)) for s in ends], cx)


@model("std::iter::Iterator::count", "std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::last")
def m_count(I, st, args, cx):
    it = asiter(I, st, args[0], cx)
    nm = cx.calleepath.split("::")[-1]
    src, stages = it.a
    simple = not stages
    if simple and src.a[0] == "opq":
        v = call(nm, None, src.a[1])
        return one(st, v)
    ends, _ = fold(I, st, it, cx, lambda s, v: [(s, None)])
    v = call(nm, cx.site, it)
    out = []
    for s in ends:
        s.kill(v)
        out.append((s, v))
    return out


@model("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice", "std::vec::Vec::append")
def m_extend(I, st, args, cx):
    it = asiter(I, st, args[1], cx)

    def onitem(s, v):
        additem(I, s, args[0], v, cx)
        return [(s, None)]
    ends, _ = fold(I, st, it, cx, onitem)
    for s in ends:
        forget(s, args[0])
    return merge(I, [(s, UNIT) for s in ends], cx)


@model("petgraph::Graph::filter_map", "petgraph::Graph::map")
def m_graphmap(I, st, args, cx):
    """closures run on every node / edge; the result is an opaque graph. The node closure's results are
    reported to the rule as graph.node events"""
    g = args[0]
    ismap = cx.calleepath.endswith("::map")
    states = [st]
    gv = I.canon(st, g)
    for ci, f in ((1, args[1]), (2, args[2])):
        def onitem(s, v, f=f, ci=ci):
            out = []
            idx = call("graph." + ("node" if ci == 1 else "edge"), None, gv, v)
            w = call("graph.weight", None, gv, idx)
            for s2, r in I.invoke(s, f, [idx, w], cx):
                if I.emit(s2, Ev("graphitem", cx.calleepath, (gv, idx, w, "node" if ci == 1 else "edge"), r, cx)):
                    out.append((s2, None))
            return out
        it = itercell(mk("SRC", "opq", call("graph.items%d" % ci, None, gv), gv))
        nxt = []
        for s in states:
            ends, _ = fold(I, s, it, cx, onitem, "g%d" % ci)
            nxt += ends
        states = nxt
    v = call(cx.calleepath, cx.site, gv)
    out = []
    for s in states:
        s.kill(v)
        out.append((s, v))
    return merge(I, out, cx)


@model("petgraph::Graph::reverse")
def m_reverse(I, st, args, cx):
    r, p = st.target(args[0])
    v = I.canon(st, st.read(r, p))
    st.write(r, p, v.a[2][0] if v.k == "CALL" and v.a[0] == "reversed" else call("reversed", None, v))
    return one(st, UNIT)


@model("dashmap::mapref::entry::Entry::or_insert_with", "dashmap::mapref::entry::Entry::or_insert",
       "std::collections::hash_map::Entry::or_insert_with", "std::collections::hash_map::Entry::or_insert",
       "std::collections::hash_map::Entry::or_default")
def m_orinsert(I, st, args, cx):
    v = call("or_insert", cx.site, args[0])
    st.kill(v)
    s2 = st.copy()
    out = [(st, v)]
    if len(args) > 1 and cx.calleepath.endswith("_with"):
        for s, r in I.invoke(s2, args[1], [], cx):
            out.append((s, v))
    return merge(I, out, cx)


@model("dashmap::DashMap::remove_if", "dashmap::DashMap::remove_if_mut")
def m_removeif(I, st, args, cx):
    """Some((key, value)) exactly where the predicate holds of the removed value"""
    v = I.fresh(st, cx.calleepath, cx, I.canon(st, args[0]), I.canon(st, args[1]))
    none = st.copy()
    out = []
    if none.restrict(discr(v, OPT), ["None"]):
        out.append((none, v))
    val = proj(payload(v, "Some"), ("f", "1", 1))
    for s, r in I.invoke(st.copy(), args[2], [args[1], val], cx):
        if r.k == "PHI" and s.ev(r) is None or s.assume(r, True):
            if s.restrict(discr(v, OPT), ["Some"]):
                out.append((s, v))
    return out


@model("lazy_static::lazy::Lazy::get", "std::sync::OnceLock::get_or_init")
def m_lazy(I, st, args, cx):
    return one(st, call("lazy", None, args[0]))


# ------------------------------------------------------------------ futures
@model("std::future::get_context", "core::future::get_context")
def m_getctx(I, st, args, cx):
    return one(st, call("context", None))


@model("futures::Future::poll", "std::future::Future::poll", "core::future::Future::poll")
def m_poll(I, st, args, cx):
    insel = I.in_select
    I.in_select = False
    out = []
    try:
        base = st.copy() if insel else None
        for s, v in I.await_(st.copy(), args[0], cx):
            out.append((s, ready(v)))
        if insel:
            out.append((base, enum(POLL, "Pending")))
    finally:
        I.in_select = insel
    return out


@future("tokio::macros::support::poll_fn", "std::future::poll_fn", "futures::future::poll_fn")
def f_pollfn(I, st, f, cx):
    """tokio::select!: any one ready branch completes, the others have no effect"""
    if not I.emit(st, Ev("yield", "select", (f,), None, cx)):
        return []
    clo = f.a[2][0]
    insel = I.in_select
    I.in_select = True
    out = []
    try:
        for s, v in I.invoke(st, clo, [call("context", None)], cx):
            for s2, n, w in split(s, v, POLL):
                if n == "Ready":
                    out.append((s2, payload(w, "Ready")))
    finally:
        I.in_select = insel
    return out


@future("tokio::time::timeout", "tokio::time::timeout_at")
def f_timeout(I, st, f, cx):
    fut = f.a[2][1]
    out = []
    s0 = st.copy()
    if I.emit(s0, Ev("yield", "timeout", (f,), None, cx)):
        out.append((s0, err(call("elapsed", cx.site))))
    for s, v in I.await_(st, fut, cx):
        out.append((s, ok(v)))
    return out


def f_joinN(tr):
    def f(I, st, f, cx):
        if not I.emit(st, Ev("yield", "join", (f,), None, cx)):
            return []
        states = [(st, ())]
        out = []
        for i, fut in enumerate(f.a[2]):
            nxt = []
            states = [x for x in states if I.emit(x[0], Ev("branch", "join", (fut,), None, cx, i))]
            for s, vs in states:
                for s2, v in I.await_(s, fut, cx):
                    if not tr:
                        nxt.append((s2, vs + (v,)))
                        continue
                    for s3, n, w in split(s2, v, RES):
                        if n == "Ok":
                            nxt.append((s3, vs + (payload(w, "Ok"),)))
                        else:
                            out.append((s3, err(payload(w, "Err"))))
            states = nxt
        for s, vs in states:
            out.append((s, ok(tup(*vs)) if tr else tup(*vs)))
        return [(s, v) for s, v in out if I.emit(s, Ev("joined", "join", (f,), v, cx))]
    return f


for _n in ("", "3", "4", "5"):
    FUTURES["futures::future::try_join" + _n] = f_joinN(True)
    FUTURES["futures::future::join" + _n] = f_joinN(False)


def m_option(I, st, args, cx):
    """a setter of a builder passed by reference: the builder's cell holds the chain of settings"""
    if len(args) != 2 or args[0].k != "REF":
        return None
    r = args[0]
    cur = st.load(r)
    n = 5
    while cur.k == "REF" and n:
        r, cur, n = cur, st.load(cur), n - 1
    st.write(r.a[0], r.a[1], call(cx.calleepath, cx.site, I.canon(st, cur), I.canon(st, args[1])))
    return one(st, r)


for _p in ("std::fs::OpenOptions::", "tokio::fs::OpenOptions::", "tokio::fs::open_options::OpenOptions::"):
    for _n in ("read", "write", "append", "truncate", "create", "create_new"):
        MODELS[_p + _n] = m_option


@model("tokio::time::timeout", "tokio::time::timeout_at", "tokio::macros::support::poll_fn", "std::future::poll_fn",
       "futures::future::try_join", "futures::future::try_join3", "futures::future::try_join4", "futures::future::try_join5",
       "futures::future::join", "futures::future::join3", "futures::future::join4", "futures::future::join5", "futures::future::poll_fn")
def m_keepargs(I, st, args, cx):
    # the arguments stay as they are (futures by value), so that the await can drive them
    v = call(cx.calleepath, cx.site, *args)
    return one(st, v)


@model("tokio::spawn", "tokio::task::spawn", "tokio::task::spawn_blocking", "tokio::task::spawn_local")
def m_spawn(I, st, args, cx):
    f = args[0]
    n = 5
    while f.k == "REF" and n:
        f = st.load(f)
        n -= 1
    I.spawn(st, f, cx)
    v = call("spawn", cx.site, f)
    st.kill(v)
    return one(st, v)


@model("tokio::runtime::Runtime::block_on", "futures::executor::block_on", "tokio::runtime::Handle::block_on")
def m_blockon(I, st, args, cx):
    return I.await_(st, args[-1], cx)


@model("pyo3::Python::allow_threads")
def m_allow(I, st, args, cx):
    return I.invoke(st, args[1], [], cx)


@model("tokio::sync::watch::Sender::send_if_modified", "tokio::sync::watch::Sender::send_modify")
def m_watch_modify(I, st, args, cx):
    """the closure changes the current value in place; an event "watch" with (reference to it, its old value) and the closure's result follows"""
    root = mk("ALLOC", (cx.site, "watch"), "cur")
    old = call("watch.value", None, I.canon(st, args[0]))
    st.kill(old)
    st.mem[root] = old
    ref = mk("REF", root, ())
    out = []
    for s, v in I.invoke(st, args[1], [ref], cx):
        if I.emit(s, Ev("watch", cx.calleepath, (ref, old), v, cx)):
            out.append((s, v))
    return out
