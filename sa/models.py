"""Transfer functions for the library functions the repository uses."""
from fractions import Fraction

from terms import *
from interp import (some, NONE, ok, err, tup, arr, EMPTY, length, OPTION, RESULT, CFLOW, ORDERING, norm, Call)

MODELS = {}
FNREFS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def deref_path(c, s, i=0):
    """(guard, root, path) targets of a reference argument, through nested references"""
    v = c.args[i]
    t = c.aty(i)
    while t["k"] in ("ref", "ptr"):
        inner = c.ip.ty(t["inner"], c.fr)
        if inner["k"] not in ("ref", "ptr"):
            return c.ip.targets(v)
        v = c.ip.load(s, v)
        t = inner
    return c.ip.targets(v)


def refs(s, ts, extra, fn=lambda x: x):
    return under(mk_ite([(g, mkref(r, p + extra)) for g, r, p in ts]), s.g)


def mkref(r, p):
    if r.op == "obj" and not p:
        return r.a[0]
    return mk("ref", r, p)


# ------------------------------------------------------------------ identities
@model("std::hint::must_use", "anyhow::__private::must_use", "std::convert::identity", "std::hint::black_box")
def _id(c, s):
    return c.args[0]


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::to_vec", "ndarray::impl_methods::to_owned",
       "ndarray::impl_1d::to_vec")
def _clone(c, s):
    t = c.aty(0)
    if t["k"] == "ref":
        v = c.ip.load(s, c.args[0])
    else:
        v = c.args[0]
    if c.nm.endswith("clone"):
        c.ip.event("clone", c.selfty()["s"], [v], s, c.span, c.fr, info=c)
    return v


@model("std::string::ToString::to_string")
def _to_string(c, s):
    t = c.peeled_ty(0)
    v = c.peel(s, 0)
    if t["k"] == "str" or t.get("def") == "std::string::String":
        return v
    return lift(lambda x: mk("call", "to_string", x), v)


@model("std::convert::From::from", "std::convert::Into::into")
def _from(c, s):
    t = c.aty(0)
    d = c.ip.ty(c.dty, c.fr)
    pt = c.peeled_ty(0)
    if pt["k"] == "str" or pt.get("def") == "std::string::String":
        if d.get("def") == "std::string::String":
            return c.peel(s, 0)
    if d["k"] in ("int", "float") and t["k"] in ("int",):
        return c.args[0]
    if t["s"] == d["s"]:
        return c.args[0]
    if c.args[0].op == "agg" and c.args[0].a[0] == "array":
        if d.get("def") in MAPS:
            return _from_iter(c, s)
        if d.get("def") in ("std::vec::Vec", "std::collections::VecDeque"):
            return c.args[0]
    if is_nd(d) and t.get("def") in ("std::vec::Vec",):
        return c.args[0]
    # Into::into resolves to the blanket impl: look for a local From impl
    ip = c.ip
    for im in ip.crate.trait_impls.get("std::convert::From", []):
        st = ip.crate.types[im["self"]]
        if im["targs"] and st["s"] == d["s"] and ip.crate.types[im["targs"][-1]]["s"] == t["s"]:
            for n, k, ti in im["items"]:
                b = ip.crate.bodies.get(k)
                if b is not None and ip.inline(b) and b["key"] not in c.fr.stack and not ip.opaque(b):
                    return ip.call_body(s, b, list(c.args), {}, c.fr.stack)
    return c.opq(s)


@model("std::convert::AsRef::as_ref", "std::string::String::as_str", "std::string::String::as_bytes", "core::str::as_bytes",
       "std::vec::Vec::as_slice", "std::array::as_slice", "std::borrow::Borrow::borrow", "std::vec::Vec::as_mut_slice",
       "std::string::String::as_mut_str", "core::slice::as_ptr", "std::ptr::const_ptr::cast", "ndarray::impl_methods::view")
def _sameref(c, s):
    t = c.aty(0)
    v = c.args[0]
    while t["k"] == "ref":
        inner = c.ip.ty(t["inner"], c.fr)
        if inner["k"] != "ref":
            break
        v = c.ip.load(s, v)
        t = inner
    if c.nm == "std::convert::AsRef::as_ref" and t["k"] == "ref":
        i = c.ip.ty(t["inner"], c.fr)
        if i.get("def") in ("std::rc::Rc", "std::sync::Arc", "std::boxed::Box"):
            return smart_deref(c, s, v, i)
    return v


def smart_deref(c, s, v, t):
    d = t.get("def")
    if d == "std::boxed::Box":
        return refs(s, c.ip.targets(v), (("box",),))
    p = c.ip.load(s, v)
    return lift(lambda x: x if x.op == "ref" else mk("ref", mk("obj", x), ()) if False else x, p)


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _deref(c, s):
    t = c.aty(0)
    i = c.ip.ty(t["inner"], c.fr) if t["k"] == "ref" else c.selfty()
    d = i.get("def", "")
    if d in ("std::rc::Rc", "std::sync::Arc"):
        # the Rc value itself is the pointer term
        return c.ip.load(s, c.args[0])
    if d == "std::boxed::Box":
        return refs(s, c.ip.targets(c.args[0]), (("box",),))
    if d == "once_cell::sync::Lazy":
        return lazy_value(c, s)
    if d in ("std::cell::Ref", "std::cell::RefMut", "std::sync::MutexGuard", "std::sync::RwLockReadGuard", "std::sync::RwLockWriteGuard"):
        g = c.ip.load(s, c.args[0])
        return lift(lambda x: x.a[0] if x.op == "guard" else mk("gderef", x), g)
    if d in ("std::vec::Vec", "std::string::String") or "ArrayBase" in d:
        return c.args[0]
    if c.f.get("rk") == "item" and c.f.get("local"):
        return NotImplemented
    return c.opq(s)


@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::try_borrow", "std::cell::RefCell::try_borrow_mut")
def _borrow(c, s):
    ts = c.ip.targets(c.args[0])
    r = under(mk_ite([(g, mk("guard", mk("ref", ro, p + (("cell",),)))) for g, ro, p in ts]), s.g)
    c.ip.event("borrow_mut" if c.nm.endswith("_mut") else "borrow", c.nm, [r], s, c.span, c.fr, info=c)
    return ok(r) if "try_" in c.nm else r


@model("std::cell::RefCell::new")
def _cellnew(c, s):
    return mk("agg", "RefCell", 0, ())if False else mk_upd(mk("cellnew", ), [(("cell",), c.args[0])])


@model("std::sync::Mutex::new", "std::sync::RwLock::new")
def _mutexnew(c, s):
    return mk_upd(mk("cellnew", ), [(("cell",), c.args[0])])


@model("std::sync::Mutex::lock", "std::sync::RwLock::read", "std::sync::RwLock::write", "std::sync::Mutex::try_lock")
def _lock(c, s):
    ts = c.ip.targets(c.args[0])
    r = under(mk_ite([(g, mk("guard", mk("ref", ro, p + (("cell",),)))) for g, ro, p in ts]), s.g)
    c.ip.event("lock", c.nm, [r], s, c.span, c.fr, info=c)
    return ok(r)


@model("std::cell::RefCell::into_inner", "std::sync::Mutex::into_inner")
def _intoinner(c, s):
    v = project(c.args[0], ("cell",))
    return ok(v) if "Mutex" in c.nm else v


@model("std::rc::Rc::new", "std::sync::Arc::new")
def _rcnew(c, s):
    p = mk("rcnew", c.fr.body["path"], str(c.span), c.args[0])
    s.mem[mk("obj", p)] = c.args[0]
    return p


@model("std::rc::Rc::ptr_eq", "std::sync::Arc::ptr_eq")
def _ptreq(c, s):
    return compare("Eq", c.ip.load(s, c.args[0]), c.ip.load(s, c.args[1]))


@model("std::rc::Rc::downgrade", "std::sync::Arc::downgrade")
def _downgrade(c, s):
    return mk("weak", c.ip.load(s, c.args[0]))


@model("std::boxed::Box::new", "std::boxed::Box::pin")
def _boxnew(c, s):
    return mk("boxed", c.args[0])


@model("std::boxed::Box::new_uninit")
def _boxuninit(c, s):
    return mk("boxuninit", c.ip.fresh("box"))


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::into_vec")
def _intovec(c, s):
    v = c.args[0]
    # writes went through a raw pointer derived from the box
    for root, val in s.mem.items():
        if root.op == "obj" and contains(root, lambda x: x is v):
            if val.op == "agg" and len(val.a[2]) == 1:
                # MaybeUninit{value: ManuallyDrop{value: [..]}}
                x = val
                while x.op == "agg" and x.a[0] != "array" and len(x.a[2]) == 1:
                    x = x.a[2][0][1]
                return x
            x = val
            while x.op == "upd" and len(x.a[1]) == 1 and x.a[1][0][0] in (("f", "value"), ("v", 0), ("f", "0")) or x.op == "agg" and x.a[0] != "array" and len(x.a[2]) == 1:
                x = x.a[1][0][1] if x.op == "upd" else x.a[2][0][1]
            return x
    if v.op == "boxed":
        return v.a[0]
    return mk("call", "vec!", v)


# --------------------------------------------------------------------- options
def opt_is(c, s, i, idx):
    return c.ip.variant(c.peel(s, i), idx)


@model("std::option::Option::is_some")
def _(c, s):
    return bool_t(opt_is(c, s, 0, 1))


@model("std::option::Option::is_none")
def _(c, s):
    return bool_t(opt_is(c, s, 0, 0))


@model("std::result::Result::is_ok")
def _(c, s):
    return bool_t(opt_is(c, s, 0, 0))


@model("std::result::Result::is_err")
def _(c, s):
    return bool_t(opt_is(c, s, 0, 1))


def good_idx(c, i=0):
    t = c.peeled_ty(i)
    return 1 if t.get("def") == OPTION else 0


@model("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap", "std::result::Result::expect",
       "std::option::Option::unwrap_unchecked")
def _unwrap(c, s):
    v = c.args[0]
    k = good_idx(c)
    good = c.ip.variant(v, k)
    bad = b_and(s.g, b_not(good))
    if bad != FALSE:
        c.ip.event("unwrap", c.nm, [v], s, c.span, c.fr, extra_guard=b_not(good), info=c)
    s.g = b_and(s.g, good)
    return c.ip.payload(under(v, s.g), k)


@model("std::result::Result::unwrap_err", "std::result::Result::expect_err")
def _(c, s):
    v = c.args[0]
    s.g = b_and(s.g, c.ip.variant(v, 1))
    return c.ip.payload(under(v, s.g), 1)


@model("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def _(c, s):
    v, d = c.args
    k = good_idx(c)
    good = c.ip.variant(v, k)
    return norm_minmax(mk_ite([(good, c.ip.payload(v, k)), (b_not(good), d)]))


@model("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def _(c, s):
    v = c.args[0]
    k = good_idx(c)
    good = c.ip.variant(v, k)
    return mk_ite([(good, c.ip.payload(v, k)), (b_not(good), default_of(c, s, c.dty))])


def default_of(c, s, tid):
    t = c.ip.ty(tid, c.fr)
    if t["k"] in ("int", "float"):
        return ZERO
    if t["k"] == "bool":
        return BF
    d = t.get("def", "")
    if d == OPTION:
        return NONE
    if d in ("std::string::String",):
        return mk("str", "")
    if d in ("std::vec::Vec", "std::collections::VecDeque"):
        return EMPTY
    if d in ("std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet"):
        return mk("emptymap")
    if t["k"] == "tuple":
        return tup(*[default_of(c, s, x) for x in t["args"]]) if t["args"] else UNIT
    # local Default impl
    for im in c.ip.crate.trait_impls.get("std::default::Default", []):
        if c.ip.crate.types[im["self"]]["s"] == t["s"]:
            for n, k, ti in im["items"]:
                b = c.ip.crate.bodies.get(k)
                if b is not None and b["key"] not in c.fr.stack:
                    return c.ip.call_body(s, b, [], {}, c.fr.stack)
    return mk("call", "default", mk("tyname", t["s"]))


@model("std::default::Default::default")
def _(c, s):
    if c.f.get("rk") == "item" and c.f.get("local") and not c.ip.crate.bodies.get(c.f["r"], {}).get("derived"):
        return NotImplemented
    if c.f.get("local"):
        b = c.ip.crate.bodies.get(c.f["r"])
        if b is not None and b["key"] not in c.fr.stack:
            return c.ip.call_body(s, b, [], {}, c.fr.stack)
    return default_of(c, s, c.dty)


@model("std::option::Option::unwrap_or_else", "std::result::Result::unwrap_or_else")
def _(c, s):
    v, f = c.args
    k = good_idx(c)
    good = c.ip.variant(v, k)
    return norm_minmax(c.ip.branch(s, [
        (good, lambda st: c.ip.payload(under(v, st.g), k)),
        (b_not(good), lambda st: c.ip.apply(c.fr, st, f, [] if k == 1 else [c.ip.payload(v, 1)], c.span))]))


@model("std::option::Option::map", "std::result::Result::map")
def _(c, s):
    v, f = c.args
    k = good_idx(c)
    w = some if k == 1 else ok
    good = c.ip.variant(v, k)
    return c.ip.branch(s, [
        (good, lambda st: w(c.ip.apply(c.fr, st, f, [c.ip.payload(under(v, st.g), k)], c.span))),
        (b_not(good), lambda st: NONE if k == 1 else err(c.ip.payload(v, 1)))])


@model("std::option::Option::and_then", "std::result::Result::and_then")
def _(c, s):
    v, f = c.args
    k = good_idx(c)
    good = c.ip.variant(v, k)
    return c.ip.branch(s, [
        (good, lambda st: c.ip.apply(c.fr, st, f, [c.ip.payload(under(v, st.g), k)], c.span)),
        (b_not(good), lambda st: NONE if k == 1 else err(c.ip.payload(v, 1)))])


@model("std::option::Option::map_or", "std::result::Result::map_or")
def _(c, s):
    v, d, f = c.args
    k = good_idx(c)
    good = c.ip.variant(v, k)
    return c.ip.branch(s, [
        (good, lambda st: c.ip.apply(c.fr, st, f, [c.ip.payload(under(v, st.g), k)], c.span)),
        (b_not(good), lambda st: d)])


@model("std::option::Option::map_or_else", "std::result::Result::map_or_else")
def _(c, s):
    v, d, f = c.args
    k = good_idx(c)
    good = c.ip.variant(v, k)
    return c.ip.branch(s, [
        (good, lambda st: c.ip.apply(c.fr, st, f, [c.ip.payload(under(v, st.g), k)], c.span)),
        (b_not(good), lambda st: c.ip.apply(c.fr, st, d, [] if k == 1 else [c.ip.payload(v, 1)], c.span))])


@model("std::option::Option::is_some_and", "std::result::Result::is_ok_and", "std::option::Option::is_none_or")
def _(c, s):
    v, f = c.args
    k = good_idx(c)
    good = c.ip.variant(v, k)
    other = BT if c.nm.endswith("none_or") else BF
    return c.ip.branch(s, [
        (good, lambda st: c.ip.apply(c.fr, st, f, [c.ip.payload(under(v, st.g), k)], c.span)),
        (b_not(good), lambda st: other)])


@model("core::bool::then", "core::bool::then_some", "std::bool::then", "std::bool::then_some")
def _(c, s):
    v, f = c.args
    g = b_of(v)
    if c.nm.endswith("then_some"):
        return mk_ite([(g, some(f)), (b_not(g), NONE)])
    return c.ip.branch(s, [(g, lambda st: some(c.ip.apply(c.fr, st, f, [], c.span))), (b_not(g), lambda st: NONE)])


@model("std::option::Option::filter")
def _(c, s):
    v, f = c.args
    good = c.ip.variant(v, 1)

    def yes(st):
        x = c.ip.payload(under(v, st.g), 1)
        root = mk("const", x)
        b = c.ip.apply(c.fr, st, f, [mk("ref", root, ())], c.span)
        return mk_ite([(b_of(b), some(x)), (b_not(b_of(b)), NONE)])
    return c.ip.branch(s, [(good, yes), (b_not(good), lambda st: NONE)])


@model("std::option::Option::ok_or", "std::option::Option::ok_or_else")
def _(c, s):
    v = c.args[0]
    good = c.ip.variant(v, 1)
    return mk_ite([(good, ok(c.ip.payload(v, 1))), (b_not(good), err(mk("err", "ok_or")))])


@model("std::result::Result::ok")
def _(c, s):
    v = c.args[0]
    good = c.ip.variant(v, 0)
    return mk_ite([(good, some(c.ip.payload(v, 0))), (b_not(good), NONE)])


@model("std::result::Result::err")
def _(c, s):
    v = c.args[0]
    good = c.ip.variant(v, 0)
    return mk_ite([(b_not(good), some(c.ip.payload(v, 1))), (good, NONE)])


@model("std::result::Result::map_err", "anyhow::Context::context", "anyhow::Context::with_context")
def _(c, s):
    v = c.args[0]
    if c.peeled_ty(0).get("def") == OPTION:
        good = c.ip.variant(v, 1)
        return mk_ite([(good, ok(c.ip.payload(v, 1))), (b_not(good), err(mk("err", "context")))])
    good = c.ip.variant(v, 0)
    return mk_ite([(good, ok(c.ip.payload(v, 0))), (b_not(good), err(mk("err", "mapped")))])


@model("std::option::Option::or", "std::option::Option::xor")
def _(c, s):
    v, w = c.args
    good = c.ip.variant(v, 1)
    return mk_ite([(good, v), (b_not(good), w)])


@model("std::option::Option::or_else")
def _(c, s):
    v, f = c.args
    good = c.ip.variant(v, 1)
    return c.ip.branch(s, [(good, lambda st: under(v, st.g)), (b_not(good), lambda st: c.ip.apply(c.fr, st, f, [], c.span))])


@model("std::option::Option::and", "std::result::Result::and")
def _(c, s):
    v, w = c.args
    k = good_idx(c)
    good = c.ip.variant(v, k)
    return mk_ite([(good, w), (b_not(good), v)])


@model("std::option::Option::transpose")
def _(c, s):
    # Option<Result<T>> -> Result<Option<T>>
    v = c.args[0]
    good = c.ip.variant(v, 1)
    x = c.ip.payload(v, 1)
    fine = c.ip.variant(x, 0)
    return mk_ite([(b_not(good), ok(NONE)), (b_and(good, fine), ok(some(c.ip.payload(x, 0)))),
                   (b_and(good, b_not(fine)), err(c.ip.payload(x, 1)))])


@model("std::result::Result::transpose")
def _(c, s):
    # Result<Option<T>> -> Option<Result<T>>
    v = c.args[0]
    good = c.ip.variant(v, 0)
    x = c.ip.payload(v, 0)
    there = c.ip.variant(x, 1)
    return mk_ite([(b_not(good), some(err(c.ip.payload(v, 1)))), (b_and(good, there), some(ok(c.ip.payload(x, 1)))),
                   (b_and(good, b_not(there)), NONE)])


@model("std::option::Option::flatten", "std::result::Result::flatten")
def _(c, s):
    v = c.args[0]
    k = good_idx(c)
    good = c.ip.variant(v, k)
    return mk_ite([(good, c.ip.payload(v, k)), (b_not(good), NONE if k == 1 else err(c.ip.payload(v, 1)))])


@model("std::option::Option::zip")
def _(c, s):
    v, w = c.args
    good = b_and(c.ip.variant(v, 1), c.ip.variant(w, 1))
    return mk_ite([(good, some(tup(c.ip.payload(v, 1), c.ip.payload(w, 1)))), (b_not(good), NONE)])


@model("std::option::Option::as_ref", "std::option::Option::as_mut", "std::result::Result::as_ref", "std::result::Result::as_mut",
       "std::option::Option::as_deref", "std::option::Option::as_deref_mut")
def _(c, s):
    ts = deref_path(c, s)
    v = c.peel(s, 0)
    k = good_idx(c)
    good = c.ip.variant(v, k)
    r = refs(s, ts, (("v", k), ("f", "0")))
    if c.nm.endswith(("as_deref", "as_deref_mut")):
        x = c.ip.payload(v, 1)
        it = c.ip.ty(c.peeled_ty(0)["args"][0], c.fr)
        if it.get("def") in ("std::rc::Rc", "std::sync::Arc"):
            r = x
        elif it.get("def") == "std::boxed::Box":
            r = refs(s, ts, (("v", k), ("f", "0"), ("box",)))
    if k == 1:
        return mk_ite([(good, some(r)), (b_not(good), NONE)])
    return mk_ite([(good, ok(r)), (b_not(good), err(refs(s, ts, (("v", 1), ("f", "0")))))])


@model("std::option::Option::cloned", "std::option::Option::copied", "std::result::Result::cloned")
def _(c, s):
    v = c.args[0]
    k = good_idx(c)
    good = c.ip.variant(v, k)
    w = some if k == 1 else ok

    def yes(st):
        return w(c.ip.load(st, c.ip.payload(under(v, st.g), k)))
    return c.ip.branch(s, [(good, yes), (b_not(good), lambda st: NONE if k == 1 else under(v, st.g))])


@model("std::option::Option::take", "std::mem::take")
def _(c, s):
    v = c.ip.load(s, c.args[0])
    if c.nm == "std::mem::take":
        t = c.ip.ty(c.atys[0], c.fr)
        c.ip.store(s, c.args[0], default_of(c, s, t["inner"]))
    else:
        c.ip.store(s, c.args[0], NONE)
    return v


@model("std::mem::replace", "std::option::Option::replace", "std::cell::Cell::replace")
def _(c, s):
    if "Cell" in c.nm:
        return c.opq(s)
    v = c.ip.load(s, c.args[0])
    c.ip.store(s, c.args[0], some(c.args[1]) if "Option" in c.nm else c.args[1])
    return v


@model("std::clone::Clone::clone_from")
def _(c, s):
    c.ip.store(s, c.args[0], c.ip.load(s, c.args[1]))
    return UNIT


@model("std::mem::swap")
def _(c, s):
    a, b = c.ip.load(s, c.args[0]), c.ip.load(s, c.args[1])
    c.ip.store(s, c.args[0], b)
    c.ip.store(s, c.args[1], a)
    return UNIT


@model("std::ops::Try::branch")
def _(c, s):
    v = c.args[0]
    t = c.aty(0)
    if t.get("def") == OPTION:
        good = c.ip.variant(v, 1)
        return mk_ite([(good, mk("agg", CFLOW, 0, (("0", c.ip.payload(v, 1)),))),
                       (b_not(good), mk("agg", CFLOW, 1, (("0", NONE),)))])
    good = c.ip.variant(v, 0)
    return mk_ite([(good, mk("agg", CFLOW, 0, (("0", c.ip.payload(v, 0)),))),
                   (b_not(good), mk("agg", CFLOW, 1, (("0", err(c.ip.payload(v, 1))),)))])


@model("std::ops::FromResidual::from_residual")
def _(c, s):
    def f(x):
        if x.op == "agg" and x.a[0] == OPTION:
            return NONE
        return err(c.ip.payload(x, 1))
    return lift(f, c.args[0])


# ------------------------------------------------------------------ comparison
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _(c, s):
    a, b = beneath(c, s, c.peel(s, 0)), beneath(c, s, c.peel(s, 1))
    return compare("Eq" if c.nm.endswith("eq") else "Ne", a, b)


def beneath(c, s, x):
    """options and tuples of references are compared by what is referred to"""
    if x.op == "ite":
        return lift(lambda y: beneath(c, s, y), x)
    if x.op == "agg" and x.a[2] and (x.a[0] == "tuple" or x.a[0].endswith("option::Option")):
        fs = tuple((k, c.ip.load(s, v) if v.op == "ref" else v) for k, v in x.a[2])
        if fs != x.a[2]:
            return mk("agg", x.a[0], x.a[1], fs)
    return x


def _cmp(op):
    def f(c, s):
        if c.peeled_ty(0).get("def", "").startswith("tracing_core::") or c.peeled_ty(0).get("def", "").startswith("tracing::"):
            # "is this log level enabled": formatting a log line changes no value; analysed as disabled
            return BF
        return compare(op, c.peel(s, 0), c.peel(s, 1))
    return f


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["std::cmp::PartialOrd::" + _n] = _cmp(_o)


@model("std::cmp::Ord::cmp", "std::f64::total_cmp", "core::f64::total_cmp")
def _(c, s):
    return c.ip.ordering(c.peel(s, 0), c.peel(s, 1))


@model("std::cmp::PartialOrd::partial_cmp")
def _(c, s):
    return lift(some, c.ip.ordering(c.peel(s, 0), c.peel(s, 1)))


@model("std::cmp::Ordering::reverse")
def _(c, s):
    def f(x):
        return mk("agg", ORDERING, 2 - x.a[1], ()) if x.op == "agg" else mk("call", "reverse", x)
    return lift(f, c.args[0])


@model("std::cmp::Ordering::is_lt", "std::cmp::Ordering::is_gt", "std::cmp::Ordering::is_eq", "std::cmp::Ordering::is_le", "std::cmp::Ordering::is_ge")
def _(c, s):
    k = {"lt": (0,), "gt": (2,), "eq": (1,), "le": (0, 1), "ge": (1, 2)}[c.nm[-2:]]
    r = FALSE
    for i in k:
        r = b_or(r, c.ip.variant(c.args[0], i, 3))
    return bool_t(r)


for _p in ("std::cmp::Ord::", "std::f64::", "core::f64::", "std::f32::", "core::f32::", "std::cmp::"):
    MODELS[_p + "min"] = lambda c, s: minmax("min", c.args[0], c.args[1])
    MODELS[_p + "max"] = lambda c, s: minmax("max", c.args[0], c.args[1])


# ------------------------------------------------------------------ arithmetic
def _timeish(t):
    return t["s"].lstrip("&").replace("'_ ", "").startswith(("time::", "std::time::"))


def is_nd(t):
    return t.get("def") == "ndarray::ArrayBase"


def elementwise(fn, a, b, na, nb):
    """array op array / array op scalar"""
    def g(x, y):
        src = base_src(x if na else y)
        p = pos(src)
        el = lambda v: project(v, ("at", p))
        return mk_tab(src, lift(fn, el(x) if na else x, el(y) if nb else y))
    return lift(g, a, b)


def _arith(fn):
    def f(c, s):
        t0, t1 = c.peeled_ty(0), c.peeled_ty(1)
        prim = ("int", "float")
        if is_nd(t0) and (is_nd(t1) or t1["k"] in prim) or is_nd(t1) and t0["k"] in prim:
            return elementwise(fn, c.peel(s, 0), c.peel(s, 1), is_nd(t0), is_nd(t1))
        if (t0["k"] in prim and t1["k"] in prim) or (_timeish(t0) and (_timeish(t1) or t1["k"] in prim)):
            return lift(fn, c.peel(s, 0), c.peel(s, 1))
        return c.opq(s)
    return f


def _arith_assign(fn):
    def f(c, s):
        t0, t1 = c.peeled_ty(0), c.peeled_ty(1)
        prim = ("int", "float")
        if is_nd(t0) and (is_nd(t1) or t1["k"] in prim):
            old = c.ip.load(s, c.args[0])
            c.ip.store(s, c.args[0], elementwise(fn, old, c.peel(s, 1), True, is_nd(t1)))
            return UNIT
        if (t0["k"] in prim and t1["k"] in prim) or (_timeish(t0) and (_timeish(t1) or t1["k"] in prim)):
            old = c.ip.load(s, c.args[0])
            c.ip.store(s, c.args[0], lift(fn, old, c.peel(s, 1)))
            return UNIT
        return c.opq(s)
    return f


for _n, _f in (("Add::add", p_add), ("Sub::sub", p_sub), ("Mul::mul", p_mul)):
    MODELS["std::ops::" + _n] = _arith(_f)
    a, b = _n.split("::")
    MODELS[f"std::ops::{a}Assign::{b}_assign"] = _arith_assign(_f)


@model("std::ops::Div::div")
def _(c, s):
    t0, t1 = c.peeled_ty(0), c.peeled_ty(1)
    if t0["k"] == "float" and t1["k"] == "float":
        return lift(p_div, c.peel(s, 0), c.peel(s, 1))
    if is_nd(t0) and (is_nd(t1) or t1["k"] == "float") or is_nd(t1) and t0["k"] == "float":
        return elementwise(p_div, c.peel(s, 0), c.peel(s, 1), is_nd(t0), is_nd(t1))
    if t0["k"] == "int":
        return c.ip.binop("Div", c.peel(s, 0), c.peel(s, 1), None, t0)
    return c.opq(s)


@model("std::ops::Not::not", "anyhow::__private::not")
def _(c, s):
    if c.ip.ty(c.dty, c.fr)["k"] == "bool":
        return bool_t(b_not(b_of(c.peel(s, 0))))
    return c.opq(s)


def _ndmap(c, s):
    v = c.peel(s, 0)
    byref = c.nm.endswith("::map")

    def g(x):
        src = base_src(x)
        e = project(x, ("at", pos(src)))
        return mk_tab(src, c.ip.apply(c.fr, s, c.args[1], [mk("ref", mk("const", e), ()) if byref else e], c.span))
    return lift(g, v)


MODELS["ndarray::impl_methods::mapv"] = MODELS["ndarray::impl_methods::map"] = MODELS["ndarray::impl_methods::mapv_into"] = _ndmap


@model("ndarray::impl_methods::mapv_inplace")
def _(c, s):
    c.ip.store(s, c.args[0], _ndmap(c, s))
    return UNIT


@model("ndarray::numeric::impl_numeric::sum", "ndarray::numeric::impl_numeric::product")
def _(c, s):
    kind = "sum" if c.nm.endswith("sum") else "prod"

    def g(x):
        src = base_src(x)
        dep = sum(1 for k in c.ip.loopstack for s2, _ in k.srcs.values() if s2 is src)
        return mk(kind, src, project(x, ("at", mk("ix", src, dep))))
    return lift(g, c.peel(s, 0))


@model("ndarray::impl_constructors::zeros", "ndarray::impl_constructors::ones", "ndarray::impl_constructors::from_elem")
def _(c, s):
    n = c.args[0]
    if c.aty(0)["k"] != "int":
        return c.opq(s)
    e = ZERO if c.nm.endswith("zeros") else ONE if c.nm.endswith("ones") else c.args[1]
    return mk("repeat", e, n) if n.op != "ite" else lift(lambda k: mk("repeat", e, k), n)


@model("ndarray::impl_constructors::from_vec", "ndarray::impl_methods::into_raw_vec", "ndarray::impl_constructors::from_iter")
def _(c, s):
    if c.nm.endswith("from_iter"):
        return NotImplemented
    return c.args[0]


@model("std::ops::Neg::neg")
def _(c, s):
    if is_nd(c.peeled_ty(0)):
        return elementwise(lambda a, b: p_neg(a), c.peel(s, 0), ZERO, True, False)
    return lift(p_neg, c.peel(s, 0))


def powi(x, n):
    if n.op == "num" and abs(n.a[0]) <= 8 and n.a[0].denominator == 1:
        r = ONE
        for _ in range(int(abs(n.a[0]))):
            r = p_mul(r, x)
        return p_inv(r) if n.a[0] < 0 else r
    return mk("call", "powi", x, n)


def ln_(x):
    """logarithm of a product as a sum of logarithms"""
    d = to_poly(x)
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and m:
            r = ZERO
            for a, e in m:
                r = p_add(r, p_mul(num(e), a.a[1] if a.op == "call" and a.a[0] == "exp" else mk("call", "ln", a)))
            return r
        if c == 1:
            return ZERO
    return mk("call", "ln", x)


def exp_(x):
    """exponential, with a fixed sign for the leading term"""
    if x is ZERO:
        return ONE
    if x.op == "call" and x.a[0] == "ln":
        return x.a[1]
    d = to_poly(x)
    c = next(iter(d.values())) if x.op != "poly" else x.a[0][0][1]
    if c < 0:
        return p_inv(mk("call", "exp", p_neg(x)))
    return mk("call", "exp", x)


def powf_(x, n):
    if n.op == "num" and n.a[0].denominator == 1 and abs(n.a[0]) <= 8:
        return powi(x, n)
    if n.op == "num" and n.a[0] == Fraction(1, 2):
        return mk("call", "sqrt", x)
    return mk("call", "powf", x, n)


for _p in ("std::f64::", "std::f32::", "core::f64::", "core::f32::"):
    MODELS[_p + "powi"] = lambda c, s: lift(powi, c.args[0], c.args[1])
    MODELS[_p + "powf"] = lambda c, s: lift(powf_, c.args[0], c.args[1])
    MODELS[_p + "mul_add"] = lambda c, s: lift(lambda x, a, b: p_add(p_mul(x, a), b), *c.args)
    MODELS[_p + "recip"] = lambda c, s: lift(p_inv, c.args[0])
    MODELS[_p + "abs"] = lambda c, s: lift(lambda x: num(abs(x.a[0])) if x.op == "num" else mk("call", "abs", x), c.args[0])
    for _f in ("exp", "ln", "sqrt", "floor", "ceil", "round", "trunc", "sin", "cos", "log10", "exp_m1", "ln_1p", "is_nan", "is_finite", "signum"):
        def _mk(fn):
            def f(c, s):
                r = lift(ln_ if fn == "ln" else exp_ if fn == "exp" else lambda x: mk("call", fn, x), c.args[0])
                return bool_t(b_of(r)) if fn.startswith("is_") else r
            return f
        MODELS[_p + _f] = _mk(_f)


@model("core::num::saturating_sub")
def _(c, s):
    return minmax("max", lift(p_sub, c.args[0], c.args[1]), ZERO)


@model("core::num::abs", "core::num::unsigned_abs")
def _(c, s):
    return lift(lambda x: num(abs(x.a[0])) if x.op == "num" else mk("call", "abs", x), c.args[0])


@model("core::num::abs_diff")
def _(c, s):
    return lift(lambda x, y: mk("call", "abs", p_sub(x, y)), c.args[0], c.args[1])


@model("core::num::checked_add", "core::num::checked_sub", "core::num::checked_mul")
def _(c, s):
    f = {"add": p_add, "sub": p_sub, "mul": p_mul}[c.nm[-3:]]
    r = lift(f, c.args[0], c.args[1])
    good = lit(mk("call", c.nm + "?", *c.args))
    return mk_ite([(good, some(r)), (b_not(good), NONE)])


@model("core::num::wrapping_add", "core::num::wrapping_sub", "core::num::wrapping_mul")
def _(c, s):
    f = {"add": p_add, "sub": p_sub, "mul": p_mul}[c.nm[-3:]]
    return lift(f, c.args[0], c.args[1])


@model("core::num::wrapping_neg")
def _(c, s):
    return lift(p_neg, c.args[0])


@model("core::num::pow")
def _(c, s):
    def f(x, n):
        if x.op == "num" and n.op == "num":
            return num(x.a[0] ** int(n.a[0]))
        return powi(x, n)
    return lift(f, c.args[0], c.args[1])


@model("core::num::rem_euclid")
def _(c, s):
    def f(x, y):
        if x.op == "num" and y.op == "num" and y.a[0] != 0:
            return num(int(x.a[0]) % abs(int(y.a[0])))
        return mk("call", "rem_euclid", x, y)
    return lift(f, c.args[0], c.args[1])


@model("core::num::div_euclid")
def _(c, s):
    def f(x, y):
        return mk("call", "div_euclid", x, y)
    return lift(f, c.args[0], c.args[1])


# ----------------------------------------------------------------- collections
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::VecDeque::new", "std::collections::VecDeque::with_capacity",
       "std::string::String::with_capacity")
def _(c, s):
    return mk("str", "") if "String" in c.nm else EMPTY


@model("std::string::String::new")
def _(c, s):
    return mk("str", "")


@model("std::collections::HashMap::new", "std::collections::BTreeMap::new", "std::collections::HashSet::new",
       "std::collections::HashMap::with_capacity", "std::collections::BTreeSet::new", "std::collections::HashMap::with_hasher",
       "std::collections::HashMap::with_capacity_and_hasher")
def _(c, s):
    return mk("emptymap")


@model("std::vec::from_elem")
def _(c, s):
    n = c.args[1]
    if n.op == "num" and n.a[0] <= 64:
        return arr([c.args[0]] * int(n.a[0]))
    return mk("repeat", c.args[0], n)


def push_val(v, x):
    def f(b):
        if b.op == "agg" and b.a[0] == "array" and len(b.a[2]) < 64:
            return arr([y for _, y in b.a[2]] + [x])
        return mk("push", b, x)
    return lift(f, v)


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back", "std::string::String::push", "std::string::String::push_str")
def _(c, s):
    old = c.ip.load(s, c.args[0])
    x = c.args[1]
    if c.nm.endswith("push_str"):
        x = c.peel(s, 1)
    c.ip.event("push", c.nm, [c.args[0], x, old], s, c.span, c.fr, info=c)
    if old.op == "str" and x.op == "str" and c.nm.endswith("push_str"):
        c.ip.store(s, c.args[0], mk("str", old.a[0] + x.a[0]))
    else:
        c.ip.store(s, c.args[0], push_val(old, x))
    return UNIT


@model("std::collections::VecDeque::push_front")
def _(c, s):
    old = c.ip.load(s, c.args[0])
    c.ip.event("push_front", c.nm, [c.args[0], c.args[1], old], s, c.span, c.fr, info=c)
    c.ip.store(s, c.args[0], mk("pushf", old, c.args[1]))
    return UNIT


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_back", "std::collections::VecDeque::pop_front")
def _(c, s):
    old = c.ip.load(s, c.args[0])
    front = c.nm.endswith("front")
    c.ip.event("pop_front" if front else "pop_back", c.nm, [c.args[0], old], s, c.span, c.fr, info=c)
    emp = b_of(compare("Eq", length(old), ZERO))
    ix = ZERO if front else p_sub(length(old), ONE)
    c.ip.store(s, c.args[0], mk_ite([(emp, old), (b_not(emp), mk("popf" if front else "popb", old))]))
    return mk_ite([(emp, NONE), (b_not(emp), some(project(old, ix_el(ix))))])


@model("std::vec::Vec::clear", "std::collections::HashMap::clear", "std::collections::BTreeMap::clear", "std::collections::VecDeque::clear", "std::string::String::clear")
def _(c, s):
    old = c.ip.load(s, c.args[0])
    c.ip.event("clear", c.nm, [c.args[0], old], s, c.span, c.fr, info=c)
    c.ip.store(s, c.args[0], mk("emptymap") if "Map" in c.nm else mk("str", "") if "String" in c.nm else EMPTY)
    return UNIT


@model("std::vec::Vec::len", "core::slice::len", "core::str::len", "std::string::String::len", "std::collections::VecDeque::len",
       "std::collections::HashMap::len", "std::collections::BTreeMap::len", "ndarray::impl_methods::len", "std::collections::HashSet::len")
def _(c, s):
    return length(c.peel(s, 0))


@model("std::vec::Vec::is_empty", "core::slice::is_empty", "core::str::is_empty", "std::collections::VecDeque::is_empty",
       "std::collections::HashMap::is_empty", "std::collections::BTreeMap::is_empty", "ndarray::impl_methods::is_empty",
       "std::string::String::is_empty", "std::collections::HashSet::is_empty")
def _(c, s):
    return compare("Eq", length(c.peel(s, 0)), ZERO)


def index_el(c, s, i, base):
    """path element for an index argument"""
    t = c.aty(i)
    v = c.args[i]
    d = t.get("def", "")
    if d.startswith("std::ops::Range") or d.startswith("std::range::Range"):
        if d.endswith("RangeFull"):
            return ("rng", ZERO, length(base))
        if d.endswith("RangeFrom"):
            return ("rng", project(v, ("f", "start")), length(base))
        if d.endswith("RangeTo"):
            return ("rng", ZERO, project(v, ("f", "end")))
        if d.endswith("RangeToInclusive"):
            return ("rng", ZERO, p_add(project(v, ("f", "end")), ONE))
        if d.endswith("RangeInclusive"):
            return ("rng", project(v, ("f", "start")), p_add(project(v, ("f", "end")), ONE))
        return ("rng", project(v, ("f", "start")), project(v, ("f", "end")))
    return ix_el(v)


MAPS = ("std::collections::HashMap", "std::collections::BTreeMap")


def is_map(t):
    return t.get("def", "") in MAPS


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(c, s):
    t = c.peeled_ty(0)
    if c.f.get("local") and c.f.get("rk") == "item":
        return NotImplemented
    ts = deref_path(c, s)
    base = c.peel(s, 0)
    if is_map(t):
        k = c.peel(s, 1)
        has = map_has(base, k)
        c.ip.event("unwrap", "map index", [base, k], s, c.span, c.fr, extra_guard=b_not(has), info=c)
        s.g = b_and(s.g, has)
        el = ("key", k)
    else:
        el = index_el(c, s, 1, base)
        c.ip.event("index", "index", [base] + list(el[1:]), s, c.span, c.fr, info=c)
    return refs(s, ts, (el,))


@model("core::slice::split_at", "core::slice::split_at_mut", "core::str::split_at")
def _(c, s):
    ts = deref_path(c, s)
    base, k = c.peel(s, 0), c.args[1]
    n = length(base)
    c.ip.event("index", "split_at", [base, ZERO, k], s, c.span, c.fr, info=c)
    return tup(refs(s, ts, (("rng", ZERO, k),)), refs(s, ts, (("rng", k, n),)))


@model("core::slice::get", "core::slice::get_mut", "std::vec::Vec::get", "std::collections::VecDeque::get", "std::collections::VecDeque::get_mut",
       "core::str::get")
def _(c, s):
    ts = deref_path(c, s)
    base = c.peel(s, 0)
    el = index_el(c, s, 1, base)
    n = length(base)
    if el[0] == "idx":
        good = b_of(compare("Lt", el[1], n))
    else:
        good = b_and(b_of(compare("Le", el[2], n)), b_of(compare("Le", el[1], el[2])))
    return mk_ite([(good, some(refs(s, ts, (el,)))), (b_not(good), NONE)])


@model("core::slice::first", "core::slice::last", "std::collections::VecDeque::front", "std::collections::VecDeque::back",
       "std::collections::VecDeque::front_mut", "std::collections::VecDeque::back_mut", "core::slice::first_mut", "core::slice::last_mut")
def _(c, s):
    ts = deref_path(c, s)
    base = c.peel(s, 0)
    n = length(base)
    emp = b_of(compare("Eq", n, ZERO))
    first = "first" in c.nm or "front" in c.nm
    el = ("idx", ZERO if first else p_sub(n, ONE))
    return mk_ite([(emp, NONE), (b_not(emp), some(refs(s, ts, (el,))))])


@model("core::slice::contains", "std::collections::VecDeque::contains", "std::collections::HashSet::contains")
def _(c, s):
    base, x = c.peel(s, 0), c.peel(s, 1)

    def f(b, y):
        if b.op == "agg" and b.a[0] == "array" and len(b.a[2]) <= 64:
            r = FALSE
            for _, e in b.a[2]:
                e2 = e
                while e2.op == "ref":
                    e2 = c.ip.load(s, e2)
                r = b_or(r, b_of(lift(lambda p, q: bool_t(eq_bdd(p, q)), e2, y)))
            return bool_t(r)
        return bool_t(lit(mk("call", "contains", b, y)))
    return lift(f, base, x)


@model("core::slice::starts_with")
def _(c, s):
    base, x = c.peel(s, 0), c.peel(s, 1)

    def f(b, y):
        if y.op == "agg" and y.a[0] == "array" and len(y.a[2]) <= 32:
            n = num(len(y.a[2]))
            return bool_t(b_and(b_of(compare("Ge", length(b), n)), eq_bdd(project(b, ("rng", ZERO, n)), y)))
        return bool_t(lit(mk("call", "starts_with", b, y)))
    return lift(f, base, x)


@model("std::ops::RangeInclusive::contains", "std::ops::Range::contains", "std::ops::RangeFrom::contains", "std::ops::RangeTo::contains",
       "std::ops::RangeToInclusive::contains")
def _(c, s):
    r, x = c.peel(s, 0), c.peel(s, 1)
    lo = b_of(compare("Ge", x, project(r, ("f", "start")))) if "RangeTo" not in c.nm else TRUE
    if "RangeFrom" in c.nm:
        return bool_t(lo)
    op = "Le" if "Inclusive" in c.nm else "Lt"
    hi = b_of(compare(op, x, project(r, ("f", "end"))))
    return bool_t(b_and(lo, hi))


@model("std::ops::RangeInclusive::new")
def _(c, s):
    return mk("agg", "std::ops::RangeInclusive", 0, (("start", c.args[0]), ("end", c.args[1])))


@model("std::vec::Vec::remove", "std::collections::VecDeque::remove", "std::vec::Vec::swap_remove")
def _(c, s):
    old = c.ip.load(s, c.args[0])
    c.ip.event("remove_at", c.nm, [c.args[0], c.args[1], old], s, c.span, c.fr, info=c)
    el = project(old, ("idx", c.args[1]))
    if old.op == "agg" and old.a[0] == "array" and c.args[1].op == "num" and "Deque" not in c.nm:
        xs = [y for _, y in old.a[2]]
        i = int(c.args[1].a[0])
        if i < len(xs):
            xs.pop(i)
            c.ip.store(s, c.args[0], arr(xs))
            return el
    c.ip.store(s, c.args[0], mk("rmat", old, c.args[1]))
    if "Deque" in c.nm:
        good = b_of(compare("Lt", c.args[1], length(old)))
        return mk_ite([(good, some(el)), (b_not(good), NONE)])
    return el


@model("std::vec::Vec::append", "std::iter::Extend::extend", "std::vec::Vec::extend_from_slice")
def _(c, s):
    old = c.ip.load(s, c.args[0])
    x = c.args[1]
    if c.nm.endswith("append"):
        y = c.ip.load(s, x)
        c.ip.store(s, x, EMPTY)
    elif c.nm.endswith("slice"):
        y = c.peel(s, 1)
    else:
        y = lift(lambda z: mk("collect", iter_src(z)) if z.op == "iter" else z, x)
    c.ip.event("extend", c.nm, [c.args[0], y, old], s, c.span, c.fr, info=c)
    c.ip.store(s, c.args[0], mk("extend", old, y))
    return UNIT


# maps ------------------------------------------------------------------------
def map_has(m, k):
    def f(m, k):
        while True:
            if m.op == "emptymap":
                return BF
            if m.op == "ins":
                if m.a[1] is k:
                    return BT
                if distinct(m.a[1], k):
                    m = m.a[0]
                    continue
                e = eq_bdd(m.a[1], k)
                return bool_t(b_or(e, b_of(f(m.a[0], k))))
            if m.op == "rem":
                if m.a[1] is k:
                    return BF
                if distinct(m.a[1], k):
                    m = m.a[0]
                    continue
                e = eq_bdd(m.a[1], k)
                return bool_t(b_and(b_not(e), b_of(f(m.a[0], k))))
            if m.op == "upd":
                m = m.a[0]
                continue
            if k.op == "prj" and k.a[1] == ("f", "0") and False:
                return BT
            if k.op == "mapkey" and k.a[0] is m:
                return BT
            return bool_t(lit(mk("has", m, k)))
    return b_of(lift(f, m, k))


def map_get(m, k):
    def f(m, k):
        x = m
        while x.op in ("ins", "rem") and x.a[1] is not k and distinct(x.a[1], k):
            x = x.a[0]
        return project(x, ("key", k))
    return lift(f, m, k)


@model("std::collections::HashMap::get", "std::collections::BTreeMap::get", "std::collections::HashMap::get_mut", "std::collections::BTreeMap::get_mut")
def _(c, s):
    ts = deref_path(c, s)
    m, k = c.peel(s, 0), c.peel(s, 1)
    has = map_has(m, k)
    c.ip.event("map_get", c.nm, [m, k], s, c.span, c.fr, info=c)
    return mk_ite([(has, some(refs(s, ts, (("key", k),)))), (b_not(has), NONE)])


@model("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key")
def _(c, s):
    return bool_t(map_has(c.peel(s, 0), c.peel(s, 1)))


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def _(c, s):
    m = c.ip.load(s, c.args[0])
    k, v = c.args[1], c.args[2]
    c.ip.event("map_insert", c.nm, [c.args[0], k, v, m], s, c.span, c.fr, info=c)
    has = map_has(m, k)
    old = map_get(m, k)
    c.ip.store(s, c.args[0], lift(lambda x: mk("ins", x, k, v), m))
    return mk_ite([(has, some(old)), (b_not(has), NONE)])


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def _(c, s):
    m, k = c.ip.load(s, c.args[0]), c.args[1]
    c.ip.event("set_insert", c.nm, [c.args[0], k, m], s, c.span, c.fr, info=c)
    c.ip.store(s, c.args[0], lift(lambda x: mk("ins", x, k, UNIT), m))
    return bool_t(b_not(b_of(lift(lambda x: bool_t(lit(mk("call", "contains", x, k))), m))))


@model("std::collections::HashMap::remove", "std::collections::BTreeMap::remove")
def _(c, s):
    m = c.ip.load(s, c.args[0])
    k = c.peel(s, 1)
    c.ip.event("map_remove", c.nm, [c.args[0], k, m], s, c.span, c.fr, info=c)
    has = map_has(m, k)
    old = map_get(m, k)
    c.ip.store(s, c.args[0], lift(lambda x: mk("rem", x, k), m))
    return mk_ite([(has, some(old)), (b_not(has), NONE)])


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def _(c, s):
    m = c.ip.load(s, c.args[0])
    has = map_has(m, c.args[1])
    e = mk("entry", c.args[0], c.args[1])
    bt = "BTreeMap" in c.nm
    ty = "std::collections::btree_map::Entry" if bt else "std::collections::hash_map::Entry"
    return mk_ite([(has, mk("agg", ty, 1 if bt else 0, (("0", e),))), (b_not(has), mk("agg", ty, 0 if bt else 1, (("0", e),)))])


def entry_of(e):
    """the entry descriptor behind an Entry / OccupiedEntry / VacantEntry value"""
    for x in walk(e):
        if x.op == "entry":
            return x
    return e


ENTRY_PREFIX = ("std::collections::hash_map::Entry::", "std::collections::btree_map::Entry::")


def entry_parts(c, s, e):
    mref, k = e.a[0], e.a[1]
    m = c.ip.load(s, mref)
    return mref, k, m, map_has(m, k)


def entry_ins(c, s, e, mkval):
    e = entry_of(e)
    if e.op != "entry":
        return c.opq(s)
    mref, k, m, has = entry_parts(c, s, e)

    def ins(st):
        v = mkval(st)
        mm = c.ip.load(st, mref)
        c.ip.event("map_insert", c.nm, [mref, k, v, mm], st, c.span, c.fr, info=c)
        c.ip.store(st, mref, lift(lambda x: mk("ins", x, k, v), mm))
        return UNIT
    c.ip.branch(s, [(has, lambda st: UNIT), (b_not(has), ins)])
    return refs(s, c.ip.targets(mref), (("key", k),))


for _p in ENTRY_PREFIX:
    MODELS[_p + "or_insert"] = lambda c, s: entry_ins(c, s, c.args[0], lambda st: c.args[1])
    MODELS[_p + "or_insert_with"] = lambda c, s: entry_ins(c, s, c.args[0], lambda st: c.ip.apply(c.fr, st, c.args[1], [], c.span))
    MODELS[_p + "or_default"] = lambda c, s: entry_ins(c, s, c.args[0], lambda st: default_of(c, st, c.f["a"][1]))

    def _and_modify(c, s):
        e = entry_of(c.args[0])
        if e.op != "entry":
            return c.opq(s)
        mref, k, m, has = entry_parts(c, s, e)
        r = refs(s, c.ip.targets(mref), (("key", k),))
        c.ip.branch(s, [(has, lambda st: c.ip.apply(c.fr, st, c.args[1], [r], c.span)), (b_not(has), lambda st: UNIT)])
        return c.args[0]
    MODELS[_p + "and_modify"] = _and_modify


@model("std::collections::hash_map::OccupiedEntry::get", "std::collections::btree_map::OccupiedEntry::get",
       "std::collections::hash_map::OccupiedEntry::get_mut", "std::collections::btree_map::OccupiedEntry::get_mut",
       "std::collections::hash_map::OccupiedEntry::into_mut", "std::collections::btree_map::OccupiedEntry::into_mut")
def _(c, s):
    e = c.args[0]
    if c.aty(0)["k"] == "ref":
        e = c.ip.load(s, e)

    def f(e):
        if e.op == "entry":
            return refs(s, c.ip.targets(e.a[0]), (("key", e.a[1]),))
        return mk("call", c.nm, e)
    return lift(f, e)


@model("std::collections::hash_map::OccupiedEntry::remove", "std::collections::btree_map::OccupiedEntry::remove",
       "std::collections::hash_map::OccupiedEntry::remove_entry", "std::collections::btree_map::OccupiedEntry::remove_entry")
def _(c, s):
    e = entry_of(c.args[0])
    if e.op != "entry":
        return c.opq(s)
    mref, k = e.a[0], e.a[1]
    m = c.ip.load(s, mref)
    c.ip.event("map_remove", c.nm, [mref, k, m], s, c.span, c.fr, info=c)
    old = map_get(m, k)
    c.ip.store(s, mref, lift(lambda x: mk("rem", x, k), m))
    return tup(k, old) if c.nm.endswith("entry") and c.nm.endswith("remove_entry") else old


@model("std::collections::hash_map::VacantEntry::insert", "std::collections::btree_map::VacantEntry::insert")
def _(c, s):
    e = entry_of(c.args[0])
    if e.op != "entry":
        return c.opq(s)
    mref, k = e.a[0], e.a[1]
    m = c.ip.load(s, mref)
    c.ip.event("map_insert", c.nm, [mref, k, c.args[1], m], s, c.span, c.fr, info=c)
    c.ip.store(s, mref, lift(lambda x: mk("ins", x, k, c.args[1]), m))
    return refs(s, c.ip.targets(mref), (("key", k),))


@model("std::collections::BTreeMap::first_key_value", "std::collections::BTreeMap::last_key_value")
def _(c, s):
    ts = deref_path(c, s)
    m = c.peel(s, 0)
    emp = b_of(compare("Eq", length(m), ZERO))
    which = "first" if "first" in c.nm else "last"
    k = lift(lambda x: mk("mapkey", x, ZERO if which == "first" else p_sub(length(x), ONE)), m)
    return mk_ite([(emp, NONE), (b_not(emp), some(tup(mk("ref", mk("const", k), ()), refs(s, ts, (("key", k),)))))])


@model("std::collections::BTreeMap::pop_first", "std::collections::BTreeMap::pop_last")
def _(c, s):
    m = c.ip.load(s, c.args[0])
    emp = b_of(compare("Eq", length(m), ZERO))
    k = lift(lambda x: mk("mapkey", x, ZERO if "first" in c.nm else p_sub(length(x), ONE)), m)
    v = map_get(m, k)
    c.ip.event("map_remove", c.nm, [c.args[0], k, m], s, c.span, c.fr, extra_guard=b_not(emp), info=c)
    c.ip.store(s, c.args[0], mk_ite([(emp, m), (b_not(emp), lift(lambda x: mk("rem", x, k), m))]))
    return mk_ite([(emp, NONE), (b_not(emp), some(tup(k, v)))])


# ------------------------------------------------------------------- iterators
# sequence descriptors: ('it', kind, V, root, path)  / adaptors


def base_iter(kind, V, root=None, path=()):
    return mk("iter", mk("it", kind, V, root if root is not None else mk("noroot"), path), 0)


@model("core::slice::iter", "core::slice::iter_mut", "std::collections::VecDeque::iter", "std::collections::VecDeque::iter_mut",
       "ndarray::impl_methods::iter", "ndarray::impl_methods::iter_mut", "std::vec::Vec::iter", "rayon::iter::IntoParallelRefIterator::par_iter",
       "std::collections::HashSet::iter", "rayon::iter::IntoParallelRefMutIterator::par_iter_mut")
def _iter(c, s):
    ts = deref_path(c, s)
    return under(mk_ite([(g, base_iter("ref", c.ip.read(s, r, p), r, p)) for g, r, p in ts]), s.g)


@model("std::collections::HashMap::iter", "std::collections::BTreeMap::iter", "std::collections::HashMap::iter_mut", "std::collections::BTreeMap::iter_mut")
def _mapiter(c, s):
    ts = deref_path(c, s)
    return under(mk_ite([(g, base_iter("map", c.ip.read(s, r, p), r, p)) for g, r, p in ts]), s.g)


@model("std::collections::HashMap::keys", "std::collections::BTreeMap::keys")
def _(c, s):
    ts = deref_path(c, s)
    return under(mk_ite([(g, base_iter("keys", c.ip.read(s, r, p), r, p)) for g, r, p in ts]), s.g)


@model("std::collections::HashMap::values", "std::collections::BTreeMap::values", "std::collections::HashMap::values_mut", "std::collections::BTreeMap::values_mut")
def _(c, s):
    ts = deref_path(c, s)
    return under(mk_ite([(g, base_iter("values", c.ip.read(s, r, p), r, p)) for g, r, p in ts]), s.g)


@model("std::vec::Vec::drain", "std::collections::VecDeque::drain", "std::collections::HashMap::drain")
def _(c, s):
    v = c.ip.load(s, c.args[0])
    c.ip.event("clear", c.nm, [c.args[0], v], s, c.span, c.fr, info=c)
    c.ip.store(s, c.args[0], mk("drained", v) if len(c.args) > 1 else mk("emptymap"))
    return base_iter("ownmap" if "HashMap" in c.nm else "own", v)


@model("core::str::chars", "core::str::bytes")
def _(c, s):
    return base_iter("own", mk("chars", c.peel(s, 0)))


@model("regex::Regex::captures_iter", "regex::Regex::find_iter")
def _(c, s):
    return base_iter("own", c.opq(s))


@model("core::slice::windows", "core::slice::chunks", "core::slice::chunks_exact")
def _(c, s):
    return base_iter("own", mk("windows" if c.nm.endswith("windows") else "chunks", c.peel(s, 0), c.args[1]))


def is_iter(v):
    return v.op == "iter"


@model("std::iter::IntoIterator::into_iter", "rayon::iter::IntoParallelIterator::into_par_iter", "std::iter::Iterator::by_ref")
def _intoiter(c, s):
    v = c.args[0]
    t = c.aty(0)
    if c.nm.endswith("by_ref"):
        return v
    if t["k"] == "ref":
        inner = c.ip.ty(t["inner"], c.fr)
        ts = c.ip.targets(v)
        kind = "map" if is_map(inner) else "ref"
        d = inner.get("def", "")
        if inner["k"] in ("slice", "array") or d in ("std::vec::Vec", "std::collections::VecDeque", "std::collections::HashSet",
                                                    "std::collections::BTreeSet") or is_map(inner) or "ArrayBase" in d:
            return under(mk_ite([(g, base_iter(kind, c.ip.read(s, r, p), r, p)) for g, r, p in ts]), s.g)
        lv = c.ip.load(s, v)
        if lv.op == "iter":
            return v
        return c.opq(s) if not c.f.get("local") else NotImplemented

    def f(x):
        if x.op == "iter":
            return x
        d = t.get("def", "")
        if d in ("std::ops::Range", "std::range::Range"):
            return mk("iter", range_it(project(x, ("f", "start")), project(x, ("f", "end"))), 0)
        if d in ("std::ops::RangeInclusive", "std::range::RangeInclusive"):
            e = project(x, ("f", "end")) if x.op == "agg" else mk("prj", x, ("f", "end"))
            return mk("iter", range_it(project(x, ("f", "start")), p_add(e, ONE)), 0)
        if d == OPTION:
            return base_iter("own", mk("optseq", x))
        if is_map(t):
            return base_iter("ownmap", x)
        return base_iter("own", x)
    if v.op == "ite" and t.get("def", "") in ("std::vec::Vec", "std::collections::VecDeque"):
        return base_iter("own", under(v, s.g))
    return lift(f, v)


def range_src(a, b):
    """the sequence whose positions a counting loop runs over"""
    if a is ZERO and all(x.op == "len" for _, x in cases(b)):
        return lift(lambda x: x.a[0], b)
    return mk("range", a, b)


def range_it(a, b):
    if a is ZERO and all(x.op == "len" for _, x in cases(b)):
        return mk("it", "ixof", range_src(a, b), mk("noroot"), ())
    return mk("it", "range", mk("range", a, b), mk("noroot"), ())


def _adaptor(op):
    def f(c, s):
        v = c.args[0]
        if v.op == "agg" and v.a[0].endswith("ops::Range"):
            v = mk("iter", range_it(project(v, ("f", "start")), project(v, ("f", "end"))), 0)
        elif v.op == "agg" and v.a[0].endswith("ops::RangeInclusive"):
            v = mk("iter", range_it(project(v, ("f", "start")), p_add(project(v, ("f", "end")), ONE)), 0)
        rest = c.args[1:]
        if op == "zip" or op == "chain":
            r2 = rest[0]
            if r2.op != "iter":
                c2 = Call(c.ip, c.fr, c.f, [r2], [c.atys[1]], c.dty, c.span, "std::iter::IntoIterator::into_iter")
                r2 = _intoiter(c2, s)
            if r2 is NotImplemented or r2.op != "iter":
                return c.opq(s)
            rest = [r2.a[0]]

        def g(x):
            if x.op != "iter":
                return mk("call", op, x, *rest)
            if op == "take" and not filtered(x.a[0]) and p_sub(rest[0], length(iter_src(x.a[0]))) is ZERO:
                return x
            return mk("iter", mk(op, x.a[0], *rest), x.a[1])
        return lift(g, v)
    return f


for _op in ("map", "filter", "filter_map", "enumerate", "zip", "rev", "skip", "take", "chain", "cloned", "copied", "peekable",
            "take_while", "skip_while", "step_by", "flat_map", "inspect", "flatten", "fuse", "scan", "map_while"):
    MODELS["std::iter::Iterator::" + _op] = _adaptor(_op)
    MODELS["rayon::iter::ParallelIterator::" + _op] = MODELS["std::iter::Iterator::" + _op]
    MODELS["rayon::iter::IndexedParallelIterator::" + _op] = MODELS["std::iter::Iterator::" + _op]


def low(d):
    """an iterator over a filtered list, as an iterator over what the list was filtered from"""
    if d.op == "it" and d.a[0] in ("ref", "own") and d.a[1].op == "seqof":
        base, body = d.a[1].a
        ixs = {z for z in walk(body) if z.op == "ix" and z.a[0] is base and z.a[1] != "t"}
        if len(ixs) <= 1 and base.op not in ("range", "revsrc"):
            return mk("gen", d.a[0], base, body, ixs.pop() if ixs else mk("ix", base, 0))
        return d
    if d.op in ("map", "filter", "filter_map", "cloned", "copied", "inspect", "fuse", "peekable"):
        x = low(d.a[0])
        return mk(d.op, x, *d.a[1:]) if x is not d.a[0] else d
    return d


def filtered(d):
    """does the iterator skip elements (so that the n-th item is not at position n)?"""
    if d.op in ("filter", "filter_map", "gen", "skip_while", "flat_map", "flatten", "chain", "skip", "step_by", "rev"):
        return True
    if d.op == "zip":
        return filtered(d.a[0]) or filtered(d.a[1])
    return isinstance(d.a[0], T) and d.op != "it" and filtered(d.a[0])


def iter_src(x):
    """canonical sequence term of an iterator / descriptor"""
    if x.op == "iter":
        x = x.a[0]
    o = x.op
    if o == "gen":
        return x.a[1]
    if o == "it":
        if x.a[1].op == "ite":
            bs = {base_src(y) for _, y in cases(x.a[1])}
            if len(bs) == 1 and any(y.op in ("tab", "ovr") for _, y in cases(x.a[1])):
                return bs.pop()
        return base_src(x.a[1]) if x.a[1].op in ("tab", "ovr") else x.a[1]
    if o in ("map", "filter", "filter_map", "enumerate", "cloned", "copied", "peekable", "inspect", "fuse"):
        return iter_src(x.a[0])
    if o == "zip":
        xs = set()
        for y in x.a[:2]:
            y = iter_src(y)
            xs |= set(y.a) if y.op == "zipsrc" else {y}
        xs = sorted(xs, key=lambda y: y.id)
        return xs[0] if len(xs) == 1 else mk("zipsrc", *xs)
    if o == "rev":
        return mk("revsrc", iter_src(x.a[0]))
    if o in ("skip", "take", "step_by"):
        return mk(o + "src", iter_src(x.a[0]), x.a[1])
    if o == "chain":
        return mk("chainsrc", iter_src(x.a[0]), iter_src(x.a[1]))
    return mk("src", x)


def iter_elem(ip, fr, s, d, ix, span):
    """[(guard, item or None)] : the generic element of descriptor d at index ix.
    Cases not covered by the guards are skipped (filtered) elements."""
    o = d.op
    if o == "it":
        kind, V, root, path = d.a
        if kind == "ref":
            return [(TRUE, mkref(root, path + (("at", ix),)))]
        if kind == "own":
            return [(TRUE, project(V, ("at", ix)))]
        if kind in ("map", "ownmap", "keys", "values"):
            k = mk("mapkey", V, ix)
            if kind == "ownmap":
                return [(TRUE, tup(k, project(V, ("at", ix))))]
            kr = mk("ref", mk("const", k), ())
            vr = mkref(root, path + (("at", ix),)) if root.op != "noroot" else mk("ref", mk("const", project(V, ("at", ix))), ())
            if kind == "keys":
                return [(TRUE, kr)]
            if kind == "values":
                return [(TRUE, vr)]
            return [(TRUE, tup(kr, vr))]
        if kind == "range":
            return [(TRUE, lift(lambda a: p_add(a, ix), V.a[0]))]
        if kind == "ixof":
            return [(TRUE, ix)]
    if o in ("cloned", "copied"):
        return [(g, ip.load(s, x)) for g, x in iter_elem(ip, fr, s, d.a[0], ix, span)]
    if o == "rev" and ix.op != "ix":
        return iter_elem(ip, fr, s, d.a[0], lift(lambda n, i: p_sub(p_sub(n, ONE), i), length(iter_src(d.a[0])), ix), span)
    if o == "skip" and ix.op != "ix":
        return iter_elem(ip, fr, s, d.a[0], lift(p_add, d.a[1], ix), span)
    if o in ("rev", "skip", "take", "peekable", "inspect", "fuse", "step_by"):
        return iter_elem(ip, fr, s, d.a[0], ix, span)
    if o == "gen":
        return [(g, mk("ref", mk("const", x), ()) if d.a[0] == "ref" else x)
                for g, x in cases(subst_ix(d.a[2], d.a[3], ix)) if x.op != "skip"]
    if o == "enumerate":
        if filtered(d.a[0]) and ix.op == "ix":
            return [(g, tup(mk("rank", iter_src(d), low(d.a[0]) if False else d.a[0], ix), x)) for g, x in iter_elem(ip, fr, s, d.a[0], ix, span)]
        return [(g, tup(ix, x)) for g, x in iter_elem(ip, fr, s, d.a[0], ix, span)]
    if o == "zip" and (filtered(d.a[0]) or filtered(d.a[1])) and ix.op == "ix":
        src = mk("src", d)
        return [(TRUE, tup(mk("prj", src, ("at", mk("lhs", ix))), mk("prj", src, ("at", mk("rhs", ix)))))]
    if o == "zip":
        a = iter_elem(ip, fr, s, d.a[0], ix, span)
        b = iter_elem(ip, fr, s, d.a[1], ix, span)
        return [(b_and(g, h), tup(x, y)) for g, x in a for h, y in b if b_and(g, h) != FALSE]
    if o == "map":
        out = []
        es = iter_elem(ip, fr, s, d.a[0], ix, span)
        v = ip.branch(s, [(g, (lambda st, x=x: ip.apply(fr, st, d.a[1], [x], span))) for g, x in es])
        cov = FALSE
        for g, x in es:
            cov = b_or(cov, g)
        return [(cov, v)]
    if o in ("filter", "take_while", "skip_while"):
        out = []
        for g, x in iter_elem(ip, fr, s, d.a[0], ix, span):
            st = s.copy()
            st.g = b_and(s.g, g)
            xr = mk("ref", mk("const", x), ())
            b = b_of(ip.apply(fr, st, d.a[1], [xr], span))
            if o == "skip_while":
                b = b_not(lit(mk("skipped", iter_src(d), ix, bool_t(b))))
            out.append((b_and(g, b), x))
        return out
    if o == "filter_map":
        out = []
        es = iter_elem(ip, fr, s, d.a[0], ix, span)
        v = ip.branch(s, [(g, (lambda st, x=x: ip.apply(fr, st, d.a[1], [x], span))) for g, x in es])
        return [(ip.variant(v, 1), ip.payload(v, 1))]
    src = iter_src(d)
    return [(TRUE, mk("prj", src, ("at", ix)))]


def next_src(ip, d, key):
    """(src, depth, registers in the innermost loop context)"""
    src = iter_src(d)
    for ctx in reversed(ip.loopstack):
        if key in ctx.srcs:
            return ctx.srcs[key]
    depth = sum(1 for ctx in ip.loopstack for s2, _ in ctx.srcs.values() if s2 is src)
    if ip.loopstack:
        ip.loopstack[-1].srcs[key] = (src, depth)
    return (src, depth)


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def _next(c, s):
    ip = c.ip
    if c.f.get("local") and c.f.get("rk") == "item":
        return NotImplemented
    ts = [t for t in ip.targets(c.args[0]) if b_and(t[0], s.g) != FALSE]
    t0 = c.peeled_ty(0)
    back = c.nm.endswith("back")

    def one(st, root, path):
        v = ip.read(st, root, path)

        def leaf(st2, x):
            if x.op != "iter":
                # a Range used directly as an iterator
                d0 = t0.get("def", "")
                if d0.endswith("ops::Range"):
                    x = mk("iter", range_it(project(x, ("f", "start")), project(x, ("f", "end"))), 0)
                elif d0.endswith("ops::RangeInclusive"):
                    x = mk("iter", range_it(project(x, ("f", "start")), p_add(project(x, ("f", "end")), ONE)), 0)
                else:
                    r = mk("call", "next", x)
                    ip.write(st2, root, path, mk("out", 0, r))
                    return r
            d, pos = x.a
            if back:
                d = mk("rev", d)
            if pos == "*" and not back:
                d = low(d)
            if pos == "*" or (ip.loopstack and pos == 0 and not back and root in ip.loopstack[-1].base_roots):
                src, dep = next_src(ip, d, (root, path))
                ix = mk("ix", src, dep)
                more = lit(mk("more", src, dep))
                npos = "*" if pos == "*" else 1
            else:
                src = iter_src(d)
                ix = num(pos)
                n = length(src) if src.op not in ("range", "skipsrc", "takesrc", "zipsrc", "chainsrc") else mk("len", src)
                if n.op == "len" and src.op == "range" and is_num(p_sub(src.a[1], src.a[0])):
                    n = p_sub(src.a[1], src.a[0])
                more = b_of(compare("Lt", ix, n))
                npos = pos + 1
                if d.op == "it" and d.a[0] in ("ref", "own"):
                    pass
            ip.write(st2, root, path, mk("iter", x.a[0], npos))
            outs = []
            es = None

            def yes(st3):
                es = iter_elem(ip, c.fr, st3, d, ix, c.span)
                cov = FALSE
                for g, _ in es:
                    cov = b_or(cov, g)
                st3.g = b_and(st3.g, cov)
                if ix.op != "ix":
                    es = [(g, straight(y)) for g, y in es]
                return some(mk_ite(es) if len(es) > 1 else es[0][1])
            return ip.branch(st2, [(more, yes), (b_not(more), lambda st3: NONE)])
        cs = [(g, x) for g, x in cases(v) if b_and(g, st.g) != FALSE]
        if len(cs) == 1:
            return leaf(st, cs[0][1])
        return ip.branch(st, [(g, (lambda st2, x=x: leaf(st2, x))) for g, x in cs])
    if len(ts) == 1:
        return one(s, ts[0][1], ts[0][2])
    return ip.branch(s, [(g, (lambda st, r=r, p=p: one(st, r, p))) for g, r, p in ts])


def straight(y):
    """('at', n) with a literal index is an ordinary index"""
    def fix(k):
        return ("idx", k[1]) if k[0] == "at" and k[1].op != "ix" else k
    if y.op == "ref":
        return mk("ref", y.a[0], tuple(fix(k) for k in y.a[1]))
    if y.op == "prj" and y.a[1][0] == "at" and y.a[1][1].op != "ix":
        return project(y.a[0], ("idx", y.a[1][1]))
    if y.op == "agg":
        return mk("agg", y.a[0], y.a[1], tuple((k, straight(v)) for k, v in y.a[2]))
    return y


# consumers ---------------------------------------------------------------------
def consume(c, s, it, step, acc0=None, name="consume"):
    """run `step(state, item, acc) -> acc` for the generic element inside a synthetic loop.
    returns (final acc value, ctx-like src)"""
    ip = c.ip
    ip.fids += 1
    accroot = mk("loc", ip.fids, 0)
    itroot = mk("loc", ip.fids, 1)
    s.mem[accroot] = acc0 if acc0 is not None else UNIT
    s.mem[itroot] = it
    lname = f"{c.fr.body['path']}@{name}"
    if ip.unroll and name in ("fold", "sum", "for_each", "try_for_each"):
        outs = step_by_step(c, s, it, step, accroot)
        if outs is not None:
            return outs, accroot, itroot

    def run(st):
        st = st.copy()
        x = ip.read(st, itroot, ())
        d, pos = x.a
        d = low(d)
        src, dep = next_src(ip, d, (itroot, ()))
        ix = mk("ix", src, dep)
        more = lit(mk("more", src, dep))
        stx = st.copy()
        stx.g = b_and(st.g, b_not(more))
        exits = [("done", stx)] if stx.g != FALSE else []
        back = []
        stb = st.copy()
        stb.g = b_and(st.g, more)
        if stb.g != FALSE:
            es = iter_elem(ip, c.fr, stb, d, ix, c.span)
            cov = FALSE
            for g, _ in es:
                cov = b_or(cov, g)
            stb.g = b_and(stb.g, cov)
            if stb.g != FALSE:
                item = mk_ite(es) if len(es) > 1 else es[0][1]
                acc = ip.read(stb, accroot, ())
                r = step(stb, item, acc, exits)
                if r is not None and stb.g != FALSE:
                    ip.write(stb, accroot, (), r)
                if stb.g != FALSE:
                    back.append(stb)
        return back, exits
    outs = ip.fix(lname, c.fr, s.copy(), run)
    ss = []
    for tag, st in outs:
        st = st.copy()
        ss.append((tag, st))
    return ss, accroot, itroot


def step_by_step(c, s, it, step, accroot):
    """the passes of a consumer over a known number of items, one after the other"""
    ip, (d, pos) = c.ip, it.a
    if not isinstance(pos, int) or filtered(d):
        return None
    src = iter_src(d)
    n = p_sub(src.a[1], src.a[0]) if src.op == "range" else length(src)
    if not is_num(n) or n.a[0] - pos > ip.unroll:
        return None
    st, exits = s.copy(), []
    for i in range(pos, int(n.a[0])):
        es = iter_elem(ip, c.fr, st, d, num(i), c.span)
        if len(es) != 1 or es[0][0] != TRUE:
            return None
        r = step(st, straight(es[0][1]), ip.read(st, accroot, ()), exits)
        if st.g == FALSE:
            return exits
        if r is not None:
            ip.write(st, accroot, (), r)
    return exits + [("done", st)]


def finish(c, s, ss, accroot, itroot):
    from interp import merge
    m = merge([st for _, st in ss])
    if m is None:
        s.g = FALSE
        return UNINIT
    v = c.ip.read(m, accroot, ())
    s.g = m.g
    s.mem = {k: x for k, x in m.mem.items() if k is not accroot and k is not itroot}
    return v


def as_iter(c, s, i=0):
    v = c.args[i]
    t = c.aty(i)
    while t["k"] == "ref":
        v = c.ip.load(s, v)
        t = c.ip.ty(t["inner"], c.fr)
    d = t.get("def", "")

    def f(x):
        if x.op == "agg" and d.endswith("ops::Range"):
            return mk("iter", range_it(project(x, ("f", "start")), project(x, ("f", "end"))), 0)
        if x.op == "agg" and d.endswith("ops::RangeInclusive"):
            return mk("iter", range_it(project(x, ("f", "start")), p_add(project(x, ("f", "end")), ONE)), 0)
        return x
    v = lift(f, v)
    return under(v, s.g)


def per_iter(fn):
    """run fn(c, s, it) for each possible iterator value"""
    def g(c, s):
        v = as_iter(c, s)
        cs = [(gd, x) for gd, x in cases(v) if b_and(gd, s.g) != FALSE]
        if any(x.op != "iter" for _, x in cs) or not cs:
            return c.opq(s)
        if len(cs) == 1:
            return fn(c, s, cs[0][1])
        return c.ip.branch(s, [(gd, (lambda st, x=x: fn(c, st, x))) for gd, x in cs])
    return g


def deref_num(c, s, x):
    while x.op == "ref":
        x = c.ip.load(s, x)
    return x


def m_sum(c, s, it):
    def step(st, item, acc, ex):
        x = lift(lambda y: deref_num(c, st, y), item)
        t = c.ip.ty(c.dty, c.fr)
        return lift(p_add if "sum" in c.nm else p_mul, acc, x)
    ss, a, b = consume(c, s, it, step, ZERO if "sum" in c.nm else ONE, "sum")
    return finish(c, s, ss, a, b)


for _n in ("sum", "product"):
    MODELS["std::iter::Iterator::" + _n] = per_iter(m_sum)


def m_foreach(c, s, it):
    ss, a, b = consume(c, s, it, lambda st, item, acc, ex: (c.ip.apply(c.fr, st, c.args[1], [item], c.span), UNIT)[1], UNIT, "for_each")
    finish(c, s, ss, a, b)
    return UNIT


MODELS["std::iter::Iterator::for_each"] = per_iter(m_foreach)
MODELS["rayon::iter::ParallelIterator::for_each"] = per_iter(m_foreach)


def m_try_foreach(c, s, it):
    def step(st, item, acc, ex):
        r = c.ip.apply(c.fr, st, c.args[1], [item], c.span)
        bad = c.ip.variant(r, 1)
        st2 = st.copy()
        st2.g = b_and(st.g, bad)
        if st2.g != FALSE:
            c.ip.write(st2, accroot_of(st2), (), under(r, st2.g)) if False else None
            ex.append((("err", under(r, st2.g)), st2))
        st.g = b_and(st.g, b_not(bad))
        return UNIT
    ss, a, b = consume(c, s, it, step, UNIT, "try_for_each")
    out = []
    for tag, st in ss:
        st.mem[a] = tag[1] if isinstance(tag, tuple) else ok(UNIT)
        out.append((tag, st))
    return finish(c, s, out, a, b)


MODELS["std::iter::Iterator::try_for_each"] = per_iter(m_try_foreach)


def m_fold(c, s, it):
    ss, a, b = consume(c, s, it, lambda st, item, acc, ex: c.ip.apply(c.fr, st, c.args[2], [acc, item], c.span), c.args[1], "fold")
    return finish(c, s, ss, a, b)


MODELS["std::iter::Iterator::fold"] = per_iter(m_fold)


def m_anyall(c, s, it):
    kind = c.nm.split("::")[-1]

    def step(st, item, acc, ex):
        arg = item
        if kind == "find":
            arg = mk("ref", mk("const", item), ())
        r = b_of(c.ip.apply(c.fr, st, c.args[1], [arg], c.span))
        hit = b_not(r) if kind == "all" else r
        st2 = st.copy()
        st2.g = b_and(st.g, hit)
        if st2.g != FALSE:
            if kind == "position":
                d = it.a[0]
                v = None
                for ctx in reversed(c.ip.loopstack):
                    if ctx.srcs:
                        v = mk("ix", *list(ctx.srcs.values())[0])
                        break
                v = v if v is not None else mk("ix", iter_src(d), 0)
                ex.append((("hit", some(v)), st2))
            else:
                ex.append((("hit", some(under(item, st2.g)) if kind == "find" else BT), st2))
        st.g = b_and(st.g, b_not(hit))
        return None
    ss, a, b = consume(c, s, it, step, UNIT, kind)
    out = []
    for tag, st in ss:
        hit = isinstance(tag, tuple)
        if kind in ("find", "position"):
            st.mem[a] = tag[1] if hit else NONE
        elif kind == "any":
            st.mem[a] = BT if hit else BF
        else:
            st.mem[a] = BF if hit else BT
        out.append((tag, st))
    return finish(c, s, out, a, b)


for _n in ("any", "all", "find", "position"):
    MODELS["std::iter::Iterator::" + _n] = per_iter(m_anyall)


def m_collect(c, s, it):
    t = c.ip.ty(c.dty, c.fr)
    d = t.get("def", "")
    if d == RESULT:
        def step(st, item, acc, ex):
            bad = c.ip.variant(item, 1)
            st2 = st.copy()
            st2.g = b_and(st.g, bad)
            if st2.g != FALSE:
                ex.append((("err", err(c.ip.payload(under(item, st2.g), 1))), st2))
            st.g = b_and(st.g, b_not(bad))
            return mk("push", acc, c.ip.payload(under(item, st.g), 0))
        ss, a, b = consume(c, s, it, step, EMPTY, "collect")
        out = []
        for tag, st in ss:
            st.mem[a] = tag[1] if isinstance(tag, tuple) else ok(c.ip.read(st, a, ()))
            out.append((tag, st))
        return finish(c, s, out, a, b)
    ismap = d in MAPS

    def step(st, item, acc, ex):
        if ismap:
            k, v = project(item, ("f", "0")), project(item, ("f", "1"))
            return lift(lambda m: mk("ins", m, k, v), acc)
        return mk("push", acc, item)
    ss, a, b = consume(c, s, it, step, mk("emptymap") if ismap else EMPTY, "collect")
    r = finish(c, s, ss, a, b)
    if "HashSet" in d or d == "std::string::String":
        return mk("collected", mk("tyname", d), r)
    return r


MODELS["std::iter::Iterator::collect"] = per_iter(m_collect)


def m_unzip(c, s, it):
    """the two parts of each item collected side by side, into vectors"""
    t = c.ip.ty(c.dty, c.fr)
    parts = t.get("args") or []
    if not all((c.ip.ty(p, c.fr) if isinstance(p, int) else p).get("def") == "std::vec::Vec" for p in parts):
        return NotImplemented

    def step(st, item, acc, ex):
        return tup(mk("push", project(acc, ("f", "0")), project(item, ("f", "0"))), mk("push", project(acc, ("f", "1")), project(item, ("f", "1"))))
    ss, a, b = consume(c, s, it, step, tup(EMPTY, EMPTY), "unzip")
    return finish(c, s, ss, a, b)


MODELS["std::iter::Iterator::unzip"] = per_iter(m_unzip)


@model("std::iter::FromIterator::from_iter")
def _from_iter(c, s):
    """known entries are inserted one by one; anything else is into_iter().collect()"""
    d = c.ip.ty(c.dty, c.fr).get("def", "")
    x = c.args[0]
    if x.op == "iter" and x.a[0].op == "it" and x.a[0].a[0] == "own":
        x = x.a[0].a[1]
    if x.op == "agg" and x.a[0] == "array":
        m = mk("emptymap") if d in MAPS else EMPTY
        for _, e in x.a[2]:
            m = lift(lambda y: mk("ins", y, project(e, ("f", "0")), project(e, ("f", "1"))), m) if d in MAPS else mk("push", m, e)
        return m
    c2 = Call(c.ip, c.fr, c.f, [c.args[0]], c.atys, c.dty, c.span, "std::iter::IntoIterator::into_iter")
    it = _intoiter(c2, s) if x.op != "iter" else x
    if it is NotImplemented or it.op != "iter":
        return NotImplemented
    c3 = Call(c.ip, c.fr, c.f, [it], c.atys, c.dty, c.span, "std::iter::Iterator::collect")
    return m_collect(c3, s, it)


MODELS["rayon::iter::ParallelIterator::collect"] = per_iter(m_collect)


def m_count(c, s, it):
    if it.a[0].op == "it" and it.a[0].a[1].op != "seqof":
        return length(iter_src(it))
    ss, a, b = consume(c, s, it, lambda st, item, acc, ex: lift(p_add, acc, ONE), ZERO, "count")
    return finish(c, s, ss, a, b)


MODELS["std::iter::Iterator::count"] = per_iter(m_count)


def m_last(c, s, it):
    src = iter_src(it)
    n = length(src) if it.a[0].op == "it" else mk("len", src)
    emp = b_of(compare("Eq", n, ZERO))
    es = iter_elem(c.ip, c.fr, s, it.a[0], p_sub(n, ONE), c.span)
    v = es[0][1] if es else UNINIT
    return mk_ite([(emp, NONE), (b_not(emp), some(fix_at(v)))])


def fix_at(y):
    def fix(k):
        return ("idx", k[1]) if k[0] == "at" else k
    if y.op == "ref":
        return mk("ref", y.a[0], tuple(fix(k) for k in y.a[1]))
    if y.op == "prj" and y.a[1][0] == "at":
        return project(y.a[0], ("idx", y.a[1][1]))
    return y


MODELS["std::iter::Iterator::last"] = per_iter(m_last)


def m_minmax(c, s, it):
    kind = c.nm.split("::")[-1]
    src = iter_src(it)
    dep = 0
    ix = mk("ix", src, dep)
    es = iter_elem(c.ip, c.fr, s, it.a[0], ix, c.span)
    v = mk_ite([(g, lift(lambda y: deref_num(c, s, y), x)) for g, x in es])
    emp = b_of(compare("Eq", length(src), ZERO))
    extra = []
    if len(c.args) > 1:
        f = c.args[1]
        extra = [f]
    return mk_ite([(emp, NONE), (b_not(emp), some(mk("ext", kind, src, v, *extra)))])


for _n in ("max", "min", "max_by", "min_by", "min_by_key", "max_by_key"):
    MODELS["std::iter::Iterator::" + _n] = per_iter(m_minmax)


# ----------------------------------------------------------------------- misc
@model("std::time::Instant::elapsed")
def _(c, s):
    return mk("elapsed", c.ip.fresh("elapsed"))


@model("time::Duration::days", "time::Duration::weeks", "time::Duration::hours", "time::Duration::minutes", "time::Duration::seconds",
       "time::Duration::milliseconds", "time::Duration::microseconds", "time::Duration::nanoseconds")
def _(c, s):
    u = {"days": 86400, "weeks": 604800, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": Fraction(1, 1000),
         "microseconds": Fraction(1, 10**6), "nanoseconds": Fraction(1, 10**9)}[c.nm.split("::")[-1]]
    return lift(lambda x: p_mul(p_mul(num(u), x), mk("second")), c.args[0])


@model("time::Duration::as_seconds_f64", "time::Duration::as_seconds_f32")
def _(c, s):
    return lift(lambda x: p_div(x, mk("second")), c.peel(s, 0))


@model("time::OffsetDateTime::to_offset")
def _(c, s):
    return lift(lambda x, o: mk("call", "to_offset", x, o), c.args[0], c.args[1])


@model("std::iter::Iterator::size_hint", "std::iter::ExactSizeIterator::len")
def _(c, s):
    v = c.peel(s, 0)
    return length(iter_src(v)) if v.op == "iter" else c.opq(s)


@model("anyhow::error::msg", "anyhow::__private::format_err", "std::fmt::format")
def _(c, s):
    # text of a message; its content is never control- or data-relevant except for formatting properties
    if c.nm == "std::fmt::format":
        return mk("call", "format", c.args[0])
    return mk("err", "msg")


@model("std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const",
       "std::fmt::Arguments::new_v1")
def _(c, s):
    return mk("fmtargs", *[deep(c, s, a) for a in c.args])


def deep(c, s, v, n=0):
    def f(x):
        if x.op == "ref" and n < 4:
            return deep(c, s, c.ip.load(s, x), n + 1)
        if x.op == "agg" and n < 4:
            return mk("agg", x.a[0], x.a[1], tuple((k, deep(c, s, y, n + 1)) for k, y in x.a[2]))
        return x
    return lift(f, v)


@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_upper_hex",
       "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_lower_exp")
def _(c, s):
    return mk("fmtarg", c.nm.split("::")[-1], c.peel(s, 0))


@model("std::ptr::read_unaligned", "std::ptr::const_ptr::read_unaligned")
def _(c, s):
    t = c.ip.ty(c.aty(0)["inner"], c.fr) if c.aty(0)["k"] in ("ptr", "rawptr", "ref") else {}
    if t.get("k") != "int":
        return c.opq(s)
    return lift(lambda x: mk("raw", t["bits"], x), c.ip.load(s, c.args[0]))


@model("once_cell::sync::Lazy::force")
def lazy_value(c, s):
    """a lazily initialised static: the value its initialiser makes"""
    out = []
    for g, root, path in c.ip.targets(c.args[0]):
        init = lazy_init(c.ip, root) if not path else None
        if init is None:
            return c.opq(s)
        r = mk("obj", mk("lazy", root))
        if r not in s.mem:
            s.mem[r] = c.ip.call_body(s, init, [mk("closure", init["key"], ())] * init["args"], {}, c.fr.stack)
        out.append((g, mk("ref", r, ())))
    return mk_ite(out)


def lazy_init(ip, root):
    """the function a Lazy static is initialised by"""
    k = ip.crate.consts_by_path.get(root.a[0]) if root.op == "static" else None
    if not k or k.get("mut"):
        return None

    def find(v):
        if isinstance(v, dict):
            if "fnref" in v:
                return v["fnref"]
            return next((f for f in map(find, reversed(v.get("fields", ()))) if f), None)
        return None
    key = find(k["val"])
    b = ip.crate.bodies.get(key)
    if b is None and key and key.startswith("core::ops::function::FnOnce"):
        b = ip.crate.bodies.get(k["key"] + "::{closure#0}")
    return b if b is not None and b["args"] <= 1 else None


@model("lazy_static::lazy::Lazy::get")
def _(c, s):
    return c.args[0]


for _n in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
    def _callfn(c, s):
        f = c.args[0]
        if c.nm != "std::ops::FnOnce::call_once":
            pass
        return c.ip.apply(c.fr, s, f, c.ip.untuple(c.args[1:]), c.span)
    MODELS["std::ops::" + _n] = _callfn


FNREFS["std::clone::Clone::clone"] = lambda ip, s, a: ip.load(s, a[0])
FNREFS["std::convert::From::from"] = lambda ip, s, a: a[0]
FNREFS["std::convert::Into::into"] = lambda ip, s, a: a[0]
FNREFS["std::string::ToString::to_string"] = lambda ip, s, a: ip.load(s, a[0])


def _pure(fn):
    def f(c, s):
        a = [c.peel(s, i) for i in range(len(c.args))]
        r = lift(lambda *xs: mk("call", fn, *xs), *a)
        c.ip.event("call", fn, a, s, c.span, c.fr, res=r, info=c)
        return r
    return f


for _f in ("time::OffsetDateTime::date", "time::Duration::whole_days", "time::Duration::whole_seconds", "time::OffsetDateTime::time",
           "time::OffsetDateTime::offset", "time::OffsetDateTime::year", "time::OffsetDateTime::unix_timestamp",
           "time::Date::year", "time::Date::weekday", "time::Date::day", "time::Date::month"):
    MODELS[_f] = _pure(_f)
