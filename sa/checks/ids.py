"""Instrument identifiers (what is accepted, kept, compared, shared) and the codes and names of the enums."""
from spec import *
from interp import *

ID = "types::id::"
ISIN = ID + "isin_code::IsinCode"
TICK = ID + "ticker::Ticker"
INST = ID + "InstId"
BAD = {32, 9} | set(range(128, 256))
KIND = {
    "is_ascii": lambda b: b < 128,
    "is_ascii_whitespace": lambda b: b in (32, 9, 10, 12, 13),
    "is_ascii_alphanumeric": lambda b: b < 128 and chr(b).isalnum(),
    "is_ascii_alphabetic": lambda b: b < 128 and chr(b).isalpha(),
    "is_ascii_uppercase": lambda b: 65 <= b <= 90,
    "is_ascii_digit": lambda b: 48 <= b <= 57,
    "is_ascii_control": lambda b: b < 32 or b == 127,
    "is_ascii_graphic": lambda b: 33 <= b <= 126,
}


def there(ck, key, p, t):
    ck.ob(f"{key}:there", p in t.by_path, "no such function", p)
    if p in t.by_path:
        ck.fn(p)
        return True
    return False


def known(l):
    """value of a literal about one byte"""
    if l.op == "call" and len(l.a) == 2 and l.a[1].op == "num" and l.a[0].split("::")[-1] in KIND:
        return TRUE if KIND[l.a[0].split("::")[-1]](int(l.a[1].a[0])) else FALSE
    return lit(l)


def known_vars(l):
    return known(l) if l.op == "call" else b_map_keep(l)


def b_map_keep(l):
    return relit(l, l.a[0]) if l.op == "isv" else lit(l)


def rejected(l):
    """(the sequence, the bytes whose presence makes this literal true)"""
    if l.op == "call" and l.a[0].split("::")[-1] == "contains" and len(l.a) == 3 and l.a[2].op == "num":
        return l.a[1], {int(l.a[2].a[0])}
    if l.op == "contains" and l.a[1].op == "num":
        return l.a[0], {int(l.a[1].a[0])}
    if l.op == "exists" and l.a[1].op == "b":
        src = l.a[0]
        spots = [at(src, d) for d in (0, 1, 2)]
        out = set()
        for b in range(256):
            x = subst(l.a[1], lambda z: num(b) if any(z is s for s in spots) else None)
            g = b_map(b_of(x), known_vars)
            if g not in (TRUE, FALSE):
                return None
            if g == TRUE:
                out.add(b)
        return src, out
    return None


def sets(g, src):
    """bytes refused under g, and g's other conditions"""
    bad, ls = set(), []
    for l in b_lits(g):
        if l.op == "call" and l.a[0].split("::")[-1] == "is_ascii" and len(l.a) == 2 and l.a[1] is src:
            if b_and(g, b_not(lit(l))) == FALSE:
                bad |= set(range(128, 256))
                ls.append(lit(l))
            continue
        k = rejected(l)
        if k and k[0] is src and b_and(g, lit(l)) == FALSE:
            bad |= k[1]
            ls.append(b_not(lit(l)))
    return bad, ls


def copied(x):
    """the byte sequence an array is a full or leading copy of"""
    def call_of(y, name):
        return y.op == "call" and y.a[0].split("::")[-1] == name
    if x.op == "prj" and x.a[1] == ("f", "0"):
        y = x.a[0]
        if y.op == "prj" and y.a[1] == ("v", 0) and (call_of(y.a[0], "try_into") or call_of(y.a[0], "try_from")):
            return y.a[0].a[1], "whole"
    if x.op == "out" and x.a[0] == 0 and call_of(x.a[1], "copy_from_slice"):
        return x.a[1].a[2], "whole"
    if x.op == "ovr" and zeros(x.a[2]) and x.a[1] is at(x.a[0], "t"):
        return x.a[0], "leading"
    if x.op == "upd" and len(x.a[1]) == 1 and zeros(x.a[0]):
        k, v = x.a[1][0]
        if k[0] == "rng" and k[1] is ZERO and v.op == "out" and (call_of(v.a[1], "copy_from_slice") or call_of(v.a[1], "clone_from_slice")):
            s = v.a[1].a[2]
            if k[2] is mk("len", s):
                return s, "leading"
    return None, ""


def zeros(x):
    return x.op == "agg" and x.a[0] == "array" and all(y is ZERO or y.op == "num" and y.a[0] == 0 for _, y in x.a[2]) or x.op == "repeat" and x.a[0] is ZERO


def gave(g, name):
    """g with the success of standard call `name` taken for granted"""
    def fn(l):
        if l.op == "isv" and l.a[0].op == "call" and l.a[0].a[0].split("::")[-1] == name:
            return TRUE if l.a[1] == 0 else FALSE
        return known_vars(l)
    return b_map(g, fn)


def accepts_isin(ck, key, r, p, when=TRUE):
    g, v = ok_part(r)
    g = b_and(g, when)
    if v is None or g == FALSE:
        ck.ob(f"{key}:accepts", False, "no code is ever accepted", p)
        return
    src, how = copied(project(v, ("f", "isin")))
    ck.ob(f"{key}:kept", how == "whole", f"what is kept is {show(v)[:200]}", p)
    if src is None:
        return
    bad, ls = sets(g, src)
    ck.count("accepted byte sets")
    extra, miss = bad - BAD, BAD - bad
    ck.ob(f"{key}:bytes", not miss, f"a code with byte {min(miss, default=0)} is accepted", p)
    ck.ob(f"{key}:bytes allowed", not extra, f"a code with byte {min(extra, default=0)} is refused", p)
    n = cmp("Eq", mk("len", src), num(12))
    if any(l.op == "isv" and l.a[0].op == "call" and l.a[0].a[0].split("::")[-1] in ("try_into", "try_from") and l.a[0].a[1] is src for l in b_lits(g)):
        g = b_and(g, n)  # an array of twelve is only made of twelve
    ck.ob(f"{key}:length", how == "whole" and never(b_and(g, b_not(n))), "a code of another length is accepted", p)
    want = b_and(n, when)
    for l in ls:
        want = b_and(want, l)
    miss = b_valid(b_and(want, b_not(gave(gave(g, "try_into"), "try_from"))))
    ck.ob(f"{key}:all accepted", never(miss), "a code is refused when " + b_show(miss)[:300], p)


def accepts_ticker(ck, key, r, p, when=TRUE):
    g, v = ok_part(r)
    if v is None or b_and(g, when) == FALSE:
        ck.ob(f"{key}:accepts", False, "no name is ever accepted", p)
        return
    g = b_and(g, when)
    src, how = copied(project(v, ("f", "ticker")))
    ck.ob(f"{key}:kept", src is not None, f"what is kept is {show(v)[:200]}", p)
    if src is None:
        return
    n = cmp("Le", mk("len", src), num(32))
    ck.ob(f"{key}:length", never(b_and(g, b_not(n))), "a name longer than its place is accepted: " + b_show(b_valid(b_and(g, b_not(n))))[:200], p)
    u = [l for l in b_lits(g) if l.op == "isv" and l.a[0].op == "call" and l.a[0].a[0].split("::")[-1] in ("from_utf8", "try_from_utf8") and l.a[0].a[1] is src]
    isok = [relit(l, l.a[0]) if l.a[1] == 0 else b_not(relit(l, l.a[0])) for l in u]
    ck.ob(f"{key}:text", any(b_and(g, b_not(o)) == FALSE for o in isok), "bytes that are no text are accepted", p)
    want = b_and(n, when)
    miss = b_valid(b_and(gave(want, "from_utf8"), b_not(gave(g, "from_utf8"))))
    ck.ob(f"{key}:all accepted", never(miss), "a name is refused when " + b_show(miss)[:300], p)
    ck.count("accepted names")


def reads(t, ty):
    short = ty.split("::")[-1]
    mod = ty.rsplit("::", 1)[0]
    for p in t.by_path:
        if p in (f"{mod}::_::<impl serde::Deserialize<'de> for {ty}>::deserialize", f"<{ty} as serde::Deserialize<'de>>::deserialize"):
            return p
    return None


def T11(ck, q, t, meta):
    """A code is accepted exactly when it is twelve bytes of ASCII with no blank or tab, a name when it is
    UTF-8 text of at most 32 bytes; the bytes kept are the bytes given (reading back: the bytes read), names
    are filled up with zeros. Comparisons compare the bytes kept, the text handed out is made of them. Every
    instrument id points at the one cache entry of its symbol and venue: the place is looked up, or made and
    entered, in one critical section, entries are never removed or replaced, and the getters read that place."""
    # codes
    for key, p in (("code", ISIN + "::new"), ("code read", reads(t, ISIN))):
        if p and there(ck, key, p, t):
            r = run(t, p)
            when = TRUE
            if key == "code read":
                for e in r.events:
                    if e.kind == "call" and e.name.endswith("::deserialize"):
                        when = variant_is(e.res, 0, 2) if e.res is not None else TRUE
            accepts_isin(ck, key, r, p, when)
        elif not p:
            ck.ob(f"{key}:there", False, "codes are not read back", ISIN)
    for key, p in (("name", TICK + "::new"), ("name read", reads(t, TICK))):
        if p and there(ck, key, p, t):
            r = run(t, p)
            when = TRUE
            if key == "name read":
                for e in r.events:
                    if e.kind == "call" and e.name.endswith("::deserialize"):
                        when = variant_is(e.res, 0, 2) if e.res is not None else TRUE
            accepts_ticker(ck, key, r, p, when)
        elif not p:
            ck.ob(f"{key}:there", False, "names are not read back", TICK)
    # text and bytes
    for ty, f in ((ISIN, "isin"), (TICK, "ticker")):
        p = ty + "::as_str"
        if there(ck, p.split("::")[-2] + ":as_str", p, t):
            r = run(t, p)
            own = F(D(arg("self")), f)
            x = r.ret
            if x.op == "prj" and x.a[1] == ("f", "0") and x.a[0].op == "prj":
                x = x.a[0].a[0]
            ck.ob(f"{f}:text", x.op == "call" and x.a[0].split("::")[-1] in ("from_utf8_unchecked", "from_utf8") and x.a[1] is own, f"the text is {show(x)[:150]}", p)
    p = ISIN + "::as_bytes"
    if there(ck, "as_bytes", p, t):
        r = run(t, p)
        ck.ob("as_bytes", D(r.ret) is F(D(arg("self")), "isin") or r.ret is F(D(arg("self")), "isin"), f"the bytes are {show(r.ret)[:150]}", p)
    equalities(ck, t)
    shared(ck, t)


def equalities(ck, t):
    me, you = D(arg("self")), D(arg("other"))
    isin = lambda x: F(x, "isin")
    tests = []
    for p in t.by_path:
        if not p.endswith("::eq") or not ("types::id" in p):
            continue
        if p == f"<{ISIN} as std::cmp::PartialEq>::eq":
            w = eq(isin(me), isin(you))
        elif p in (f"<{ISIN} as std::cmp::PartialEq<&str>>::eq", f"<{ISIN} as std::cmp::PartialEq<&[u8]>>::eq"):
            w = eq(isin(me), D(you))
        elif p == f"<{ISIN} as std::cmp::PartialEq<std::vec::Vec<u8>>>::eq":
            w = eq(isin(me), you)
        elif f"PartialEq<{ISIN}> for &str" in p:
            w = eq(D(me), isin(you))
        elif f"PartialEq<{ISIN}> for std::vec::Vec<u8>" in p:
            w = eq(me, isin(you))
        elif p == f"<{TICK} as std::cmp::PartialEq>::eq":
            w = eq(F(me, "ticker"), F(you, "ticker"))
        elif p == f"<{ID}IdData as std::cmp::PartialEq>::eq":
            w = b_and(eq(F(me, "symbol"), F(you, "symbol")), eq(F(me, "venue"), F(you, "venue")))
        elif p == f"<{ID}Symbol as std::cmp::PartialEq>::eq":
            w = b_or(b_and(b_and(is_v(me, 0), is_v(you, 0)), eq(V(me, 0), V(you, 0))), b_and(b_and(is_v(me, 1), is_v(you, 1)), eq(V(me, 1), V(you, 1))))
        elif p == f"<{INST} as std::cmp::PartialEq>::eq":
            w = None
        else:
            continue
        ck.fn(p)
        ck.count("comparisons")
        r = run(t, p)
        got = tags(b_of(r.ret), me, you)
        if w is None:
            a, b = F(me, "id_ptr"), F(you, "id_ptr")
            same = got in (eq(a, b), eq(D(a), D(b))) or pointers(r, a, b)
            ck.ob("InstId:equal", same, f"ids are equal when {b_show(got)[:250]}", p)
            continue
        d = b_valid(b_or(b_and(got, b_not(w)), b_and(w, b_not(got))))
        name = p.split(" as ")[0].split("::")[-1] if p.startswith("<") else "given"
        ck.ob(f"{name}:equal", never(d), f"equality differs when {b_show(d)[:300]}", p)
    ck.floor("comparisons", 6)


def tags(g, me, you):
    """comparisons of which variant two values are, by the variants"""
    def fn(l):
        if l.op == "isv" and l.a[0].op == "cmp":
            ds = [z for z in walk(l.a[0]) if z.op == "disc" or z.op == "call" and z.a[0] == "disc"]
            if ds:
                out = FALSE
                for i in (0, 1):
                    for j in (0, 1):
                        def val(z):
                            if z in ds:
                                return num(i) if contains(z, lambda y: y is me) else num(j)
                            return None
                        out = b_or(out, b_and(relit(l, subst(l.a[0], val)), b_and(is_v(me, i), is_v(you, j))))
                return out
        return known_vars(l)
    return b_map(g, fn)


def pointers(r, a, b):
    """the answer is std::ptr::eq of the two places"""
    e = [e for e in r.events if e.kind == "call" and e.name in ("std::ptr::eq", "std::ptr::addr_eq")]
    return len(e) == 1 and e[0].guard == TRUE and {show(e[0].args[0]), show(e[0].args[1])} == {show(a), show(b)} and r.ret is e[0].res


def lookups(x):
    """(entry place, map, key) of a value read out of a map"""
    if x.op == "prj" and isinstance(x.a[1], tuple) and x.a[1][0] == "key":
        return x.a[0], x.a[1][1]
    return None


def is_lock(e):
    return e.kind == "lock" and e.name.endswith("Mutex::lock") or e.kind == "call" and e.name.endswith(("RwLock::write", "RwLock::read"))


def interned(ck, key, r, x, p, wants=None, when=TRUE):
    """every place x may be is the cache's one place for its content, which is `wants` if given"""
    ins = [e for e in r.events if e.kind == "map_insert"]
    for h, y in cases(x):
        h = b_and(b_and(h, r.g), when)
        if h == FALSE:
            continue
        ck.count("places")
        k = lookups(y)
        if k:
            content = k[1]
            m = [l for l in b_lits(h) if l.op == "has" and l.a[1] is content]
            ck.ob(f"{key}:from the cache", "static" in show(k[0]) or k[0].op in ("upd", "ins", "out"), f"the place is read from {show(k[0])[:150]}", p)
        elif y.op == "call" and y.a[0].split("::")[-1] == "leak" or y.op == "leak":
            b = y.a[-1]
            content = b.a[-1] if b.op in ("boxed",) or b.op == "call" else b
            es = [e for e in ins if e.args[2] is y]
            if not ck.ob(f"{key}:entered", len(es) == 1 and never(b_and(h, b_not(es[0].guard))), "a new place is not entered in the cache", p):
                continue
            e = es[0]
            ck.ob(f"{key}:under its key", e.args[1] is content, f"the place of {show(content)[:100]} is entered under {show(e.args[1])[:100]}", p)
            ck.ob(f"{key}:only if new", any(l.op == "has" and l.a[1] is content and b_and(e.guard, lit(l)) == FALSE for l in b_lits(e.guard)), "a place is entered over one there may be", p)
            locks = [x for x in r.events if is_lock(x) and x.seq < e.seq]
            drops = [x for x in r.events if x.kind == "drop" and "Guard" in x.name and x.seq < e.seq]
            ck.ob(f"{key}:in one go", len(locks) == 1 and not drops and locks[0].name.endswith(("Mutex::lock", "write")), "the cache is let go between the look and the entry", p)
        elif y.op == "prj" and y.a[1] == ("f", "id_ptr") or "id_ptr" in show(y)[-12:]:
            content = None
        elif y.op in ("static", "staticval"):
            content = None
        else:
            ck.ob(f"{key}:place", False, f"the id points at {show(y)[:200]}", p)
            continue
        if wants is not None and content is not None:
            if content.op == "agg":
                wants = mk_agg(content.a[0], content.a[1], tuple((f, F(wants, f)) for f, _ in content.a[2]))
            m = differ(content, wants, h)
            ck.ob(f"{key}:own content", m is None, f"the id is the place of another symbol or venue: {m}", p)


def shared(ck, t):
    idd = lambda sym, ven: subst_idd(t, sym, ven)
    # ids made and read
    p = INST + "::new"
    if there(ck, "id", p, t):
        r = run(t, p)
        ck.ob("id:always", never(b_not(r.g)), "no id is made", p)
        interned(ck, "id", r, F(r.ret, "id_ptr"), p, idd(arg("symbol"), arg("venue")))
    p = reads(t, INST)
    if p is None:
        ck.ob("id read:there", False, "ids are not read back", INST)
    else:
        ck.fn(p)
        r = run(t, p)
        g, v = ok_part(r)
        des = [e for e in r.events if e.kind == "call" and e.name.endswith("::deserialize") and e.res is not None]
        ck.ob("id read:content", v is not None and len(des) == 1, "the content of an id is not read", p)
        if v is not None and len(des) == 1:
            ck.ob("id read:always", never(b_and(variant_is(des[0].res, 0, 2), b_not(g))), "an id that was read is refused", p)
            interned(ck, "id read", r, F(v, "id_ptr"), p, V(des[0].res, 0), g)
    # every other function of the module
    inits = 0
    for p in sorted(t.by_path):
        if "types::id" not in p or "isin_code" in p or "ticker::" in p or "serde::Serialize" in p or "tests" in p or "{closure" in p:
            continue
        r = run(t, p)
        ck.count("functions of the module")
        for e in r.events:
            if e.kind.startswith("map_") and e.kind not in ("map_get", "map_insert"):
                ck.ob("cache:kept", False, f"the cache is changed by {e.name.split('::')[-1]}", p)
            if e.kind == "map_insert":
                k, v = e.args[1], e.args[2]
                own = (v.op == "call" and v.a[0].split("::")[-1] == "leak" or v.op == "leak")
                b = v.a[-1] if own else None
                c = (b.a[-1] if b.op in ("boxed", "call") else b) if own else None
                ck.ob("cache:own place", own and c is k, f"{show(k)[:100]} is entered with {show(v)[:100]}", p)
        if p.endswith("ID_CACHE as std::ops::Deref>::deref::__static_ref_initialize"):
            inits += 1
            m = r.ret
            if m.op == "upd":
                m = m.a[1][0][1]
            while m.op == "ins":
                k, v = m.a[1], m.a[2]
                ck.ob("cache:first", v.op == "call" and v.a[0].endswith("leak") and v.a[-1].a[-1] is k, f"{show(k)[:100]} starts with {show(v)[:100]}", p)
                m = m.a[0]
            ck.ob("cache:starts", m.op == "emptymap", f"the cache starts as {show(m)[:100]}", p)
        for h, x in cases(r.ret):
            if x.op == "agg" and x.a[0] == INST and p not in (INST + "::new",) and "Deserialize" not in p:
                interned(ck, "id elsewhere", r, F(x, "id_ptr"), p)
    # the id of nothing
    p = f"<{INST} as std::default::Default>::default"
    q_ = [x for x in t.by_path if x.endswith("DEFAULT_ID_PTR as std::ops::Deref>::deref::__static_ref_initialize")]
    if there(ck, "default", p, t):
        nothing = run(t, f"<{ID}IdData as std::default::Default>::default").ret
        if q_:
            r = run(t, q_[0])
            interned(ck, "default", r, r.ret, q_[0], nothing)
        else:
            r = run(t, p)
            interned(ck, "default", r, F(r.ret, "id_ptr"), p, nothing)
    # getters
    me = D(F(D(arg("self")), "id_ptr"))
    for f, w in (("get_id", F(D(arg("self")), "id_ptr")), ("get_id_clone", me), ("venue", F(me, "venue"))):
        p = INST + "::" + f
        if there(ck, f, p, t):
            r = run(t, p)
            m = differ(r.ret, w, TRUE)
            ck.ob(f"{f}:own", m is None, f"an id's {f} is another: {m}", p)
            ck.count("getters")
    p = INST + "::symbol_str"
    if there(ck, "symbol_str", p, t):
        r = run(t, p)
        for i, f in ((0, "isin"), (1, "ticker")):
            for h, x in cases(r.ret):
                if b_and(h, is_v(F(me, "symbol"), i)) != FALSE:
                    own = F(V(F(me, "symbol"), i), f)
                    ck.ob(f"symbol_str:{f}", x.op == "call" and x.a[0].split("::")[-1] == "from_utf8_unchecked" and x.a[1] is own, f"the text of an id's symbol is {show(x)[:150]}", p)
        ck.count("getters")
    ck.floor("getters", 3)
    ck.floor("places", 4)


def subst_idd(t, sym, ven):
    c = run(t, f"<{ID}IdData as std::clone::Clone>::clone").ret
    return mk_agg(c.a[0], c.a[1], tuple((f, {"symbol": sym, "venue": ven}.get(f, v)) for f, v in c.a[2]))


# ------------------------------------------------------------------------------------------- codes and names
def T17(ck, q, t, meta):
    """Every enum that is read from a number takes exactly the numbers of its variants, each for its own; a
    log level's number and the level of a number undo each other; the text of a venue, currency or log topic
    is its variant's name, a currency's identifier is its three letters followed by nine zeros; the opposite
    side of an order is the other one."""
    for im in sorted(p for p in t.by_path if p.endswith("::FromU8>::from_u8")):
        ty = im.split(" as ")[0][1:]
        decode(ck, t, im, ty, "v", [(v["discr"], i) for i, v in enumerate(variants(t, ty))])
    p = "logger::LogLevel::from_usize"
    if there(ck, "from_usize", p, t):
        vs = variants(t, "logger::LogLevel")
        decode(ck, t, p, "logger::LogLevel", "level", [(v["discr"], i) for i, v in enumerate(vs)])
    p = "logger::LogLevel::as_usize"
    if there(ck, "as_usize", p, t):
        vs = variants(t, "logger::LogLevel")
        me = arg("self:LogLevel")
        by_variant(ck, "as_usize", run(t, p, args=[me]), D(me), [num(v["discr"]) for v in vs], vs, p)
    for ty, f in (("types::venue::Venue", "as_str"), ("types::enums::Currency", "as_str"), ("topics::LogTopic", "as_str")):
        p = ty + "::" + f
        short = ty.split("::")[-1]
        if there(ck, short + ":" + f, p, t):
            me = arg("self:" + short)
            vs = variants(t, ty)
            by_variant(ck, f"{short}:{f}", run(t, p, args=[me]), D(me), [v["name"] for v in vs], vs, p)
    p = "types::enums::Currency::as_isin_bytes"
    if there(ck, "as_isin_bytes", p, t):
        me = arg("self:Currency")
        vs = variants(t, "types::enums::Currency")
        by_variant(ck, "as_isin_bytes", run(t, p, args=[me]), D(me), [[ord(c) for c in v["name"] + "0" * 9] for v in vs], vs, p)
    p = "types::enums::Currency::as_isin_code"
    if there(ck, "as_isin_code", p, t):
        r = run(t, p, opaque=("as_isin_bytes", "IsinCode::new"))
        names = {e.name.split("::")[-1]: e for e in r.events if e.kind == "call"}
        b, n = names.get("as_isin_bytes"), names.get("new")
        ok_ = b is not None and n is not None and (n.args[0] is b.res or D(n.args[0]) is D(b.res)) and r.ret is project(project(n.res, ("v", 0)), ("f", "0"))
        ck.ob("as_isin_code", ok_, f"the identifier of a currency is {show(r.ret)[:150]}", p)
    p = [x for x in t.by_path if x.endswith("OrderSide>::opposite") or x.endswith("OrderSide::opposite")]
    for x in p:
        ck.fn(x)
        me = arg("self:OrderSide")
        r = run(t, x, args=[me])
        vs = variants(t, "types::enums::OrderSide")
        for h, y in cases(r.ret):
            for i in (0, 1):
                if b_and(b_and(h, r.g), is_v(D(me), i)) != FALSE:
                    ck.ob("opposite", y.op == "agg" and y.a[1] == 1 - i, f"the opposite of {vs[i]['name']} is {show(y)[:60]}", x)
    ck.floor("variants", 20)


def variants(t, ty):
    return t.adt(ty)["variants"]


def decode(ck, t, p, ty, name, table):
    short = ty.split("::")[-1]
    ck.fn(p)
    r = run(t, p)
    x = arg(name)
    g, v = ok_part(r)
    known_ = FALSE
    for d, i in table:
        here = cmp("Eq", x, num(d))
        known_ = b_or(known_, here)
        hit = b_valid(b_and(g, here))
        ck.ob(f"{short}:{d} taken", never(b_valid(b_and(here, b_not(g)))), f"{d} stands for no {short}", p)
        for h, y in cases(v) if v is not None else ():
            h = b_valid(b_and(b_and(g, h), here))
            if not never(h):
                ck.ob(f"{short}:{d}", y.op == "agg" and y.a[1] == i, f"{d} stands for variant {y.a[1] if y.op == 'agg' else show(y)[:60]} of {short}, not {i}", p)
        ck.count("variants")
    rest = b_valid(b_and(g, b_not(known_)))
    ck.ob(f"{short}:others refused", never(rest), f"a number that is no {short} is taken when {b_show(rest)[:200]}", p)


def by_variant(ck, key, r, me, wants, vs, p):
    for i, v in enumerate(vs):
        here = is_v(me, i, len(vs))
        seen = False
        for h, y in cases(r.ret):
            if b_and(here, b_and(h, r.g)) == FALSE:
                continue
            seen = True
            w = wants[i]
            if isinstance(w, T):
                ok_ = y is w or (y.op == "disc" or y.op == "call" and y.a[0] == "disc") and contains(y, lambda z: z is me)
            elif isinstance(w, list):
                z = D(y)
                ok_ = z.op == "agg" and [int(c.a[0]) if c.op == "num" else None for _, c in z.a[2]] == w
            else:
                ok_ = show(y).replace("&const(", "").strip("')\"") == w
            ck.ob(f"{key}:{v['name']}", ok_, f"{v['name']} is given as {show(y)[:100]}", p)
        ck.ob(f"{key}:{v['name']} given", seen, f"{v['name']} is given as nothing", p)
        ck.count("variants")
