"""Currencies and currency pairs (names, texts, reading back) and data filed by date."""
from spec import *
from interp import *

CUR = "currency::Currency"
FX = "currency::FxCode"
FROM = f"<{CUR} as std::convert::From<&str>>::from"
MAKE = "utils::make_fx::currencies_to_fx_codes"
PRICE = "parameters::past_price::DailyClosePrice"
DAILY = "data::daily_value_data::DailyValueData"
EVAL = "evaluation_date::EvaluationDate"
MARK = "parameters::market_price::MarketPrice"


def there(ck, key, p, q):
    ck.ob(f"{key}:there", p in q.by_path, "no such function", p)
    if p in q.by_path:
        ck.fn(p)
        return True
    return False


def fixed(v):
    return mk("ref", mk("const", v), ())


def text_const(y):
    """the text a constant stands for"""
    if not isinstance(y, T):
        return y if isinstance(y, str) else None
    if y.op == "ref" and y.a[0].op == "const" and not y.a[1]:
        y = y.a[0].a[0]
    if isinstance(y, str):
        return y
    if y.op in ("str", "const") and isinstance(y.a[0], str):
        return y.a[0]
    s = show(y)
    return s.strip("'") if s.startswith("'") else None


def formatted(x):
    """(values shown, layout) of the one formatted text in x"""
    fs = [z for z in walk(x) if z.op == "fmtargs" or z.op == "call" and z.a[0].endswith("fmtargs")]
    if len(fs) != 1:
        return None
    xs = [a for a in fs[0].a if isinstance(a, T)]
    if len(xs) != 2 or xs[0].op != "agg":
        return None
    lay = [int(v.a[0]) if v.op == "num" else None for _, v in xs[0].a[2]]
    vals = [v for _, v in xs[1].a[2]] if xs[1].op == "agg" else []
    return vals, lay


def spelled(x, names, cur):
    """the text a formatted value with constant currencies comes to: names of variants and characters"""
    f = formatted(x)
    if f is None:
        return text_const(x)
    vals, lay = f
    out, i, k = "", 0, 0
    while i < len(lay) and lay[i] != 0:
        if lay[i] == 192:
            if k >= len(vals):
                return None
            how, v = vals[k].a[0], vals[k].a[-1]
            k += 1
            if v.op == "ref":
                v = D(v)
            if v.op == "agg" and v.a[0] == cur:
                out += names[v.a[1]]
            else:
                s = text_const(v)
                if s is None:
                    return None
                out += repr(s) if "debug" in str(how) else s
            i += 1
        elif lay[i] is not None and lay[i] < 128:
            n = lay[i]
            out += "".join(chr(c) for c in lay[i + 1:i + 1 + n])
            i += 1 + n
        else:
            return None
    return out


def Q21(ck, q, t, meta):
    """By constant propagation over every variant: a currency's name is its variant's, the name read gives the
    variant back, and a text that is none of the names (the reader only compares for equality with constants)
    gives the undefined currency. A pair keeps its currencies in their places, the opposite swaps them, the
    displayed text is both names in order, the written text both names joined by an underscore; a displayed
    text is read from its two places, a written one split at the underscore, both names must be currencies and
    each lands in its own place. All ordered pairs of different currencies and the required ones are made."""
    vs = [v["name"] for v in q.adt(CUR)["variants"]]
    n = len(vs)
    if not (there(ck, "as_str", CUR + "::as_str", q) and there(ck, "from", FROM, q)):
        return
    agg = lambda i: mk_agg(CUR, i, ())
    names = {}
    for i, v in enumerate(vs):
        r = run(q, CUR + "::as_str", args=[fixed(agg(i))])
        ck.ob(f"name:{v}", text_const(r.ret) == v, f"{v} is named {show(r.ret)[:60]}", CUR + "::as_str")
        b = run(q, FROM, args=[fixed_text(q, v)])
        ck.ob(f"read:{v}", b.ret.op == "agg" and b.ret.a[1] == i, f"{v} is read as {show(b.ret)[:60]}", FROM)
        ck.count("currencies")
    nil = vs.index("NIL") if "NIL" in vs else 0
    for s in ("\x00none", "krw", "KRW "):
        b = run(q, FROM, args=[fixed_text(q, s)])
        ck.ob(f"read:unknown {s!r}", b.ret.op == "agg" and b.ret.a[1] == nil, f"the text {s!r} is read as {show(b.ret)[:60]}", FROM)
    p = f"<{CUR} as std::fmt::Display>::fmt"
    if there(ck, "shown", p, q):
        for i, v in enumerate(vs):
            r = run(q, p, args=[fixed(agg(i)), arg("f")])
            s = written(r, vs) or spelled(r.ret, vs, CUR)
            ck.ob(f"shown:{v}", s == v, f"{v} is shown as {s!r}", p)
    ck.floor("currencies", 30)
    # pairs
    a, b = arg("currency1"), arg("currency2")
    if there(ck, "pair", FX + "::new", q):
        r = run(q, FX + "::new")
        ck.ob("pair:first", F(r.ret, "currency1") is a, f"the first currency is {show(F(r.ret, 'currency1'))[:60]}", FX + "::new")
        ck.ob("pair:second", F(r.ret, "currency2") is b, f"the second currency is {show(F(r.ret, 'currency2'))[:60]}", FX + "::new")
    me = D(arg("self"))
    for f in ("currency1", "currency2"):
        p = f"{FX}::get_{f}"
        if there(ck, "get_" + f, p, q):
            r = run(q, p)
            ck.ob("get_" + f, D(r.ret) is F(me, f), f"it gives {show(r.ret)[:60]}", p)
    p = FX + "::reciprocal"
    if there(ck, "opposite", p, q):
        r = run(q, p)
        s = arg("self")
        ck.ob("opposite", F(r.ret, "currency1") is F(s, "currency2") and F(r.ret, "currency2") is F(s, "currency1"), f"the opposite pair is {show(r.ret)[:100]}", p)
    for key, p, sep, args in (("pair shown", f"<{FX} as std::fmt::Display>::fmt", "", ["f"]), ("pair written", f"<{FX} as serde::Serialize>::serialize", "_", ["serializer"])):
        if not there(ck, key, p, q):
            continue
        for i in range(n):
            for j in range(n):
                pair = mk_agg(FX, 0, (("currency1", agg(i)), ("currency2", agg(j))))
                r = run(q, p, args=[fixed(pair)] + [arg(x) for x in args])
                s = written(r, vs) or spelled(r.ret, vs, CUR)
                ck.ob(key, s == vs[i] + sep + vs[j], f"the pair of {vs[i]} and {vs[j]} becomes {s!r}", p)
                ck.count("pairs written")
    reading(ck, q)
    making(ck, q)


def written(r, vs):
    """what the calls that write come to, one after another"""
    out = ""
    for e in r.events:
        if e.kind == "call" and e.name.split("::")[-1] in ("write_str", "write_fmt", "pad"):
            x = e.args[1]
            out += (spelled(x, vs, CUR) if formatted(x) else text_const(x)) or "?"
    return out


def fixed_text(q, s):
    return mk("ref", mk("const", mk("str", s)), ())


def slice_is(x, code, lo, hi):
    w = project(D(code), ("rng", num(lo), num(hi)))
    return x is w or D(x) is w


def reading(ck, q):
    frm = lambda x: call("std::convert::From::from", x)
    p = f"<{FX} as std::convert::From<&str>>::from"
    if there(ck, "pair read", p, q):
        r = run(q, p, opaque=(FROM,))
        code = D(arg("code"))
        for f, lo, hi in (("currency1", 0, 3), ("currency2", 3, 6)):
            x = F(r.ret, f)
            ok_ = x.op == "call" and x.a[0].endswith("::from") and slice_is(x.a[1], arg("code"), lo, hi)
            ck.ob(f"pair read:{f}", ok_, f"{f} is read from {show(x)[:150]}", p)
    ps = [x for x in q.by_path if x in (f"<{FX} as serde::Deserialize<'de>>::deserialize", f"currency::_::<impl serde::Deserialize<'de> for {FX}>::deserialize")]
    if not ck.ob("pair written:read", len(ps) == 1, "pairs are not read back", FX):
        return
    p = ps[0]
    ck.fn(p)
    r = run(q, p, opaque=(FROM, "Currency::as_str"))
    g, v = ok_part(r)
    text = [e for e in r.events if e.kind == "call" and e.name.endswith("::deserialize") and e.res is not None]
    cut = [e for e in r.events if e.kind == "call" and e.name.endswith("split_once") and e.res is not None]
    if not ck.ob("pair written:text", v is not None and len(text) == 1 and len(cut) == 1, "a pair is not read from the text it is written as", p):
        return
    src = V(text[0].res, 0)
    ck.ob("pair written:cut", D(cut[0].args[0]) is src or cut[0].args[0] is src or contains(cut[0].res, lambda z: z is src), "another text is split", p)
    ck.ob("pair written:underscore", "char(95)" in show(cut[0].args[1]) or text_const(cut[0].args[1]) == "_", f"the text is split at {show(cut[0].args[1])[:40]}", p)
    part = V(cut[0].res, 1)
    for f, k in (("currency1", "0"), ("currency2", "1")):
        x = F(v, f)
        piece = F(part, k)
        ck.ob(f"pair written:{f}", x.op == "call" and x.a[0].endswith("::from") and (x.a[1] is piece or x.a[1] is D(piece) or D(x.a[1]) is D(piece)), f"{f} is read from {show(x)[:150]}", p)
        named = [l for l in b_lits(g) if contains(l, lambda z: z.op == "call" and z.a[0].endswith("as_str") and contains(z, lambda y: y is x))]
        ck.ob(f"pair written:{f} known", bool(named), f"a {f} that is no currency is taken", p)


def making(ck, q):
    p = MAKE
    if not there(ck, "make", p, q):
        return
    r = run(q, p)
    must = arg("must_include")
    found = [e for e in r.events if e.kind == "push"]
    ours = [e for e in found if e.args[1].op == "agg" and e.args[1].a[0] == FX]
    if not ck.ob("make:pairs", len(ours) == 1, f"pairs are made at {len(ours)} places", p):
        return
    e = ours[0]
    src = arg("currencies")
    x, y = at(src, 0), at(src, 1)
    ck.ob("make:each", {F(e.args[1], "currency1"), F(e.args[1], "currency2")} == {x, y}, f"the pair made is {show(e.args[1])[:100]}", p)
    want = b_and(b_and(b_not(eq(x, y)), lit(mk("more", src, ZERO)) if False else TRUE), TRUE)
    pairs = [c for c in r.loops if c.src is src]
    ck.ob("make:all pairs", len(pairs) == 2 and all(len(c.exits) == 1 for c in pairs), "not every pair of currencies is visited", p)
    g = b_exists(e.guard, lambda l: l.op == "more" or l.op == "call" and l.a[0] == "more")
    d = b_valid(b_or(b_and(g, b_not(want)), b_and(want, b_not(g))))
    ck.ob("make:different", never(d), f"a pair is made when {b_show(g)[:150]}", p)
    rest = [e for e in found if e is not ours[0]]
    def from_must(x):
        if x is at(V(must, 1), 0):
            return True
        if x.op != "prj":
            return False
        return all(z is V(must, 1) or never(b_and(h, is_v(must, 1))) for h, z in cases(x.a[0]))
    def required(x):
        return all(from_must(z) or never(b_and(h, is_v(must, 1))) for h, z in cases(x))
    if ck.ob("make:required", len(rest) == 1 and required(rest[0].args[1]), f"the required pairs are not added: {[show(e.args[1])[:80] for e in rest]}", p):
        has = [l for l in b_lits(rest[0].guard) if (l.op == "call" and l.a[0] == "contains" or l.op == "contains") and any(isinstance(z, T) and z.op == "prj" and from_must(z) for z in l.a)]
        h = b_exists(rest[0].guard, lambda l: l.op == "more" or l.op == "call" and l.a[0] == "more")
        w = b_not(lit(has[0])) if len(has) == 1 else FALSE
        d = b_and(is_v(must, 1), b_or(b_and(h, b_not(w)), b_and(w, b_not(h))))
        ck.ob("make:required all", len(has) == 1 and never(d), f"a required pair is added when {b_show(h)[:250]}", p)
    ck.count("pairs made")


# ------------------------------------------------------------------------------------------- dated data
GETS = [
    (PRICE, {"get_value": "value", "get_name": "name", "get_code": "code", "get_close_time": "close_time", "get_utc_offset": "utc_offset"}),
    (DAILY, {"get_value": "value", "get_name": "name", "get_code": "code", "get_calendar": "calendar", "get_close_time": "close_time", "get_utc_offset": "utc_offset"}),
    ("data::vector_data::VectorData", {"get_name_clone": "name", "get_value_clone": "value", "get_times_clone": "times", "get_dates_clone": "dates"}),
    ("data::value_data::ValueData", {"get_value": "value", "get_market_datetime": "market_datetime", "get_name": "name", "get_currency": "currency"}),
    ("data::surface_data::SurfaceData", {"get_spot": "spot", "get_value": "value", "get_dates": "dates", "get_market_datetime": "market_datetime", "get_strike": "strikes", "get_name": "name", "get_code": "code"}),
    (MARK, {"get_code": "code", "get_value": "value", "get_market_datetime": "market_datetime", "get_dividend": "dividend", "get_name": "name", "get_currency": "currency"}),
    (EVAL, {"get_date_clone": "date", "get_date": "date"}),
]
PLAIN = (PRICE, DAILY, "data::value_data::ValueData", "data::surface_data::SurfaceData", MARK)


def deref_same(x, w):
    return x is w or D(x) is w if x.op in ("ref", "arg", "prj", "obj") else x is w


def Q22(ck, q, t, meta):
    """get_at_datetime: at the exchange's offset, a time of day after the close looks up the following business
    day of the calendar after the next day, else the day itself; the answer is the close filed under that date,
    or none. Histories copy every field of the data they are made of, sort by date and pair each date with its
    own value. Series of values are accepted under the stated conditions both ways, their times are the calendar
    differences to the market date. Constructors fill and getters read the field of their name, and price
    arithmetic and the evaluation date's sums and comparisons act on the value and date they hold."""
    me = D(arg("self"))
    for ty in PLAIN:
        p = ty + "::new"
        if not there(ck, ty.split("::")[-1] + ":new", p, q):
            continue
        r = run(q, p)
        x = r.ret
        if q.tystr and ok_part(r)[1] is not None:
            g, x = ok_part(r)
            ck.ob(f"{ty.split('::')[-1]}:made", never(b_not(g)), "data are refused", p)
        if x.op != "agg":
            ck.ob(f"{ty.split('::')[-1]}:new", False, f"it makes {show(x)[:100]}", p)
            continue
        for f, v in x.a[2]:
            ck.ob(f"{ty.split('::')[-1]}:{f}", v is arg(f), f"{f} is {show(v)[:80]}", p)
            ck.count("fields")
    for ty, gs in GETS:
        for g, f in gs.items():
            p = f"{ty}::{g}"
            if p not in q.by_path:
                continue
            ck.fn(p)
            r = run(q, p)
            w = F(me, f)
            ck.ob(f"{ty.split('::')[-1]}:{g}", r.ret is w or D(r.ret) is w, f"it gives {show(r.ret)[:80]}", p)
            ck.count("getters")
    ck.floor("fields", 15)
    ck.floor("getters", 20)
    closes(ck, q, me)
    series(ck, q)
    money(ck, q, me)
    evaluation(ck, q, me)


def option_of(ck, key, r, m, k, p, deref=True, when=TRUE):
    """the answer is the entry of map m under k, or none"""
    from models import map_has
    def narrow(g):
        """has(m, ITE) spelled out per case"""
        def one(l):
            ks = [z for z in l.a if isinstance(z, T) and z.op == "ite"] if l.op in ("has", "call") else []
            if not ks:
                return lit(l)
            g = FALSE
            for h, z in cases(ks[0]):
                g = b_or(g, b_and(h, lit(mk(l.op, *[z if a is ks[0] else a for a in l.a]))))
            return g
        return b_map(g, one)
    for h, x in cases(r.ret):
        h = b_and(narrow(b_and(h, r.g)), when)
        if h == FALSE or never(h):
            continue
        hs = map_has(m, k)
        some = x.op == "agg" and x.a[1] == 1
        ck.ob(f"{key}:filed", never(b_and(h, b_not(hs) if some else hs)), f"it answers {'a value' if some else 'none'} when {b_show(b_valid(h))[:250]}", p)
        if some:
            v = D(project(x, ("f", "0")))
            own = v is project(m, ("key", k))
            if not own and v.op == "prj" and v.a[0] is m and v.a[1][0] == "key":
                own = all(z is k for hz, z in cases(v.a[1][1]) if not never(b_and(h, hz)))
            ck.ob(f"{key}:own value", own, f"it answers with {show(v)[:200]}", p)
        ck.count("lookups")


def closes(ck, q, me):
    for ty in (PRICE, DAILY):
        for f in ("get", "get_mut"):
            p = f"{ty}::{f}"
            if there(ck, f"{ty.split('::')[-1]}:{f}", p, q):
                option_of(ck, f"{ty.split('::')[-1]}:{f}", run(q, p), F(me, "value"), D(arg("key")), p)
    p = DAILY + "::insert"
    if there(ck, "filing", p, q):
        r = run(q, p)
        x = final(r, arg("self"), "value")
        ck.ob("filing", x.op == "ins" and x.a[0] is F(me, "value") and x.a[1] is arg("key") and x.a[2] is arg("value"), f"filing a value leaves {show(x)[:150]}", p)
    p = PRICE + "::new_from_data"
    if there(ck, "from data", p, q):
        g, v = ok_part(run(q, p))
        d = D(arg("data"))
        ck.ob("from data:always", g == TRUE, "data are refused", p)
        for f, x in (v.a[2] if v is not None and v.op == "agg" else ()):
            ck.ob(f"from data:{f}", x is F(d, f), f"{f} is {show(x)[:80]}", p)
            ck.count("fields")
    p = PRICE + "::get_at_datetime"
    if there(ck, "at", p, q):
        r = run(q, p, opaque=("::adjust",))
        calls = {e.name.split("::")[-1]: e for e in r.events if e.kind == "call" and e.res is not None}
        local = lift(lambda z: z, call(full(r, "to_offset"), D(arg("datetime")), F(me, "utc_offset")))
        time_ = [z for e in r.events for z in walk(e.res if e.res is not None else ZERO) if z.op == "call" and z.a[0].endswith("::time") and z.a[1] is local]
        ck.ob("at:local time", bool(time_), "the time of day is not that of the exchange's offset", p)
        adj = calls.get("adjust")
        if not ck.ob("at:next day", adj is not None, "no later day is looked up", p) or not time_:
            return
        late = cmp("Gt", time_[0], F(me, "close_time"))
        day = [z for z in walk(adj.args[1]) if z.op == "poly"]
        got = value_at(r, adj.args[1])
        want = add(local, mk_days(1))
        ck.ob("at:adjusted", adj.args[0] is not None and (D(adj.args[0]) is F(me, "calendar") or adj.args[0] is F(me, "calendar")), "another calendar is asked", p)
        ck.ob("at:from the day after", adj.res is not None and any(differ(a, want, TRUE, ()) is None for a in adj.res.a[1:] if isinstance(a, T)), f"the next day is counted from {show(adj.res)[:200]}", p)
        conv = [a for a in adj.res.a[1:] if isinstance(a, T) and a.op == "agg" and a.a[0].endswith("BusinessDayConvention")]
        ck.ob("at:following", len(conv) == 1 and conv[0].a[1] == [v["name"] for v in q.adt(conv[0].a[0])["variants"]].index("Following"), "the next day is not the following business day", p)
        dname = full(r, "date")
        nxt = V(adj.res, 0)
        option_of(ck, "at:after the close", r, F(me, "value"), call(dname, nxt), p, when=b_and(late, variant_is(adj.res, 0, 2)))
        option_of(ck, "at:up to the close", r, F(me, "value"), call(dname, local), p, when=b_not(late))
        ck.ob("at:answers", never(b_and(b_not(late), b_not(r.g))), "no answer up to the close", p)
    for ty, f in ((PRICE, "get_ordered_data_by_datetime"), (DAILY, "get_ordered_data_by_date")):
        p = f"{ty}::{f}"
        if there(ck, ty.split("::")[-1] + ":listed", p, q):
            ordered(ck, q, ty, p, me)


def value_at(r, x):
    return x


def mk_days(n):
    return mul(num(86400 * n), mk("second"))


def full(r, name):
    for e in r.events:
        if e.kind == "call" and e.name.split("::")[-1] == name:
            return e.name
    for e in r.events:
        for x in list(e.args) + ([e.res] if e.res is not None else []):
            for z in walk(x):
                if z.op == "call" and z.a[0].split("::")[-1] == name:
                    return z.a[0]
    return name


def ordered(ck, q, ty, p, me):
    key = ty.split("::")[-1] + ":listed"
    r = run(q, p)
    m = F(me, "value")
    sorts = [e for e in r.events if e.kind == "call" and e.name.split("::")[-1].startswith("sort")]
    if not ck.ob(f"{key}:sorted", len(sorts) == 1 and sorts[0].guard == TRUE, "the days are not sorted once", p):
        return
    s = sorts[0]
    how = s.name.split("::")[-1]
    cl = [b for x, b in q.by_path.items() if x.startswith(p + "::{closure")]
    asc = False
    for x in q.by_path:
        if x.startswith(p + "::{closure"):
            c = run(q, x)
            if how in ("sort_by", "sort_unstable_by"):
                asc = asc or ascending(c.ret)
            elif how in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
                asc = asc or key_of(c.ret)
    ck.ob(f"{key}:ascending", asc, "the days are not in ascending order", p)
    x = project(r.ret, ("f", "0"))
    y = project(r.ret, ("f", "1"))
    if not ck.ob(f"{key}:lists", x.op == "tab" and y.op == "tab" and x.a[0] is y.a[0], "days and values are not listed alike", p):
        return
    src = x.a[0]
    here = at(src, "t")
    inner = [z for z in walk(src) if z.op == "tab" and z.a[0] is m]
    ok_ = src.op == "out" and len(inner) >= 1 and D(project(inner[0].a[1], ("f", "0"))) is mk("mapkey", m, mk("ix", m, "t")) and D(project(inner[0].a[1], ("f", "1"))) is project(m, ("at", mk("ix", m, "t")))
    ck.ob(f"{key}:all", ok_, f"what is listed is {show(src)[:200]}", p)
    ck.ob(f"{key}:days", x.a[1] is D(project(here, ("f", "0"))) or x.a[1] is project(here, ("f", "0")), f"a day listed is {show(x.a[1])[:150]}", p)
    ck.ob(f"{key}:values", y.a[1] is D(project(here, ("f", "1"))) or y.a[1] is project(here, ("f", "1")), f"a value listed is {show(y.a[1])[:150]}", p)
    ck.count("lists")


def ascending(x):
    """x = the order of the first element's key against the second's"""
    if not all(z.op == "agg" and z.a[0].endswith("Ordering") for _, z in cases(x)):
        return False
    args = [z for z in walk(x) if z.op == "arg"]
    names = sorted({a.a[0] for a in args})
    if len(names) != 2:
        return False
    a, b = (arg(n) for n in ("a", "b")) if names == ["a", "b"] else (arg(names[0]), arg(names[1]))
    ka = [z for h, _ in cases(x) for l in b_lits(h) for z in walk(l.a[0]) if z.op == "deref"]
    key = lambda n: D(F(D(D(n)) if False else D(n), "0"))
    for u in (lambda n: D(F(D(n), "0")), lambda n: D(F(n, "0")), lambda n: F(D(n), "0")):
        for f in (u,):
            x1, x2 = f(a), f(b)
            for deep in range(3):
                if all(never(b_and(h, b_not(cmp("Lt" if z.a[1] == 0 else "Eq" if z.a[1] == 1 else "Gt", x1, x2)))) for h, z in cases(x)):
                    return True
                x1, x2 = D(x1), D(x2)
    return False


def key_of(x):
    while x.op in ("deref", "obj", "ref") and isinstance(x.a[0], T) and x.op != "ref":
        x = x.a[0]
    return x.op == "prj" and x.a[1] == ("f", "0") or x.op == "arg"


def series(ck, q):
    p = "data::vector_data::VectorData::new"
    if not there(ck, "series", p, q):
        return
    r = run(q, p, opaque=("get_time_difference",))
    g, v = ok_part(r)
    val, dates, times, mdt = (arg(n) for n in ("value", "dates", "times", "market_datetime"))
    n = mk("len", val)
    dat, tim = is_v(dates, 1), is_v(times, 1)
    want = b_or(b_and(dat, b_and(is_v(mdt, 1), cmp("Eq", n, mk("len", V(dates, 1))))),
                b_and(b_not(dat), b_and(tim, cmp("Eq", n, mk("len", V(times, 1))))))
    d = b_valid(b_or(b_and(g, b_not(want)), b_and(want, b_not(g))))
    if not ck.ob("series:accepted", v is not None and never(d), f"acceptance differs when {b_show(d)[:300]}", p):
        return
    for f in ("value", "currency", "name", "code", "market_datetime", "dates"):
        bad = []
        for h, x in cases(F(v, f)):
            hh = b_and(h, g)
            if x is arg(f) or hh == FALSE:
                continue
            one = x.op == "agg" and len(x.a[2]) == 1 and x.a[1] == 1 and x.a[2][0][1] is V(arg(f), 1) and never(b_and(hh, b_not(is_v(arg(f), 1))))
            none = x.op == "agg" and not x.a[2] and x.a[1] == 0 and never(b_and(hh, is_v(arg(f), 1)))
            if not (one or none or never(hh)):
                bad.append(show(x)[:80])
        ck.ob(f"series:{f}", not bad, f"{f} is {bad[:2]}", p)
    calls = [e for e in r.events if e.kind == "call" and e.name.endswith("get_time_difference") and e.res is not None]
    for h, x in cases(F(v, "times")):
        for when, w in ((b_not(dat), V(times, 1)), (dat, None)):
            hh = b_and(b_and(h, g), when)
            if hh == FALSE or never(hh):
                continue
            if w is not None:
                ck.ob("series:times given", x is w, f"the times are {show(x)[:120]}", p)
            else:
                ok_ = x.op == "tab" and x.a[0] is V(dates, 1) and x.a[1].op == "call" and x.a[1].a[0].endswith("get_time_difference") and x.a[1].a[-2] is V(mdt, 1) and x.a[1].a[-1] is at(V(dates, 1), "t")
                ck.ob("series:times of dates", ok_, f"the times are {show(x)[:200]}", p)
                cal = x.a[1].a[1] if ok_ else None
                ck.ob("series:calendar", ok_ and "NullCalendar" in show(cal), "the times are not calendar times", p)
            ck.count("times")


def money(ck, q, me):
    for tr, f, op in (("AddAssign", "add_assign", add), ("SubAssign", "sub_assign", sub), ("MulAssign", "mul_assign", mul), ("DivAssign", "div_assign", div)):
        p = f"<{MARK} as std::ops::{tr}<f32>>::{f}"
        if there(ck, f, p, q):
            r = run(q, p)
            m = differ(final(r, arg("self"), "value"), op(F(me, "value"), arg("rhs")), TRUE)
            ck.ob(f"price:{f}", m is None, f"the price becomes another: {m}", p)
            for k in ("market_datetime", "dividend", "currency", "name", "code"):
                ck.ob(f"price:{f} keeps {k}", final(r, arg("self"), k) is F(me, k), f"{k} changes", p)
            ck.count("sums")
    p = MARK + "::set_price"
    if there(ck, "set_price", p, q):
        r = run(q, p)
        ck.ob("price:set", final(r, arg("self"), "value") is arg("price"), "the price set is another", p)


def evaluation(ck, q, me):
    date = F(me, "date")
    p = EVAL + "::new"
    if there(ck, "evaluation", p, q):
        r = run(q, p)
        ck.ob("evaluation:date", F(r.ret, "date") is arg("date"), "the date is another", p)
        for f in ("marketprice_observers", "dividend_observers"):
            x = F(r.ret, f)
            ck.ob(f"evaluation:{f}", x.op in ("emptyvec",) or x.op == "agg" and not x.a[2], f"it starts with {show(x)[:60]}", p)
    for tr, f, nm in (("Add", "add", "add_period"), ("Sub", "sub", "sub_period")):
        p = f"<{EVAL} as std::ops::{tr}<&str>>::{f}"
        if there(ck, f"date {f}", p, q):
            r = run(q, p, opaque=("string_arithmetic::add_period", "string_arithmetic::sub_period"))
            x = r.ret
            own = F(arg("self"), "date")
            ok_ = x.op == "call" and x.a[0].endswith(nm) and x.a[1] is own and x.a[2] in (D(arg("rhs")), arg("rhs"))
            ck.ob(f"date:{f}", ok_, f"the date is {show(x)[:150]}", p)
            ck.count("sums")
    ck.floor("sums", 4)
    me_, you = D(arg("self")), D(arg("other"))
    p = f"<{EVAL} as std::cmp::PartialEq<time::OffsetDateTime>>::eq"
    if there(ck, "date eq", p, q):
        r = run(q, p)
        d = b_valid(b_of(r.ret) ^ 0)
        w = eq(date, you)
        g = b_of(r.ret)
        d = b_valid(b_or(b_and(g, b_not(w)), b_and(w, b_not(g))))
        ck.ob("date:equal", never(d), f"equality differs when {b_show(d)[:150]}", p)
    p = EVAL + "::date"
    if there(ck, "date day", p, q):
        r = run(q, p)
        ck.ob("date:day", r.ret.op == "call" and r.ret.a[0].split("::")[-1] == "date" and r.ret.a[1] is date, f"the day is {show(r.ret)[:100]}", p)
