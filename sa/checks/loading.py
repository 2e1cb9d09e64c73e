"""Engine loading (market data by code) and portfolio runs (groups, results)."""
from spec import *
from interp import *
from models import map_has

PE = "pricing_engines::"
ENG = PE + "engine::Engine::"
GEN = PE + "engine_generator::"
INST = "instrument::Instruments::"
ALWAYS = ("MarketPrice::new", "ZeroCurve::new", "DiscreteRatioDividend::new", "LocalVolatilitySurface::initialize",
          "LocalVolatilitySurface::with_constant_volatility", "LocalVolatilitySurface::with_market_surface", "LocalVolatilitySurface::build",
          "ConstantVolatility::new", "Quanto::new", "DailyClosePrice::new_from_data", "::get_all_curve_names", "FxCode::to_string")
ASKED = ("::get_all_fxcodes_for_pricing", "::get_all_underlying_codes", "::get_all_unerlying_codes_requiring_volatility",
         "::get_all_quanto_fxcode_und_pairs", "add_marketprice_observer", "add_dividend_observer")


def bare(t):
    """shared cells replaced by what was first put in them"""
    def f(z):
        if z.op == "rcnew":
            return bare(z.a[2])
        if z.op == "deref" and is_new(z.a[0]):
            return bare(z.a[0].a[1])
        if is_new(z):
            return bare(z.a[1])
        if z.op == "upd" and z.a[0].op == "cellnew" and len(z.a[1]) == 1:
            return bare(z.a[1][0][1])
        return None
    return subst(t, f)


def bare_at(z):
    y = bare(z)
    return None if y is z else y


def is_new(z):
    return z.op == "call" and len(z.a) == 2 and z.a[0] in ("std::rc::Rc::new", "std::sync::Arc::new")


def names_of(r):
    names = {}
    for e in r.events:
        if e.kind == "call":
            names.setdefault("::".join(e.name.split("::")[-2:]), e.name)
            names.setdefault(e.name.split("::")[-1], e.name)
    return lambda x, *a: call(names.get(x, x), *a)


class Maps:
    """the maps a function fills in loops: which loop symbols stand for which map"""

    def __init__(self, r):
        self.r = r
        self.name = {}

    def chain(self, m):
        """loops that filled the map with final value m, first one first; None if it is something else"""
        out = []
        while m.op == "mu":
            cs = [c for c in self.r.loops if m in c.init]
            if len(cs) != 1:
                return None
            out.append((cs[0], m))
            m = cs[0].init[m]
        return out[::-1] if m.op == "emptymap" else None

    def call_it(self, m, name):
        ch = self.chain(m)
        for _, x in ch or ():
            self.name[x] = mk("name", name if x is m else name + " so far")
        return ch

    def g(self, h):
        return subst_guard(h, lambda z: self.name.get(z))

    def known(self, t):
        return subst(bare(t), lambda z: self.name.get(z))


def filled(ck, key, maps, c, m, rows, where):
    """one pass over c.src enters exactly the rows [(guard, key, value)] and goes on exactly when one applies or `free`"""
    nx = c.next[m]
    k0 = mk("mapkey", c.src, mk("ix", c.src, 0))
    fresh = b_not(map_has(m, k0)) if all(k is k0 for _, k, _ in rows) else TRUE  # a map has each of its keys once
    anyrow = FALSE
    for g, _, _ in rows:
        anyrow = b_or(anyrow, g)
    for h, x in cases(nx):
        h = maps.g(b_valid(b_and(b_and(h, fresh), c.backguard)))
        if h == FALSE:
            continue
        ck.count("entries")
        if x is m:
            ck.ob(f"{key}:entered", never(b_and(h, anyrow)), f"not entered when {b_show(b_and(h, anyrow))[:200]}", where)
            continue
        if not ck.ob(f"{key}:entry", x.op == "ins" and x.a[0] is m, "a pass does more than enter one object", where):
            continue
        ck.ob(f"{key}:wanted", never(b_and(h, b_not(anyrow))), f"entered when {b_show(b_and(h, b_not(anyrow)))[:200]}", where)
        for g, k, v in rows:
            hh = b_valid(b_and(h, g))
            if hh == FALSE or never(hh):
                continue
            got = maps.known(x.a[2])
            mm = differ(special(maps.known(x.a[1]), hh), k, hh)
            ck.ob(f"{key}:key", mm is None, f"entered under another name: {mm}", where)
            mm = differ(special(got, hh), special(v, hh), hh)
            ck.ob(f"{key}:value", mm is None, f"another object is entered: {mm}", where)


def runs_all(ck, key, maps, c, present, where):
    """a pass ends the run only if something is missing"""
    more = c.more
    for _, g in c.exits:
        g = maps.g(b_and(g, more))
        ck.ob(f"{key}:stops", never(b_and(g, present)), f"the run stops although nothing is missing, when {b_show(b_and(g, present))[:250]}", where)
    on = b_and(maps.g(c.backguard), b_not(present))
    ck.ob(f"{key}:missing", never(on), f"missing data is passed over when {b_show(on)[:250]}", where)


def Q25(ck, q, t, meta):
    """The maps of market objects an engine is given are read as what each pass of the loops
    that fill them enters: name, object and condition. Every entry must be the object made of
    the data of its own name, every name asked for by the instruments must be gone through,
    and a pass may end the run only when its data is missing, and must then. Every price and
    every dividend must be told of changes of the evaluation date."""
    p = ENG + "with_parameter_data"
    r = run(q, p, total=ALWAYS, opaque=ASKED)
    ck.fn(p)
    n = names_of(r)
    me = arg("self")
    g, v = ok_part(r)
    if not ck.ob("answer", v is not None, "no engine is returned", p):
        return
    maps = Maps(r)
    ch = {f: maps.call_it(project(v, ("f", f)), f) for f in ("fxs", "zero_curves", "dividends", "equities", "volatilities", "quantos", "past_daily_close_prices")}
    for f, x in ch.items():
        if not ck.ob(f"{f}:map", x is not None, "the objects are not entered one by one in a fresh map", p):
            return
    # fields that must stay as they are
    for f in ("instruments", "evaluation_date", "match_parameter", "calculation_configuration", "calculation_results"):
        if f == "evaluation_date":
            continue
        m = differ(project(v, ("f", f)), F(me, f), g)
        ck.ob(f"{f}:kept", m is None, f"changed: {m}", p)
    data = lambda x: D(arg(x))
    insts = F(me, "instruments")
    dt = F(cell(F(me, "evaluation_date")), "date")
    ed = F(me, "evaluation_date")
    price = lambda *a: n("MarketPrice::new", *a)
    asked = lambda fn, *a: n(fn, insts, *a)

    def one(f, k, src, rows, present, at=0):
        where = p
        xs = [(c, m) for c, m in ch[f] if c.src is src]
        if not ck.ob(f"{k}:every", len(xs) >= 1, f"not every name asked for is gone through", where):
            return None
        for c, m in xs:
            filled(ck, k, maps, c, m, rows, where)
            runs_all(ck, k, maps, c, present, where)
        return xs

    def only(f, srcs):
        for c, _ in ch[f]:
            ck.ob(f"{f}:only", any(c.src is s for s in srcs), f"objects are also entered for {show(c.src)[:150] if c.src is not None else None}", p)

    # exchange rates
    src = asked("get_all_fxcodes_for_pricing")
    code = el(src, src)
    c1, c2 = F(code, "currency1"), F(code, "currency2")
    krw = unit(q, "currency::Currency", "KRW")
    fx = data("fx_data")
    back, a, b = pair(c2, c1), pair(c1, krw), pair(c2, krw)
    txt = n("to_string", code)
    val = lambda d, k: F(project(d, ("key", k)), "value")
    has = map_has
    h1 = has(fx, code)
    h2 = b_and(b_not(h1), has(fx, back))
    h3 = b_and(b_and(b_not(h1), b_not(has(fx, back))), b_and(has(fx, a), has(fx, b)))
    rows = [(w, code, price(x, dt, NONE, c2, txt, txt)) for w, x in
            ((h1, val(fx, code)), (h2, div(ONE, val(fx, back))), (h3, div(val(fx, a), val(fx, b))))]
    one("fxs", "exchange rate", src, rows, b_or(b_or(h1, h2), h3))
    only("fxs", [src])
    # curves: those named by the instruments and the borrowing curves of underlyings
    cd = data("curve_data")
    curve = lambda k: n("ZeroCurve::new", ed, project(cd, ("key", k)), k, k)
    names = asked("get_all_curve_names", D(F(me, "match_parameter")))
    und = asked("get_all_underlying_codes")
    for k, src in (("curve", names), ("borrowing curve", und)):
        x = D(el(src, src))
        one("zero_curves", k, src, [(has(cd, x), x, curve(x))], has(cd, x))
    only("zero_curves", [names, und])
    # dividends
    x = D(el(und, und))
    dd, sd = data("dividend_data"), data("stock_data")
    divd = some(n("DiscreteRatioDividend::new", ed, project(dd, ("key", x)), val(sd, x), x, x))
    one("dividends", "dividend", und, [(has(dd, x), x, divd)], b_or(b_not(has(dd, x)), has(sd, x)))
    only("dividends", [und])
    # stocks
    dv = mk("name", "dividends")
    own = ite((has(dv, x), project(dv, ("key", x))), (b_not(has(dv, x)), NONE))
    st = project(sd, ("key", x))
    one("equities", "stock", und, [(has(sd, x), x, price(F(st, "value"), dt, own, F(st, "currency"), F(st, "name"), x))], has(sd, x))
    only("equities", [und])
    # volatilities
    src = asked("get_all_unerlying_codes_requiring_volatility", NONE)
    y = el(src, src)
    mp, cc = D(F(me, "match_parameter")), D(F(me, "calculation_configuration"))
    col, bor = F(mp, "collateral_curve_map"), F(mp, "borrowing_curve_map")
    eqs, zc = mk("name", "equities"), mk("name", "zero_curves")
    start = n("LocalVolatilitySurface::initialize", ed, project(eqs, ("key", y)), project(zc, ("key", project(col, ("key", y)))),
              project(zc, ("key", project(bor, ("key", y)))), F(cc, "stickyness_type"), F(cc, "lv_interpolator"), y, y)
    ec, es = data("equity_constant_volatility_data"), data("equity_volatility_surface_data")
    tenors, spots = F(cc, "vega_structure_tenors"), F(cc, "vega_matrix_spot_moneyness")
    made = lambda x: mk("agg", "parameters::volatility::Volatility", variant(q, "LocalVolatilitySurface"), (("0", mk("out", 0, n("LocalVolatilitySurface::build", x))),))
    need = [has(eqs, y), has(col, y), has(bor, y), has(zc, project(col, ("key", y))), has(zc, project(bor, ("key", y)))]
    hc = has(ec, y)
    hs = b_and(b_not(hc), has(es, y))
    rows = [(hc, y, made(n("LocalVolatilitySurface::with_constant_volatility", start, project(ec, ("key", y)), tenors, spots))),
            (hs, y, made(n("LocalVolatilitySurface::with_market_surface", start, project(es, ("key", y)), tenors, spots)))]
    present = b_or(hc, hs)
    for w in need:
        present = b_and(present, w)
    one("volatilities", "volatility", src, rows, present)
    only("volatilities", [src])
    # quanto
    src = asked("get_all_quanto_fxcode_und_pairs")
    pr = el(src, src)
    uc, fc = D(F(pr, "0")), D(F(pr, "1"))
    key = mk("agg", "tuple", 0, (("0", uc), ("1", fc)))
    qd = data("quanto_correlation_data")
    fv = data("fx_constant_volatility_data")
    vols = [m for m in r.loops for m in m.init if m.op == "mu" and m not in maps.name and maps.chain(m)]
    last = [m for m in vols if not any(m is c.init.get(z) for c in r.loops for z in c.init)]
    if ck.ob("exchange volatility:map", len(last) == 1, f"{len(last)} further maps are filled", p):
        ch["exchange volatilities"] = maps.call_it(last[0], "exchange volatilities")
        for c, m in ch["exchange volatilities"]:
            z = el(c.src, c.src)
            w = call(n("to_string").a[0], z)
            obj = mk("agg", "parameters::volatility::Volatility", variant(q, "ConstantVolatility"), (("0", n("ConstantVolatility::new", val(fv, z), w, w)),))
            filled(ck, "exchange volatility", maps, c, m, [(has(fv, z), z, obj)], p)
            runs_all(ck, "exchange volatility", maps, c, has(fv, z), p)
            ck.ob("exchange volatility:every", drawn(c.src, src), f"exchange volatilities are made for {show(c.src)[:200]}", p)
    xv = mk("name", "exchange volatilities")
    obj = n("Quanto::new", project(xv, ("key", fc)), val(qd, key), fc, uc)
    one("quantos", "quanto", src, [(b_and(has(qd, key), has(xv, fc)), key, obj)], b_and(has(qd, key), has(xv, fc)))
    only("quantos", [src])
    # past prices
    src = data("past_daily_value_data")
    ix = mk("ix", src, 0)
    one("past_daily_close_prices", "past prices", src, [(TRUE, mk("mapkey", src, ix), n("DailyClosePrice::new_from_data", el(src, src)))], TRUE)
    only("past_daily_close_prices", [src])
    observers(ck, r, maps, ch, p)
    ck.floor("entries", 8)


def pair(a, b):
    return mk("agg", "currency::FxCode", 0, (("currency1", a), ("currency2", b)))


def unit(q, adt, name):
    for i, v in enumerate(q.adt(adt)["variants"]):
        if v["name"] == name:
            return mk("agg", adt, i, ())


def variant(q, name):
    for i, v in enumerate(q.adt("parameters::volatility::Volatility")["variants"]):
        if v["name"] == name:
            return i


def drawn(src, pairs):
    """the exchange rates of all pairs"""
    while src.op in ("collected", "uniq", "dedup"):
        src = src.a[-1]
    return src.op == "tab" and src.a[0] is pairs and src.a[1] is D(F(project(pairs, ("at", pos(pairs))), "1"))


def observers(ck, r, maps, ch, where):
    for key, f, name in (("told rate", "fxs", "add_marketprice_observer"), ("told stock", "equities", "add_marketprice_observer"), ("told dividend", "dividends", "add_dividend_observer")):
        m = ch[f][-1][1]
        ok = []
        for e in r.events:
            if e.kind != "call" or not e.name.endswith(name) or not e.loops:
                continue
            c = e.loops[-1]
            if c.src is m:
                x = el(m, m)
                want = x if f != "dividends" else project(project(x, ("v", 1)), ("f", "0"))
                when = TRUE if f != "dividends" else variant_is(x, 1, 2)
                if e.args[1] is want:
                    ok.append((c, when, e))
            elif any(c is cc for cc, _ in ch[f]):
                # told while it is entered
                for cc, mm in ch[f]:
                    for h, x in cases(cc.next[mm]):
                        y = x.a[2] if x.op == "ins" else None
                        if y is not None and f == "dividends":
                            y = project(project(y, ("v", 1)), ("f", "0"))
                        if cc is c and y is e.args[1]:
                            ok.append((c, h, e))
        ck.ob(f"{key}:once", len(ok) == 1, f"the evaluation date is given these objects {len(ok)} times", where)
        for c, when, e in ok:
            g = b_and(b_and(c.backguard, when), b_not(e.guard))
            ck.ob(f"{key}:all", never(g), f"not told when {b_show(g)[-250:]}", where)


ASPECTS = ("::get_type_name", "::get_currency", "::get_underlying_codes", "::get_name", "::get_code", "::get_unit_notional", "::get_maturity")
STEPS = ("Engine::builder", "Engine::with_instruments", "Engine::with_parameter_data", "Engine::initialize_pricers", "Engine::calculate", "Engine::get_calculation_result")


def Q17(ck, q, t, meta):
    """A group takes an instrument exactly when type, currency and underlyings are as it asks; the
    distribution gives every category, in order, the instruments no earlier category took, and fails
    exactly when one is left over; every group is run through an engine of its own that is given the
    group's instruments and every data set in its own role, each result is filed under its own code and
    a failure is the run's failure; an engine refuses an empty group and a matured instrument and starts
    each result with the instrument's own details."""
    category(ck, q)
    distribution(ck, q)
    setup(ck, q)
    portfolio(ck, q)
    group(ck, q)
    ck.floor("parts", 5)


def category(ck, q):
    p = GEN + "InstrumentCategory::contains"
    r = run(q, p, opaque=ASPECTS)
    ck.fn(p)
    ck.count("parts")
    n = names_of(r)
    me, inst = D(arg("self")), D(arg("instrument"))
    g, v = ok_part(r)
    if not ck.ob("category:answer", v is not None, "no answer", p):
        return
    want = TRUE
    und = n("get_underlying_codes", inst)
    for f in ("type_names", "currency", "underlying_codes"):
        o = F(me, f)
        asked = V(o, 1)
        if f == "underlying_codes":
            none_own = b_not(cmp("Gt", mk("len", und), num(0)))
            ok_ = b_or(none_own, cmp("Eq", asked, und))
        else:
            x = n("get_type_name" if f == "type_names" else "get_currency", inst)
            ok_ = lit(mk("call", "contains", asked, D(x)))
        want = b_and(want, b_or(b_not(SOME(o)), ok_))

    def own(z):
        # a list of references to the elements of a list
        if z.op == "tab" and z.a[1].op == "ref" or z.op == "tab" and z.a[1] is project(z.a[0], ("at", pos(z.a[0]))):
            return z.a[0]
        if z.op == "call" and z.a[0] == "contains":
            # being in a list is being equal to one of its elements
            return mk("exists", z.a[1], bool_t(cmp("Eq", el(z.a[1], z.a[1]), z.a[2])))
        if z.op == "len":
            y = own(z.a[0])
            return None if y is None else mk("len", y)
        return None
    got, want = subst_guard(bool_of(subst(v, own)), own), subst_guard(want, own)
    bad = b_or(b_and(got, b_not(want)), b_and(want, b_not(got)))
    ck.ob("category:members", never(b_valid(b_and(g, bad))), "wrong answer when " + b_show(b_valid(b_and(g, bad)))[:400], p)
    ck.ob("category:total", g == TRUE, "no answer when " + b_show(b_not(g))[:300], p)


def bool_of(v):
    """the guard under which the boolean v holds"""
    g = FALSE
    for h, x in cases(v):
        if x.op in ("b", "B"):
            g = b_or(g, b_and(h, x.a[0]))
        else:
            g = b_or(g, b_and(h, lit(x)))
    return g


def distribution(ck, q):
    p = GEN + "EngineGenerator::distribute_instruments"
    r = run(q, p, total=("InstrumentCategory::contains",), opaque=ASPECTS)
    ck.fn(p)
    ck.count("parts")
    n = names_of(r)
    me = D(arg("self"))
    cats, insts = F(me, "instrument_categories"), F(me, "instruments", "instruments")
    outer = [c for c in r.loops if c.src is cats]
    flags = [(c, m) for c in outer for m in c.init if c.init[m].op == "repeat" and c.init[m].a[0] is bool_t(FALSE) and c.init[m].a[1] is mk("len", insts)]
    if not ck.ob("distribution:taken", len(flags) == 1, "no record, empty at first, of the instruments already taken is kept over all the categories", p):
        return
    c, fl = flags[0]
    cat = el(cats, cats)
    inst = D(el(insts, insts))
    fits = lit(n("contains", cat, inst))
    free = b_not(lit(el(fl, insts)))
    take = b_and(fits, free)
    nxt = c.next[fl]
    at0 = el(nxt, insts)
    for h, x in cases(at0):
        gg = bool_of(x)
        want = b_or(take, b_not(free))
        bad = b_valid(b_and(h, b_or(b_and(gg, b_not(want)), b_and(want, b_not(gg)))))
        none = b_and(b_not(lit(mk("exists", insts, bool_t(take)))), take)  # this very instrument is taken, so some are
        ck.ob("distribution:record", never(b_and(bad, b_not(none))), "the record of what is taken is wrong after a category when " + b_show(bad)[:400], p)
    grp = seqof(insts, take, inst)
    some_ = lit(mk("exists", insts, bool_t(take)))
    want = seqof(cats, some_, grp)
    g, v = ok_part(r)
    got = final(r, arg("self"), "instrument_group_vec")
    m = differ(got, want, g)
    ck.ob("distribution:groups", m is None, f"the groups are not, category by category, the free instruments that fit: {m}", p)
    left = lit(mk("exists", fl, bool_t(b_not(lit(el(fl, fl))))))
    left2 = lit(mk("exists", insts, bool_t(b_not(lit(el(fl, insts))))))
    if left2 != left and left2 in [lit(z) for z in b_lits(g)]:
        left = left2
    bad = b_valid(b_or(b_and(g, left), b_and(b_not(g), b_not(left))))
    ck.ob("distribution:left over", never(bad), "the outcome is not a failure exactly when an instrument is left over: " + b_show(bad)[:400], p)


def setup(ck, q):
    ck.count("parts")
    base = GEN + "EngineGenerator::"
    for fn, fields in (("with_configuration", ("calculation_configuration", "match_parameter")), ("with_instruments", ("instruments",)),
                       ("with_instrument_categories", ("instrument_categories",)),
                       ("with_data", ("fx_data", "stock_data", "curve_data", "dividend_data", "equity_constant_volatility_data", "equity_volatility_surface_data",
                                      "fx_constant_volatility_data", "quanto_correlation_data", "past_daily_value_data"))):
        p = base + fn
        r = run(q, p)
        ck.fn(p)
        all_ = [f[0] for f in q.adt(GEN + "EngineGenerator")["variants"][0]["fields"]]
        args = {x: arg(x) for x in fields}
        for f in all_:
            got = bare(final(r, arg("self"), f))
            if f in fields:
                ok_ = got is args[f]
            elif fn == "with_configuration" and f == "evaluation_date":
                ok_ = project(got, ("f", "date")) is arg("evalutation_datetime")
            else:
                ok_ = got is F(D(arg("self")), f)
            ck.ob(f"setup:{fn}:{f}", ok_, f"{f} becomes {show(got)[:150]}", p)
        ck.ob(f"setup:{fn}:total", r.g == TRUE and b_not(ok_part(r)[0]) == FALSE, "the setting can fail", p)


def portfolio(ck, q):
    p = GEN + "EngineGenerator::calculate"
    ck.count("parts")
    me = D(arg("self"))
    for total_ in (True, False):
        r = run(q, p, **({"total": STEPS} if total_ else {"opaque": STEPS}))
        ck.fn(p)
        n = names_of(r)
        groups = F(me, "instrument_group_vec")
        ix = mk("ix", groups, 0)
        if not total_:
            break
        def made(id_):
            e = n("Engine::builder", id_, F(me, "calculation_configuration"), F(me, "evaluation_date", "date"), F(me, "match_parameter"))
            e = n("Engine::with_instruments", e, el(groups, groups))
            e = n("Engine::with_parameter_data", e, *[F(me, f) for f in ("fx_data", "stock_data", "curve_data", "dividend_data", "equity_constant_volatility_data",
                                                                        "equity_volatility_surface_data", "fx_constant_volatility_data", "quanto_correlation_data", "past_daily_value_data")])
            e = mk("out", 0, n("Engine::initialize_pricers", e))
            e = mk("out", 0, n("Engine::calculate", e))
            return D(n("Engine::get_calculation_result", e))
        res = final(r, arg("self"), "calculation_results")
        outer = [c for c in r.loops if res in c.init]
        if not ck.ob("portfolio:every group", len(outer) == 1 and outer[0].src is groups and outer[0].init[res].op == "emptymap",
                     "the results are not gathered, from nothing, over all the groups", p):
            return
        c = outer[0]
        inner = [(k, m) for k in r.loops for m in k.init if k.init[m] is res and k is not c]
        if not ck.ob("portfolio:own results", len(inner) == 1 and c.next[res] is inner[0][1], "a group does more or less than add its engine's results", p):
            return
        k, m = inner[0]
        ids = [e.args[0] for e in r.events if e.kind == "call" and e.name.endswith("Engine::builder")]
        want = made(ids[0]) if len(ids) == 1 else None
        bad = None if want is k.src else differ(k.src, want) if want is not None else "several engines"
        ck.ob("portfolio:engine", want is not None and bad is None, f"the results are not those of an engine set up with the group and the data: {bad}", p)
        src = k.src
        key = mk("mapkey", src, mk("ix", src, 0))
        row = ins_of(k.next[m])
        ok_ = row is not None and row[0] is m and row[1] is key and row[2] in (project(el(src, src), ("cell",)), project(project(src, ("key", key)), ("cell",)))
        ck.ob("portfolio:filed", ok_, f"a result is not filed under its own code: {show(k.next[m])[-300:]}", p)
        ck.ob("portfolio:all results", all(h == b_not(k.more) or never(b_and(h, k.more)) for _, h in k.exits), "not all results are gathered", p)
    # a failing step is the run's failure
    steps = [e for e in r.events if e.kind == "call" and any(e.name.endswith(s) for s in STEPS[1:5])]
    if not ck.ob("portfolio:steps", len(steps) == 4 and all(e.loops and e.loops[-1].src is groups for e in steps), "the four steps are not each taken once for each group", p):
        return
    failed = FALSE
    for e in steps:
        failed = b_or(failed, is_v(e.res, 1))
    g, v = ok_part(r)
    conds = FALSE
    for z in b_lits(g):
        if z.op == "exists" and z.a[0] is groups and never(b_and(g, lit(z))):
            conds = b_or(conds, z.a[1].a[0])
    more = steps[0].loops[-1].more
    ck.ob("portfolio:failure", not never(conds) and never(b_valid(b_and(b_and(failed, more), b_not(conds)))), "a failing step is passed over", p)
    ck.ob("portfolio:success", never(b_valid(b_and(conds, b_not(failed)))), "the run fails though every step succeeded", p)


def ins_of(x):
    return x.a if x.op == "ins" else None


def whole(x, src):
    return src if x.op == "tab" and x.a[0] is src and x.a[1] is project(src, ("at", pos(src))) else x


def group(ck, q):
    p = ENG + "with_instruments"
    r = run(q, p, total=("get_all_currencies",), opaque=ASPECTS + ("get_all_type_names", "get_all_underlying_codes"))
    ck.fn(p)
    ck.count("parts")
    n = names_of(r)
    me, vec = arg("self"), arg("instrument_vec")
    g, v = ok_part(r)
    if not ck.ob("group:answer", v is not None, "no engine is returned", p):
        return
    inst = el(vec, vec)
    dt = F(cell(F(me, "evaluation_date")), "date")
    mat = n("get_maturity", inst)
    old = lit(mk("exists", vec, bool_t(b_and(SOME(mat), cmp("Le", D(V(mat, 1)), dt)))))
    bad = b_or(b_not(cmp("Gt", mk("len", vec), num(0))), old)
    gb = subst_guard(g, bare_at)
    x = b_valid(b_or(b_and(gb, bad), b_and(b_not(gb), b_not(bad))))
    ck.ob("group:refused", never(x), "the group is not refused exactly when it is empty or an instrument has matured: " + b_show(x)[:500], p)
    for f, x in (("to calculate", project(v, ("f", "instruments_in_action"))), ("instruments", project(project(v, ("f", "instruments")), ("f", "instruments")))):
        m = differ(whole(bare(x), vec), vec, g)
        ck.ob(f"group:{f}", m is None, f"not all the instruments given, in their order: {m}", p)
    res = project(v, ("f", "calculation_results"))
    cs = [c for c in r.loops if res in c.init]
    if not ck.ob("group:results", len(cs) == 1 and cs[0].src is vec and cs[0].init[res] is F(me, "calculation_results"), "not every instrument gets a result of its own", p):
        return
    c = cs[0]
    row = ins_of(c.next[res])
    if not ck.ob("group:own result", row is not None and row[0] is res and b_valid(b_and(b_not(c.backguard), c.hguard)) is not None, "more than one result is entered for an instrument", p):
        return
    ck.ob("group:code", bare(row[1]) is D(n("get_code", inst)), f"a result is filed under {show(bare(row[1]))[:200]}", p)
    val = bare(row[2])
    info = V(project(val, ("f", "instrument_info")), 1)
    want = {"name": D(n("get_name", inst)), "code": D(n("get_code", inst)), "instrument_type": D(n("get_type_name", inst)), "currency": D(n("get_currency", inst)),
            "unit_notional": n("get_unit_notional", inst)}
    for f, w in want.items():
        m = differ(project(info, ("f", f)), w)
        ck.ob(f"group:{f}", m is None, f"a result carries another {f}: {m}", p)
    m = differ(project(info, ("f", "maturity")), mk_ite([(SOME(mat), some(D(V(mat, 1)))), (b_not(SOME(mat)), NONE)]))
    ck.ob("group:maturity", m is None, f"a result carries another maturity: {m}", p)
    m = differ(project(val, ("f", "evaluation_date")), some(dt))
    ck.ob("group:date", m is None, f"a result carries another date: {m}", p)
    for f in [x[0] for x in q.adt(PE + "calculation_result::CalculationResult")["variants"][0]["fields"]]:
        if f in ("instrument_info", "evaluation_date", "representation_currency"):
            continue
        ck.ob(f"group:unset:{f}", project(val, ("f", f)) is NONE, "a result starts with a figure", p)
