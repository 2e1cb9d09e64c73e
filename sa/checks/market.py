"""Market parameters: dividends, prices that roll with the date, curves."""
from spec import *

S = arg("self")
DIV = "parameters::discrete_ratio_dividend::DiscreteRatioDividend::"
STEP = ("StepwiseInterpolator1D::<T>::new",)
YMD = ("util::to_yyyymmdd_int",)


def ymd(d):
    return call("util::to_yyyymmdd_int", d)


def is_ymd(x):
    return x.op == "call" and x.a[0] == "util::to_yyyymmdd_int"


def interp_cases(v):
    """[(guard, kind, arguments)] of a deduction interpolator value"""
    for g, x in cases(v):
        if x.op == "agg" and x.a[0].endswith("DividendInterpolator"):
            for h, y in cases(x.a[2][0][1]):
                yield b_and(g, h), y
        else:
            yield g, x


def deduction(ck, key, got, care, dates, ints, yields, eval_dt):
    """the stored deduction covers exactly the dividends after eval_dt, with cumulative products"""
    src = dates
    ix0 = mk("ix", src, 0)
    keep = cmp("Gt", el(dates, src), eval_dt)
    ex = lit(mk("exists", src, bool_t(keep)))
    y = sub(ONE, el(yields, src))
    body = mk_ite([(keep, y), (b_not(keep), ONE)])
    ratio = mul(mk("before", "prod", src, body, ix0), y)
    want_dom = seqof(src, keep, el(ints, src))
    want_val = seqof(src, keep, ratio)
    want_last = prod(src, keep, y)
    n = 0
    for g, x in interp_cases(got):
        g = b_valid(b_and(g, care))
        if g == FALSE:
            continue
        n += 1
        if x.op == "agg" and "Constant" in x.a[0]:
            ck.ob(key + ":none-left", b_valid(b_and(g, ex)) == FALSE, "the deduction is constant although a dividend is still ahead")
            m = differ(project(x, ("f", "value")), ONE)
            ck.ob(key + ":constant", m is None, f"without dividends ahead the deduction is not 1: {m}")
            continue
        if x.op != "call" or "StepwiseInterpolator1D" not in x.a[0]:
            ck.fail(key, f"the deduction is not built from the dividends: {str(show(x))[:200]}")
            continue
        a = x.a[1:]
        for name, u, w in (("dates", a[0], want_dom), ("ratios", a[1], want_val)):
            m = differ(u, w, g)
            ck.ob(f"{key}:{name}", m is None, f"the {name} of the deduction are not those of the dividends ahead: {m}")
        ck.ob(key + ":extrapolates", a[2] is BT, "dates outside the dividend dates are refused")
        m = differ(a[3], some(ONE), g)
        ck.ob(key + ":before-first", m is None, f"before the first dividend the deduction is not 1: {m}")
        last = differ(a[4], some(want_last), g)
        if last is not None:
            last = None if differ(a[4], NONE, g) is None else last
        ck.ob(key + ":after-last", last is None, f"after the last dividend the deduction is not the whole product: {last}")
    ck.ob(key + ":any", n > 0, "no deduction is stored")


def frame(ck, key, r, fields, ty, allowed):
    g, _ = ok_part(r)
    for f in fields:
        if f not in allowed:
            m = differ(final(r, S, f), project(D(S), ("f", f)), g)
            ck.ob(f"{key}:keeps-{f}", m is None, f"{f} is changed: {m}")


def fields_of(t, ty):
    a = t.adt(ty)
    return [f[0] for f in a["variants"][0]["fields"]]


def Q20(ck, q, t, meta):
    """DiscreteRatioDividend: in `new`, `bump_date_interval` and `update_evaluation_date` the interpolator stored on every
    successful path is compared, as a normal form, with: dates {integer(d_i) : d_i > evaluation date}, values the running
    product of (1 - yield_i) over exactly those i, 1 before the first, the whole product after the last, and the constant 1
    when no dividend is left; yields = amounts / spot; a bump adds its amount to the dividends with date1 < d <= date2 only.
    MarketPrice::update_evaluation_date: the value is multiplied by the product of (1 - ratio) over market time < d <= new date,
    divided by that product over new date < d <= market time, and the market time becomes the new date.  EvaluationDate:
    set_date, += and -= store the new date before any observer runs, then update every registered price and every registered dividend with it."""
    # ---- construction
    p = DIV + "new"
    ck.fn(p)
    r = run(q, p, STEP, YMD)
    g, v = ok_part(r)
    data = D(arg("data"))
    dates = V(F(data, "dates"), 1)
    amounts = F(data, "value")
    spot = arg("spot")
    SL = [dates, amounts]
    ev = F(cell(arg("evaluation_date")), "date")

    def canon(x):
        return samelen(x, SL)
    if v is None:
        ck.fail("new", "construction never succeeds")
    else:
        yields = canon(tab(amounts, div(el(amounts, amounts), spot)))
        ints = canon(tab(dates, ymd(mk("ref", mk("const", el(dates, dates)), ()))))
        ints = tab(dates, ymd(el(dates, dates)))
        gv = canon(v)
        gg = b_of(canon(bool_t(g)))
        for f, w in (("evaluation_date", arg("evaluation_date")), ("ex_dividend_dates", dates), ("dividend_amounts", amounts),
                     ("dividend_yields", yields), ("date_integers", ints), ("spot", spot)):
            m = differ(F(gv, f), w, gg)
            ck.ob("new:" + f, m is None, f"{f}: {m}")
        deduction(ck, "new:deduction", F(gv, "deduction_interpolator"), gg, dates, ints, yields, ev)
    # ---- bump
    p = DIV + "bump_date_interval"
    ck.fn(p)
    r = run(q, p, STEP, YMD)
    g, v = ok_part(r)
    slf = D(S)
    dates, ints, amounts, yields = (F(slf, f) for f in ("ex_dividend_dates", "date_integers", "dividend_amounts", "dividend_yields"))
    SL = [dates, ints, amounts, yields]
    isint = lambda x: x.op == "prj" and x.a[0] is ints or is_ymd(x)

    def canon(x):
        return bounded(samelen(x, SL), isint, -99991231, 99991231)
    gg = b_of(canon(bool_t(g)))
    d1, d2 = arg("date1"), arg("date2")
    di = el(ints, dates)
    lo = b_or(b_not(SOME(d1)), cmp("Lt", ymd(D(V(d1, 1))), di))
    hi = b_or(b_not(SOME(d2)), cmp("Le", di, ymd(D(V(d2, 1)))))
    inside = b_and(lo, hi)
    body = add(el(amounts, dates), mk_ite([(inside, arg("bump_val")), (b_not(inside), ZERO)]))
    new_a = tab(dates, body)
    new_y = tab(dates, lift(p_div, body, F(slf, "spot")))
    got_a, got_y, got_i = (canon(final(r, S, f)) for f in ("dividend_amounts", "dividend_yields", "deduction_interpolator"))
    m = differ(got_a, new_a, gg)
    ck.ob("bump:amounts", m is None, f"the dividends of the interval are not the ones bumped: {m}")
    m = differ(got_y, new_y, gg)
    ck.ob("bump:yields", m is None, f"the ratios are not the bumped amounts over the spot: {m}")
    deduction(ck, "bump:deduction", got_i, gg, dates, ints, new_y, F(cell(F(slf, "evaluation_date")), "date"))
    allf = fields_of(q, "parameters::discrete_ratio_dividend::DiscreteRatioDividend")
    frame(ck, "bump", r, allf, None, ("dividend_amounts", "dividend_yields", "deduction_interpolator"))
    # ---- date roll
    p = DIV + "update_evaluation_date"
    ck.fn(p)
    r = run(q, p, STEP, YMD)
    g, v = ok_part(r)
    gg = b_of(canon(bool_t(g)))
    deduction(ck, "roll:deduction", canon(final(r, S, "deduction_interpolator")), gg, dates, ints, yields, F(D(arg("date")), "date"))
    frame(ck, "roll", r, allf, None, ("deduction_interpolator",))
    # ---- reading it
    p = DIV + "get_deduction_ratio"
    ck.fn(p)
    r = run(q, p, ("::interpolate",), YMD)
    es = [e for e in r.events if e.kind == "call" and e.name.endswith("::interpolate")]
    ck.ob("ratio:calls", len(es) >= 1, "the deduction is never looked up")
    for e in es:
        m = differ(e.args[1], ymd(D(arg("date"))))
        ck.ob("ratio:date", m is None, f"another date is looked up: {m}")
    g, v = ok_part(r)
    rs = {V(x, 0) if x.op == "agg" and x.a[0] == RESULT else x for e in es for _, x in cases(e.res)}
    ck.ob("ratio:value", v is not None and all(x in rs for _, x in cases(v)), "the looked-up deduction is not what is returned")
    # ---- market price
    p = "parameters::market_price::MarketPrice::update_evaluation_date"
    ck.fn(p)
    r = run(q, p, (), ())
    g, _ = ok_part(r)
    slf = D(S)
    dv = cell(V(F(slf, "dividend"), 1))
    dates, ylds = F(dv, "ex_dividend_dates"), F(dv, "dividend_yields")
    SL = [dates, ylds]
    canon = lambda x: samelen(x, SL)
    gg = b_of(canon(bool_t(g)))
    mt, ev = F(slf, "market_datetime"), F(D(arg("date")), "date")
    has = SOME(F(slf, "dividend"))
    d = el(dates, dates)
    one_y = sub(ONE, el(ylds, dates))
    fwd = b_and(cmp("Gt", d, mt), cmp("Le", d, ev))
    bwd = b_and(cmp("Gt", d, ev), cmp("Le", d, mt))
    up = mul(F(slf, "value"), prod(dates, fwd, one_y))
    dn = mul(F(slf, "value"), prod(dates, bwd, div(ONE, one_y)))
    dn2 = div(F(slf, "value"), prod(dates, bwd, one_y))
    ahead = cmp("Lt", mt, ev)
    got = canon(final(r, S, "value"))
    for key, when, wants in (("price:forward", b_and(has, ahead), (up,)), ("price:backward", b_and(has, cmp("Lt", ev, mt)), (dn, dn2)),
                             ("price:no-dividend", b_not(has), (F(slf, "value"),))):
        ms = [differ(got, w, b_and(gg, when)) for w in wants]
        ck.ob(key, None in ms, f"{ms[0]}")
    m = differ(final(r, S, "market_datetime"), ev, b_and(gg, b_and(has, b_not(eq(mt, ev)))))
    ck.ob("price:datetime", m is None, f"the price is not marked as of the new date: {m}")
    ck.ob("price:answers", b_valid(b_and(has, b_not(gg))) == FALSE, "a roll can be refused")
    frame(ck, "price", r, fields_of(q, "parameters::market_price::MarketPrice"), None, ("value", "market_datetime"))
    # ---- moving the date
    movers(ck, q)


def movers(ck, q):
    E = "evaluation_date::EvaluationDate"
    UP = ("MarketPrice::update_evaluation_date", "DiscreteRatioDividend::update_evaluation_date")
    PER = ("string_arithmetic::add_period", "string_arithmetic::sub_period")
    cand = []
    fi = fields_of(q, E)
    for b in q.bodies.values():
        pth = b["path"]
        if not (pth.startswith("evaluation_date::EvaluationDate::") or pth.startswith(f"<{E} as ")):
            continue
        if b["kind"] != "fn" and b.get("kind") not in ("fn", "Fn", "AssocFn"):
            pass
        cand.append(b)
    for b in cand:
        try:
            r = run(q, b, UP, PER)
        except Exception:
            continue
        name = b["path"].split("::")[-1]
        sts = [e for e in r.events if e.kind == "store" and e.args[0].op == "ref" and e.args[0].a[0] is mk("obj", S)
               and e.args[0].a[1][:1] in ((("f", "date"),),)]
        if not sts or name.startswith(("deserialize", "visit", "notify")):
            continue
        ck.count("date movers")
        ck.fn(b["path"])
        key = "move:" + name
        final_date = final(r, S, "date")
        if name == "set_date":
            want = arg("date")
        else:
            want = call("utils::string_arithmetic::" + ("add_period" if name == "add_assign" else "sub_period"), F(D(S), "date"), D(arg("rhs")))
        m = differ(strip_refs(final_date), want, r.g)
        ck.ob(key + ":date", m is None, f"the date is set to something else: {m}")
        calls_ = [e for e in r.events if e.kind == "call" and e.name.endswith(UP)]
        for which, fld in ((UP[0], "marketprice_observers"), (UP[1], "dividend_observers")):
            lst = F(D(S), fld)
            es = [e for e in calls_ if e.name.endswith(which)]
            if not ck.ob(f"{key}:{fld}", len(es) == 1, f"{len(es)} places update the {fld} where one is expected"):
                continue
            e = es[0]
            more = lit(mk("more", lst, 0))
            miss = b_valid(b_and(b_and(b_not(e.guard), r.g), more))
            # every element, unconditionally
            ck.ob(f"{key}:{fld}:every", b_empty(b_valid(b_and(more, b_not(drop_loop(e.guard, r))))), "an observer can be passed over: " + b_show(b_not(e.guard))[:200])
            x = [V(y, 0) if y.op == "agg" and y.a[0] == RESULT else y for _, y in cases(e.res)][0]
            m = differ(e.args[0], obs_ref(lst), e.guard)
            ck.ob(f"{key}:{fld}:object", m is None, f"what is updated is not the registered object: {m}")
            m = differ(project(x.a[2], ("f", "date")), final_date, e.guard)
            ck.ob(f"{key}:{fld}:newdate", m is None, f"the observer is shown another date: {m}")
            ck.ob(f"{key}:{fld}:after-store", all(x.seq < e.seq for x in sts), "observers run before the date is stored")
    ck.floor("date movers", 3)


def strip_refs(x):
    return x


def drop_loop(g, r):
    return g


def obs_ref(lst):
    return mk("ref", mk("obj", project(lst, ("at", mk("ix", lst, 0)))), (("cell",),))
