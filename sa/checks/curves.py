"""Zero curves and the volatility surface: cached tables, bumps and look-ups."""
from spec import *
import models
from checks.market import frame, fields_of

S = arg("self")
Z = "parameters::zero_curve::ZeroCurve::"
ZT = "parameters::zero_curve::ZeroCurve"
LIN = ("LinearInterpolator1D::new", "vectorized_interpolate_for_sorted_ndarray")
TD = "time::calendar_trait::CalendarTrait::get_time_difference"
PER = ("::get_time_difference", "string_arithmetic::add_period")
FLAT, NOEX = 1, 0


def factor(ck, key, rates, times, factors, src, care):
    """discount factors are exp(-rate * time), element by element"""
    want = tab(src, mk_exp(mul(num(-1), mul(el(rates, src), el(times, src)))))
    m = differ(factors, want, care)
    ck.ob(key, m is None, f"the cached discount factors are not exp(-rate * time): {m}")


def mk_exp(x):
    return lift(models.exp_, x)


def linear(ck, key, v, xs, ys, kind, allow, care):
    """v is the linear interpolator over xs, ys"""
    n = 0
    for g, x in cases(v):
        g = b_valid(b_and(g, care))
        if g == FALSE:
            continue
        n += 1
        if x.op != "call" or not x.a[0].endswith("LinearInterpolator1D::new"):
            ck.fail(key, f"not a linear interpolator: {str(show(x))[:200]}")
            continue
        a = x.a[1:]
        for nm, u, w in (("abscissae", a[0], xs), ("ordinates", a[1], ys)):
            m = differ(u, w, g)
            ck.ob(f"{key}:{nm}", m is None, f"the {nm} interpolated are not the stored ones: {m}")
        ok_ = all(y.op == "agg" and y.a[1] == kind for h, y in cases(a[2]) if b_and(g, h) != FALSE)
        ck.ob(f"{key}:extrapolation", ok_, "another way of extrapolating")
        m = differ(a[3], bool_t(TRUE if allow else FALSE), g)
        ck.ob(f"{key}:allowed", m is None, "extrapolation is " + ("refused" if allow else "allowed"))
    ck.ob(key + ":any", n > 0, "no interpolator is stored")


def Q19(ck, q, t, meta):
    """ZeroCurve: `new` and `bump_time_interval` (all successful paths, normal forms): discount factor table = exp(-rate*time)
    element by element over one table of times, the discount interpolator is built from exactly those tables without
    extrapolation; `new`: time_i = time from the evaluation date to evaluation date + tenor_i, first tenor 0D, rates read from
    the given curve (flat outside it); bump: rate_i + bump iff t1 < time_i <= t2 (None = unbounded), times unchanged, rate
    interpolator rebuilt from the bumped table; `bump_date_interval` delegates with both dates turned into times from the
    evaluation date.  Reading: factor at a date = interpolated factor at its time, an error before the evaluation date; between
    two times = later over earlier, an error when reversed; forward rate = -ln(ratio)/tau or (1-ratio)/tau over one and the same tau."""
    # ---- construction
    p = Z + "new"
    ck.fn(p)
    r = run(q, p, LIN, PER)
    g, v = ok_part(r)
    if v is None:
        ck.fail("new", "construction never succeeds")
    else:
        data = D(arg("data"))
        ev = F(cell(arg("evaluation_date")), "date")
        times = F(v, "discount_times")
        tn = [x for _, x in cases(times) if x.op == "tab" and x.a[0].op == "agg"]
        if ck.ob("new:tenors", len(tn) == 1 and len(list(cases(times))) == 1, f"the times are not computed from a table of tenors: {str(show(times))[:200]}"):
            src = tn[0].a[0]
            names = [str_of(x) for _, x in src.a[2]]
            ck.ob("new:today", names[0] == "0D", "the first tenor is not the evaluation date itself")
            ck.count("tenors", len(names))
            want = tab(src, call(TD, F(v, "time_calculator"), ev, call("utils::string_arithmetic::add_period", ev, D(el(src, src)))))
            m = differ(times, want, g)
            ck.ob("new:times", m is None, f"the times are not those of the tenors from the evaluation date: {m}")
            rates = F(v, "interpolated_rates")
            gr = FALSE
            for h, x in cases(rates):
                h = b_and(h, g)
                if h == FALSE:
                    continue
                gr = b_or(gr, h)
                ok_ = x.op == "call" and x.a[0].endswith("vectorized_interpolate_for_sorted_ndarray")
                if not ck.ob("new:rates", ok_, f"the rates are not read from the given curve: {str(show(x))[:200]}"):
                    continue
                m = differ(x.a[2], times, h)
                ck.ob("new:rates:at", m is None, f"rates are read at other times: {m}")
                one = eq(length(F(data, "value")), num(1))
                for k, y in cases(x.a[1]):
                    k = b_valid(b_and(k, h))
                    if k == FALSE:
                        continue
                    if y.op == "agg":
                        m = differ(F(y, "value"), project(F(data, "value"), ("idx", num(0))), b_and(k, one))
                        ck.ob("new:rates:flat", m is None, f"a one-point curve is not flat at its rate: {m}")
                        ck.ob("new:rates:flat-when", never(b_and(k, b_not(one))), "a curve of several points is taken as flat")
                    else:
                        linear(ck, "new:rates:curve", y, F(data, "times"), F(data, "value"), FLAT, True, k)
                        linear(ck, "new:rate_interpolator", V(F(v, "rate_interpolator"), 1), F(data, "times"), F(data, "value"), FLAT, True, k)
                arrs = [src, x]
                canon = lambda z: samelen(z, arrs)
                factor(ck, "new:factors", x, times, canon(F(v, "discount_factors")), src, h)
                fx = canon(F(v, "discount_factors"))
                linear(ck, "new:discount", canon(F(v, "discount_interpolator")), canon(times), fx, NOEX, False, h)
            ck.ob("new:rates:covered", never(b_and(g, b_not(gr))), "no rates are stored")
    # ---- bump of an interval of times
    p = Z + "bump_time_interval"
    ck.fn(p)
    r = run(q, p, LIN, PER)
    g, _ = ok_part(r)
    slf = D(S)
    times, rates = F(slf, "discount_times"), F(slf, "interpolated_rates")
    SL = [times, rates, F(slf, "discount_factors")]
    mine = lambda x: x.op == "prj" and x.a[0] is times or x.op == "prj" and x.a[0].op == "prj" and x.a[0].a[0] in (arg("time1"), arg("time2"))

    def canon(x):
        return bounded(samelen(x, SL), mine, -10**7, 10**7)
    gg = b_of(canon(bool_t(g)))
    t1, t2 = arg("time1"), arg("time2")
    ti = el(times, times)
    inside = b_and(b_or(b_not(SOME(t1)), cmp("Lt", V(t1, 1), ti)), b_or(b_not(SOME(t2)), cmp("Le", ti, V(t2, 1))))
    body = add(el(rates, times), mk_ite([(inside, arg("bump_val")), (b_not(inside), ZERO)]))
    new_r = tab(times, body)
    got = canon(final(r, S, "interpolated_rates"))
    m = differ(got, new_r, gg)
    ck.ob("bump:rates", m is None, f"the rates of the interval are not the ones bumped: {m}")
    fac = canon(final(r, S, "discount_factors"))
    factor(ck, "bump:factors", new_r, times, fac, times, gg)
    linear(ck, "bump:discount", canon(final(r, S, "discount_interpolator")), times, tab(times, mk_exp(mul(num(-1), mul(body, ti)))), NOEX, False, gg)
    one = eq(length(times), num(1))
    ri = canon(final(r, S, "rate_interpolator"))
    n = 0
    for h, x in cases(ri):
        h = b_valid(b_and(h, gg))
        if h == FALSE:
            continue
        n += 1
        if x.op == "agg" and x.a[1] == 0:
            ck.ob("bump:rate-interpolator:flat", never(b_and(h, b_not(one))), "a curve of several points is taken as flat")
        else:
            linear(ck, "bump:rate-interpolator", V(x, 1) if x.op == "agg" else x, times, new_r, FLAT, True, h)
    ck.ob("bump:rate-interpolator:any", n > 0, "the rate interpolator is not rebuilt")
    ordered = b_or(b_or(b_not(SOME(t1)), b_not(SOME(t2))), cmp("Le", V(t1, 1), V(t2, 1)))
    same = eq(length(times), length(rates))
    gk = b_of(bounded(bool_t(g), mine, -10**7, 10**7))
    miss = b_valid(b_and(b_and(ordered, same), b_not(gk)))
    ck.ob("bump:answers", miss == FALSE, "a valid bump is refused: " + b_show(miss)[:200])
    frame(ck, "bump", r, fields_of(q, ZT), None, ("interpolated_rates", "discount_factors", "discount_interpolator", "rate_interpolator"))
    # ---- bump of an interval of dates
    p = Z + "bump_date_interval"
    ck.fn(p)
    r = run(q, p, ("bump_time_interval",), PER)
    es = [e for e in r.events if e.kind == "call" and e.name.endswith("bump_time_interval")]
    if ck.ob("dates:delegates", len(es) == 1 and b_empty(b_valid(b_and(r.g, b_not(es[0].guard)))), "bumping between dates does not bump the interval of times exactly once"):
        e = es[0]
        big = lambda x: False
        ev = F(cell(F(slf, "evaluation_date")), "date")
        tc = F(slf, "time_calculator")
        for i, d in ((1, "date1"), (2, "date2")):
            d = arg(d)
            some_ = b_and(e.guard, SOME(d))
            tm = call(TD, tc, ev, D(V(d, 1)))
            m = differ(e.args[i], some(tm), some_)
            ck.ob(f"dates:date{i}", m is None, f"the interval of times is not that of the dates: {m}")
            none_ = b_and(e.guard, b_not(SOME(d)))
            for h, x in cases(e.args[i]):
                if b_valid(b_and(h, none_)) == FALSE:
                    continue
                if x.op == "agg" and x.a[1] == 0:
                    continue
                for k, y in cases(V(x, 1)):
                    if b_valid(b_and(b_and(k, h), none_)) == FALSE:
                        continue
                    wide = y.op == "num" and (y.a[0] <= -10**7 if i == 1 else y.a[0] >= 10**7)
                    ck.ob(f"dates:open{i}", wide, f"an open end is not unbounded: {str(show(y))[:100]}")
        m = differ(e.args[3], arg("bump_val"), e.guard)
        ck.ob("dates:size", m is None, f"another bump: {m}")
        m = differ(e.args[0], S, e.guard)
        ck.ob("dates:curve", m is None, "another curve is bumped")
    # ---- look-ups
    IPL = ("LinearInterpolator1D as math::interpolator::InterpolatorReal1D>::interpolate",)
    nm = ["::interpolate"]
    ip = lambda x: call(nm[0], F(slf, "discount_interpolator"), x)
    ev = F(cell(F(slf, "evaluation_date")), "date")
    tm = lambda d: call(TD, F(slf, "time_calculator"), ev, d)
    p = Z + "get_discount_factor_at_date"
    ck.fn(p)
    r = run(q, p, IPL, PER)
    td = tm(D(arg("date")))
    g, v = ok_part(r)
    returns(ck, "read:date", r, ip(td), must=cmp("Ge", td, ZERO))
    ck.ob("read:past", never(b_and(g, cmp("Lt", td, ZERO))), "a date before the evaluation date is discounted")
    p = Z + "get_discount_factor"
    ck.fn(p)
    returns(ck, "read:time", run(q, p, IPL, PER), ip(arg("time")), must=TRUE)
    p = Z + "get_discount_factor_between_times"
    ck.fn(p)
    r = run(q, p, IPL, PER)
    t1, t2 = arg("t1"), arg("t2")
    returns(ck, "read:between", r, div(ip(t2), ip(t1)), must=cmp("Le", t1, t2))
    g, v = ok_part(r)
    ck.ob("read:between:order", never(b_and(g, cmp("Gt", t1, t2))), "a reversed interval gets a discount factor")
    p = Z + "get_forward_rate_between_times"
    ck.fn(p)
    r = run(q, p, IPL, PER)
    g, v = ok_part(r)
    ck.ob("forward:order", never(b_and(g, cmp("Gt", t1, t2))), "a reversed interval gets a forward rate")
    ck.ob("forward:answers", never(b_and(cmp("Le", t1, t2), b_not(g))), "a forward rate is refused")
    cmpd = arg("compounding")
    n = 0
    for h, x in (cases(v) if v is not None else ()):
        h = b_valid(b_and(h, g))
        if h == FALSE:
            continue
        ends = sorted({y.a[2] for y in walk(x) if y.op == "call" and y.a[0] == nm[0]}, key=str)
        ends = [y for y in ends if y is not t1]
        if not ck.ob("forward:ends", len(ends) == 1, f"the forward rate is not read off two factors: {len(ends)}"):
            continue
        e2 = ends[0]
        n += 1
        wide = cmp("Gt", sub(t2, t1), num(Fraction(1, 10**5)))
        m = differ(e2, t2, b_and(h, wide), (abs_facts,))
        ck.ob("forward:end", m is None, f"the interval of the rate ends elsewhere: {m}")
        tau = sub(e2, t1)
        ratio = div(ip(e2), ip(t1))
        for kind, k in (("simple", 0), ("continuous", 1)):
            want = div(sub(num(1), ratio), tau) if kind == "simple" else div(mul(num(-1), lift(models.ln_, ratio)), tau)
            m = differ(x, want, b_and(h, is_v(cmpd, k)))
            ck.ob("forward:" + kind, m is None, f"the {kind} forward rate is not that of the two factors over the time between them: {m}")
        thin = b_valid(b_and(h, eq(t1, t2)))
        if thin != FALSE:
            ck.ob("forward:finite", never(b_and(thin, eq(e2, t1))), "a forward rate over no time at all is divided by zero")
    ck.ob("forward:any", n > 0, "no forward rate is returned")
    FW = ("get_forward_rate_between_times",)
    p = Z + "get_forward_rate_between_dates"
    ck.fn(p)
    r = run(q, p, FW, PER)
    g, v = ok_part(r)
    d1, d2 = D(arg("date1")), D(arg("date2"))
    w = call(Z + "get_forward_rate_between_times", slf, tm(d1), tm(d2), cmpd)
    returns(ck, "forward:dates", r, w, must=cmp("Le", d1, d2))
    ck.ob("forward:dates:order", never(b_and(g, cmp("Gt", d1, d2))), "reversed dates get a forward rate")
    p = Z + "get_forward_rate_from_evaluation_date"
    ck.fn(p)
    r = run(q, p, FW, PER)
    dd = D(arg("date"))
    returns(ck, "forward:from-today", r, call(Z + "get_forward_rate_between_times", slf, tm(ev), tm(dd), cmpd), must=cmp("Ge", dd, ev))


def str_of(x):
    for y in walk(x):
        if y.op == "str":
            return y.a[0]
    return None


# ------------------------------------------------------------ volatility
LV = "parameters::volatilities::local_volatility_surface::LocalVolatilitySurface"
CV = "parameters::volatilities::constant_volatility::ConstantVolatility"
VT = " as parameters::volatility::VolatilityTrait>::"
BIL = "math::interpolators::bilinear_interpolator::BilinearInterpolator::"
LVT = ("LinearInterpolator1D::new", "BilinearInterpolator::new", "BilinearInterpolator::new_from_rectangle_data",
       "BilinearInterpolator::interpolate", "get_discount_factor_at_date", "get_dividend_deduction_ratio")


def forward(q, slf, spot, d):
    """forward of the surface's underlying at date d"""
    df = Z + "get_discount_factor_at_date"
    mp = cell(F(slf, "market_price"))
    ratio = call("parameters::market_price::MarketPrice::get_dividend_deduction_ratio", mp, d)
    return mul(div(mul(spot, call(df, cell(F(slf, "borrowing_curve")), d)), call(df, cell(F(slf, "collateral_curve")), d)), ratio)


def grid_store(ck, key, r, field, rows, cols, guard, val, canon, fin=None):
    """exactly one store per grid node, under `guard`, of `val(old)`"""
    es = [e for e in r.events if e.kind in ("store", "lstore") and e.args[0].op == "ref" and e.args[0].a[1][:1] == (("f", field),) and len(e.args[0].a[1]) == 2]
    if not ck.ob(key + ":writes", len(es) == 1, f"{len(es)} places write nodes of the table where one is expected"):
        return
    e = es[0]
    whole = [x for x in r.events if x.kind == "store" and x.args[0].op == "ref" and x.args[0].a[1] == (("f", field),)]
    ck.ob(key + ":whole", not whole, "the whole table is replaced as well")
    if fin is not None:
        ck.ob(key + ":kept", all(x.op == "mu" for _, x in cases(fin)), "the table is changed again afterwards")
    ix = e.args[0].a[1][1][1]
    want = (mk("ix", rows, 0), mk("ix", cols, 0))
    got = tuple(v for _, v in ix.a[2]) if ix.op == "agg" else (ix,)
    ck.ob(key + ":node", got == want, f"another node is written: {str(show(ix))[:200]}")
    more = b_and(lit(mk("more", rows, 0)), lit(mk("more", cols, 0)))
    g = b_of(canon(bool_t(e.guard)))
    w = b_and(more, b_and(guard, b_of(canon(bool_t(r.g)))))
    ck.ob(key + ":which", never(b_and(g, b_not(w))), "a node outside the interval is written: " + b_show(b_valid(b_and(g, b_not(w))))[:300])
    ck.ob(key + ":all", never(b_and(w, b_not(g))), "a node of the interval is left out: " + b_show(b_valid(b_and(w, b_not(g))))[:300])
    for c in e.loops:
        stay = [x for _, x in c.exits if c.src is None or not never(b_and(b_of(canon(bool_t(x))), lit(mk("more", c.src, 0))))]
        ck.ob(key + ":every", not stay, "the table is left before every node was looked at, when " + (b_show(stay[0])[:300] if stay else ""))
    m = differ(e.args[1], val(e.args[2]), e.guard)
    ck.ob(key + ":value", m is None, f"a node gets another value: {m}")
    # what reads as the old value of the node is the node itself
    other = [x for x in walk(e.args[1]) if x.op == "prj" and x.a[0].op == "mu" and x is not e.args[2]]
    ck.ob(key + ":old", not other, "a node depends on another node")


def Q24(ck, q, t, meta):
    """LocalVolatilitySurface: `bump_volatility` writes each node (i, j) of the stored table at most once, adding the bump
    iff t1 + 1e-4 < t_i <= t2 + 1e-4 and the same for moneyness j (None = unbounded), then rebuilds; `build` stores, for the
    table of maturities, the linear interpolators of row i over moneyness * surface spot / forward_i (flat outside), forward_i =
    spot * borrowing / collateral factor * dividend ratio at maturity i, spot being the surface's own or the market's according
    to the stickiness; `with_market_surface` refuses unsorted or past maturities and reads node (i, j) off the quoted surface at
    (tenor i, moneyness j); `with_constant_volatility` fills the table with the constant.  Both volatilities: variance = v^2 t,
    deviation = v sqrt(t); the enum forwards every call to its variant."""
    slf = D(S)
    # ---- bump
    p = f"<{LV}{VT}bump_volatility"
    ck.fn(p)
    r = run(q, p, ("LocalVolatilitySurface::build",), ())
    ts, xs = F(slf, "imvol_maturity_times"), F(slf, "imvol_spot_moneyness")
    names = ("time1", "time2", "left_spot_moneyness", "right_spot_moneyness")
    opts = [arg(n) for n in names]
    mine = lambda x: x.op == "prj" and (x.a[0] in (ts, xs) or x.a[0].op == "prj" and x.a[0].a[0] in opts)
    canon = lambda x: bounded(x, mine, -10**7, 10**7)
    eps = num(Fraction(1, 10**4))

    def within(v, lo, hi):
        return b_and(b_or(b_not(SOME(lo)), cmp("Lt", add(V(lo, 1), eps), v)), b_or(b_not(SOME(hi)), cmp("Le", v, add(V(hi, 1), eps))))
    w = b_and(within(el(ts, ts), opts[0], opts[1]), within(el(xs, xs), opts[2], opts[3]))
    grid_store(ck, "bump", r, "interpolated_imvol", ts, xs, w, lambda old: add(old, arg("bump")), canon)
    es = [e for e in r.events if e.kind == "call" and e.name.endswith("::build")]
    st = [e for e in r.events if e.kind == "store" and e.args[0].op == "ref" and e.args[0].a[0] is mk("obj", S)]
    ck.ob("bump:rebuild", len(es) == 1 and never(b_and(r.g, b_not(es[0].guard))) and all(e.seq < es[0].seq for e in st) and not es[0].loops,
          "the quoted surface is not rebuilt once after the bump")
    ck.ob("bump:only", all(e.args[0].a[1][:1] == (("f", "interpolated_imvol"),) for e in st), "more than the table of nodes is changed")
    # ---- build
    p = LV + "::build"
    ck.fn(p)
    r = run(q, p, LVT, ())
    g, _ = ok_part(r)
    ck.ob("build:answers", never(b_not(g)), "the surface cannot always be built")
    ds, ts = F(slf, "imvol_maturity_dates"), F(slf, "imvol_maturity_times")
    SL = [ds, ts]
    canon = lambda x: samelen(x, SL)
    v = canon(final(r, S, "forward_monenyess_imvol"))
    n = 0
    for h, x in cases(v):
        h = b_valid(b_and(h, g))
        if h == FALSE:
            continue
        if not ck.ob("build:kind", x.op == "call" and x.a[0].endswith("BilinearInterpolator::new"), f"the quoted surface is not a fresh interpolator: {str(show(x))[:200]}"):
            continue
        n += 1
        a = x.a[1:]
        m = differ(a[0], ts, h)
        ck.ob("build:maturities", m is None, f"{m}")
        ck.ob("build:extrapolation", a[2] is BT and a[3].op == "agg" and a[3].a[1] == FLAT, "the surface is not flat outside its maturities")
        spot = lambda y: y
        d = mk("ref", mk("const", el(ds, ds)), ())
        dd = el(ds, ds)
        own = F(slf, "imvol_spot")
        mkt = F(cell(F(slf, "market_price")), "value")
        stk = is_v(F(slf, "stickyness_type"), 0)
        fwd = lambda s_: forward(q, slf, s_, dd)
        mon = lambda s_: tab(xs, div(mul(el(xs, xs), own), fwd(s_)))
        for sg, s_ in ((stk, own), (b_not(stk), mkt)):
            hh = b_valid(b_and(h, sg))
            if hh == FALSE:
                continue
            for k, y in cases(a[1]):
                k = b_valid(b_and(k, hh))
                if k == FALSE:
                    continue
                if not ck.ob("build:rows", y.op == "tab" and y.a[0] is ds and y.a[1].op == "call" and y.a[1].a[0].endswith("LinearInterpolator1D::new"),
                             f"there is not one row per maturity: {str(show(y))[:200]}"):
                    continue
                row = subst_ix(y.a[1], pos(ds), mk("ix", ds, 0))
                ra = row.a[1:]
                m = differ(ra[0], mon(s_), k)
                ck.ob("build:moneyness", m is None, f"a row is not quoted in forward moneyness: {m}")
                m = differ(ra[1], mk(ra[1].op, *ra[1].a[:-2], F(slf, "interpolated_imvol"), mk("ix", ds, 0)), k)
                ck.ob("build:volatility", m is None, f"a row holds other volatilities: {m}")
                ck.ob("build:row-extrapolation", ra[2].op == "agg" and ra[2].a[1] == FLAT and ra[3] is BT, "a row is not flat outside its moneyness range")
    ck.ob("build:any", n > 0, "no surface is stored")
    frame(ck, "build", r, fields_of(q, LV), None, ("forward_monenyess_imvol",))
    # ---- from market quotes
    p = LV + "::with_market_surface"
    ck.fn(p)
    r = run(q, p, LVT, PER)
    g, v = ok_part(r)
    sd = D(arg("market_implied_volatility_surface"))
    slf0 = arg("self")
    ev = F(cell(F(slf0, "evaluation_date")), "date")
    ten = arg("vega_structure_tenors")
    mny = arg("vega_matrix_spot_moneyness")
    AP = lambda x: call("utils::string_arithmetic::add_period", ev, x)
    dates_w = tab(ten, AP(el(ten, ten)))
    if v is None:
        ck.fail("market", "a market surface is never accepted")
    else:
        tmw = F(v, "imvol_maturity_times")
        tds = {x.a[1] for x in walk(tmw) if x.op == "call" and x.a[0] == TD}
        if ck.ob("market:times", len(tds) == 1, "the node times are not measured from the evaluation date"):
            tc = tds.pop()
            times_w = tab(ten, call(TD, tc, ev, AP(el(ten, ten))))
            m = differ(tmw, times_w, g)
            ck.ob("market:times", m is None, f"the node times are not those of the tenors: {m}")
            for f, w in (("imvol_maturity_dates", dates_w), ("imvol_spot_moneyness", mny), ("imvol_spot", V(F(sd, "spot"), 1))):
                m = differ(F(v, f), w, g)
                ck.ob("market:" + f, m is None, f"{f}: {m}")
            sp = V(F(sd, "spot"), 1)
            gd, gs, gv = F(sd, "dates"), F(sd, "strikes") if "strikes" in fields_of(q, "data::surface_data::SurfaceData") else F(sd, "strike"), F(sd, "value")
            quoted = call(BIL + "new_from_rectangle_data", tab(gd, call(TD, tc, ev, el(gd, gd))), tab(gs, div(el(gs, gs), sp)), gv, BT, None, BT, None)
            es = [e for e in r.events if e.kind == "call" and e.name.endswith("new_from_rectangle_data")]
            ie = [e for e in r.events if e.kind == "call" and e.name.endswith("BilinearInterpolator::interpolate")]
            if ck.ob("market:surface", len(es) == 1 and len(ie) == 1, "the quotes are not interpolated once"):
                a = es[0].args
                for i, nm in ((0, "maturities"), (1, "moneyness"), (2, "quotes")):
                    m = differ(a[i], quoted.a[1 + i], es[0].guard)
                    ck.ob("market:" + nm, m is None, f"{m}")
                ck.ob("market:flat", all(a[i] is BT and a[i + 1].op == "agg" and a[i + 1].a[1] == FLAT for i in (3, 5)), "the quotes are not flat outside their range")
                res = [V(x, 0) if x.op == "agg" and x.a[0] == RESULT else x for _, x in cases(ie[0].res)][0]
                src_res = [V(x, 0) if x.op == "agg" and x.a[0] == RESULT else x for _, x in cases(es[0].res)][0]
                m = differ(res.a[1], src_res)
                ck.ob("market:read-from", m is None, "the nodes are read off another surface")
                m1, m2 = differ(res.a[2], el(times_w, ten)), differ(res.a[3], el(mny, mny))
                ck.ob("market:read-at", m1 is None and m2 is None, f"a node is read at another point: {m1 or m2}")
                grid_store(ck, "market:nodes", r, "interpolated_imvol", ten, mny, g, lambda old: res, lambda x: x, F(v, "interpolated_imvol"))
        early = lit(mk("exists", gd, bool_t(cmp("Lt", el(gd, gd), ev)))) if v is not None else FALSE
        ck.ob("market:past", never(b_and(g, early)), "a maturity before the evaluation date is accepted")
    # ---- a constant
    p = LV + "::with_constant_volatility"
    ck.fn(p)
    r = run(q, p, LVT, PER)
    g, v = ok_part(r)
    if v is None or not ck.ob("constant:answers", never(b_not(g)), "a constant volatility is refused"):
        ck.fail("constant", "a constant volatility is never accepted")
    else:
        for f, w in (("imvol_maturity_dates", dates_w), ("imvol_spot_moneyness", mny), ("imvol_spot", F(cell(F(slf0, "market_price")), "value"))):
            m = differ(F(v, f), w, g)
            ck.ob("constant:" + f, m is None, f"{f}: {m}")
        iv = F(v, "interpolated_imvol")
        ck.ob("constant:nodes", iv.op == "call" and iv.a[0].endswith("from_elem") and differ(iv.a[2], F(D(arg("constant_volatility")), "value")) is None
              or iv.op == "repeat" and differ(iv.a[0], F(D(arg("constant_volatility")), "value")) is None, f"the nodes are not the constant: {str(show(iv))[:200]}")
    # ---- variance and deviation
    tt, xx = arg("t"), arg("forward_moneyness")
    for ty, vol in ((LV, lambda m: call(BIL + "interpolate", F(slf, "forward_monenyess_imvol"), m[0], m[1])), (CV, lambda m: F(slf, "value"))):
        for fn in ("total_variance", "total_deviation", "get_value", "get_local_volatility"):
            p = f"<{ty}{VT}{fn}"
            if not any(b["path"] == p for b in q.bodies.values()):
                continue
            ck.fn(p)
            ps = [arg(n) for n in args_of(q.fn(p))]
            r = run(q, p, LVT, (), args=ps)
            iv = vol(ps[1:3])
            key = f"{ty.split('::')[-1]}:{fn}"
            if fn == "get_local_volatility":
                ck.ob(key, r.g == FALSE or never(r.g), "a local volatility is claimed")
                continue
            w = {"total_variance": mul(mul(iv, iv), ps[1]), "total_deviation": mul(iv, lift(lambda z: mk("call", "sqrt", z), ps[1])), "get_value": iv}[fn]
            returns(ck, key, r, w, result=fn != "get_value", must=TRUE)
    p = f"<{CV}{VT}bump_volatility"
    ck.fn(p)
    r = run(q, p, (), ())
    m = differ(final(r, S, "value"), add(F(slf, "value"), arg("bump")), r.g)
    ck.ob("constant:bump", m is None, f"{m}")
    # ---- dispatch
    E = "parameters::volatility::Volatility::"
    for fn in ("get_value", "total_variance", "total_deviation", "bump_volatility", "build"):
        ck.fn(E + fn)
        b = q.fn(E + fn)
        ps = [arg(n) for n in args_of(b)]
        for i, ty in enumerate((CV, LV)):
            targ = ("::" + fn,)
            r = run(q, E + fn, targ, (), args=ps)
            on = is_v(slf, i)
            es = [e for e in r.events if e.kind == "call" and e.name.endswith("::" + fn) and not never(b_and(e.guard, on))]
            if fn == "build" and i == 0:
                ck.ob("dispatch:build:constant", not es, "building a constant volatility does something")
                continue
            if not ck.ob(f"dispatch:{fn}:{i}", len(es) == 1, f"{len(es)} calls answer {fn}"):
                continue
            e = es[0]
            ck.ob(f"dispatch:{fn}:{i}:always", never(b_and(b_and(on, r.g), b_not(e.guard))), f"{fn} is not always passed on")
            ms = [differ(x, y, e.guard) for x, y in zip(e.args[1:], ps[1:])]
            ck.ob(f"dispatch:{fn}:{i}:args", all(x is None for x in ms), f"{fn} is passed on with other arguments")
            ck.ob(f"dispatch:{fn}:{i}:who", e.args[0].op == "ref" and e.args[0].a[1][:1] == (("v", i),), f"{fn} is passed on to {str(show(e.args[0]))[:100]}")


def args_of(b):
    return ["self"] + [f"a{i}" for i in range(1, b["args"])]
