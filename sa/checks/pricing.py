"""Pricers: values as normal forms over discount factors, cash flows and quotes."""
from spec import *
from fractions import Fraction
from models import ln_, exp_

ZC = "parameters::zero_curve::ZeroCurve::get_discount_factor_at_date"
TOTAL = ("ZeroCurve::get_discount_factor_at_date", "ZeroCurve::get_discount_factor", "::get_cashflows", "::get_pricing_date",
         "::get_fixed_cashflows", "::get_floating_cashflows", "DiscreteRatioDividend::get_deduction_ratio",
         "::get_fixed_leg_currency", "::get_floating_leg_currency", "::get_underlying_currency", "::get_strike",
         "::get_option_type", "Volatility::total_variance", "Volatility::total_deviation")
OPAQUE = ("::get_maturity", "::get_type_name", "::get_name", "::get_code", "::get_unit_notional", "::get_currency",
          "::get_average_trade_price", "::get_time_difference", "Volatility::get_value")


def pricer(t, ty, fn):
    for b in t.bodies.values():
        if b["path"].startswith("<pricing_engines::") and f"::{ty} as " in b["path"] and b["path"].endswith("PricerTrait>::" + fn):
            return b
    raise facts.MissingAnchor(f"{ty}::{fn}")


def go(ck, q, ty, fn, args=None):
    b = pricer(q, ty, fn)
    ck.fn(b["path"])
    return run(q, b, TOTAL, OPAQUE, args=args)


def df(curve, date):
    return lift(lambda c, d: call(ZC, c, d), curve, date)


def calls(r, suffix):
    return [e for e in r.events if e.kind == "call" and e.name.endswith(suffix)]


def one_call(ck, key, r, suffix, args):
    """the single primitive call `suffix`; its arguments are compared with `args`"""
    es = calls(r, suffix)
    res = {lift(lambda x: V(x, 0) if x.op == "agg" and x.a[0] == RESULT else x, e.res) if e.res is not None else None for e in es}
    if not es or len(res) != 1:
        ck.fail(key, f"{suffix} is used {len(es)} times where one use is expected")
        return None
    got = res.pop()
    for g, c in cases(got):
        for a, w in zip(c.a[1:], args):
            m = differ(a, w) if w is not None else None
            if not ck.ob(key, m is None, f"argument of {suffix}: {m}"):
                return None
    return got


S = arg("self")


def inst(n="instrument"):
    return D(arg(n))


def variant(q, name):
    a = q.adt("instrument::Instrument")
    return [v["name"] for v in a["variants"]].index(name)


def n_variants(q):
    return len(q.adt("instrument::Instrument")["variants"])


def unref(x):
    """value behind an Option<&T>"""
    return D(V(x, 1))


def maturity(ck, key, r):
    """the instrument's maturity as the function obtained it"""
    es = {e.res for e in calls(r, "::get_maturity")}
    ck.ob(key + ":maturity", len(es) == 1, "the instrument's maturity is not looked up")
    mo = es.pop() if es else mk("missing")
    return mo, unref(mo)


def only_npv(ck, key, r, v):
    """an NpvResult that carries just the value"""
    g, res = ok_part(r)
    if res is None:
        return ck.fail(key, "no value is returned")
    m = differ(F(res, "npv"), v, g)
    ck.ob(key, m is None, m or "")


def ratio_of(mp, mat):
    d = F(mp, "dividend")
    return ite((b_not(SOME(d)), ONE),
               (SOME(d), call("parameters::discrete_ratio_dividend::DiscreteRatioDividend::get_deduction_ratio", cell(V(d, 1)), mat)))


def Q07(ck, q, t, meta):
    """Equity futures: spot x borrowing discount factor / collateral discount
    factor x dividend deduction ratio, all at maturity.  FX futures: spot FX x
    underlying-currency discount factor / futures-currency discount factor.
    European option: Black's formula on that forward, N(d1), N(d2) with
    d1 = (ln(F/K) + TV/2 - quanto drift)/sqrt(TV), and a cross-currency option
    without quanto data is refused.  npv_result carries the same value as npv."""
    me = D(S)
    for fn in ("npv", "npv_result"):
        r = go(ck, q, "FuturesPricer", fn)
        is_f = is_v(inst(), variant(q, "Futures"), n_variants(q))
        mo, mat = maturity(ck, "FuturesPricer::" + fn, r)
        mp = cell(F(me, "market_price"))
        fwd = div(mul(F(mp, "value"), df(cell(F(me, "borrowing_curve")), mat), ratio_of(mp, mat)), df(cell(F(me, "collateral_curve")), mat))
        g, v = ok_part(r)
        ck.ob(f"FuturesPricer::{fn}:kind", b_empty(b_and(g, b_not(is_f))), "an instrument that is no futures gets a futures price")
        if fn == "npv":
            returns(ck, "FuturesPricer::npv", r, fwd, must=b_and(is_f, SOME(mo)))
        else:
            only_npv(ck, "FuturesPricer::npv_result", r, fwd)
    for fn in ("npv", "npv_result"):
        r = go(ck, q, "FxFuturesPricer", fn)
        mo, mat = maturity(ck, "FxFuturesPricer::" + fn, r)
        v = div(mul(F(cell(F(me, "fx")), "value"), df(cell(F(me, "underlying_currency_curve")), mat)),
                df(cell(F(me, "futures_currency_curve")), mat))
        if fn == "npv":
            returns(ck, "FxFuturesPricer::npv", r, v, must=SOME(mo))
        else:
            only_npv(ck, "FxFuturesPricer::npv_result", r, v)
    b = pricer(q, "OptionAnalyticPricer", "npv")
    ck.fn(b["path"])
    r = run(q, b, TOTAL + ("FuturesPricer::fair_forward", "Normal::new"), OPAQUE + ("Quanto::quanto_adjust",))
    mo, mat = maturity(ck, "OptionAnalyticPricer::npv", r)
    fw = one_call(ck, "OptionAnalyticPricer::npv:forward", r, "::fair_forward", [F(me, "futures_helper"), mat])
    K = one_call(ck, "OptionAnalyticPricer::npv:strike", r, "::get_strike", [inst()])
    tau = one_call(ck, "OptionAnalyticPricer::npv:time", r, "::get_time_difference", [None, F(cell(F(me, "evaluation_date")), "date"), mat])
    if None in (fw, K, tau):
        return
    m = div(K, fw)
    vol = cell(F(me, "volatility"))
    tv = one_call(ck, "OptionAnalyticPricer::npv:variance", r, "::total_variance", [vol, tau, m])
    sd = one_call(ck, "OptionAnalyticPricer::npv:deviation", r, "::total_deviation", [vol, tau, m])
    dsc = one_call(ck, "OptionAnalyticPricer::npv:discount", r, "ZeroCurve::get_discount_factor", [cell(F(me, "discount_curve")), tau])
    if None in (tv, sd, dsc):
        return
    qo = F(me, "quanto")
    sigma = call("parameters::volatility::Volatility::get_value", vol, tau, m)
    qadj = ite((b_not(SOME(qo)), ZERO), (SOME(qo), mul(sigma, tau, call("parameters::quanto::Quanto::quanto_adjust", cell(V(qo, 1)), tau, m))))
    cdfs = calls(r, "::cdf")
    g, v = ok_part(r)
    d1 = div(add(lift(p_neg, lift(ln_, m)), mul(tv, num(Fraction(1, 2))), lift(p_neg, qadj)), sd)
    d2 = sub(d1, sd)
    if not cdfs:
        ck.fail("OptionAnalyticPricer::npv:normal", "no normal distribution function is used")
        return
    nd = cdfs[0].args[0]
    c = [x for _, x in cases(cdfs[0].res)][0]
    # the distribution is the standard normal
    N = lambda d: lift(lambda z: mk("call", c.a[0], c.a[1], z), d)
    nrm = [e for e in r.events if e.kind == "call" and e.name.endswith("Normal::new")]
    ck.ob("OptionAnalyticPricer::npv:normal", bool(nrm) and all(e.args[0] is ZERO and e.args[1] is ONE for e in nrm), "the distribution is not the standard normal")
    ot = one_call(ck, "OptionAnalyticPricer::npv:type", r, "::get_option_type", [inst()])
    ia = [x["name"] for x in q.adt("enums::OptionType")["variants"]].index("Call")
    if ot is None:
        return
    iscall = is_v(D(ot) if False else ot, ia, 2)
    cv = mul(dsc, sub(mul(fw, N(d1)), mul(K, N(d2))))
    pv = mul(dsc, sub(mul(K, sub(ONE, N(d2))), mul(fw, sub(ONE, N(d1)))))
    returns(ck, "OptionAnalyticPricer::npv", r, ite((iscall, cv), (b_not(iscall), pv)))
    cc = one_call(ck, "OptionAnalyticPricer::npv:currency", r, "::get_currency", [inst()])
    uc = one_call(ck, "OptionAnalyticPricer::npv:underlying-currency", r, "::get_underlying_currency", [inst()])
    if None not in (cc, uc):
        bad = b_and(g, b_and(b_not(eq(D(cc), D(uc))), b_not(SOME(qo))))
        ck.ob("OptionAnalyticPricer::npv:quanto", b_empty(b_valid(bad)), "an option on an underlying in another currency is priced without quanto data")




DATE = "time::OffsetDateTime::date"


def dt(x):
    return lift(lambda y: call(DATE, y), x)


def pv_sum(cf, curve, base, strict="Gt"):
    """sum over the cash flows paid after `base` of amount x discount factor"""
    d, a = keyat(cf), at(cf)
    g = cmp(strict, dt(d), dt(base))
    return mk("sum", cf, mk_ite([(g, mul(a, df(curve, d))), (b_not(g), ZERO)]))


def pricing_date(r, me, who):
    es = {e.res for e in calls(r, "::get_pricing_date")}
    ev = F(cell(F(me, "evaluation_date")), "date")
    if not es:
        return ev
    x = es.pop()
    o = lift(lambda y: project(y, ("f", "0")) if y.op == "agg" else V(y, 0), x)
    return ite((b_not(SOME(o)), ev), (SOME(o), unref(o)))


def reported(ck, key, r, parts, base):
    """the cash-flow tables list every flow of `parts` [(flows, factor)] paid on or after `base`, once, at its own date"""
    g, res = ok_part(r)
    if res is None:
        return
    seen = {"cashflow_amounts": [], "cashflow_probabilities": []}
    ins = [e for e in r.events if e.kind == "map_insert" and e.loops]
    for cf, factor in parts:
        for fld in seen:
            es = []
            for e in ins:
                c = e.loops[-1]
                if c.src is not cf and not any(x is cf for _, x in cases(c.src)):
                    continue
                v = e.args[2]
                el0 = F(v, "0")
                pr = F(v, "1")
                isprob = all(x is ONE for _, x in cases(pr))
                if isprob == (fld == "cashflow_probabilities"):
                    es.append((e, el0, pr))
            if not ck.ob(f"{key}:{fld}", len(es) == 1, f"cash flows are entered {len(es)} times into the {fld} table"):
                continue
            e, d0, am = es[0]
            c = e.loops[-1]
            want = cmp("Ge", dt(keyat(cf)), dt(base))
            more = c.more if c.src is not None else TRUE
            diff = b_valid(b_and(b_and(c.hguard, more), b_ite(e.guard, b_not(want), want)))
            ck.ob(f"{key}:{fld}", diff == FALSE, f"a cash flow is listed although paid, or left out although due: {b_show(diff)[:200]}")
            m = differ(d0, keyat(cf), e.guard)
            ck.ob(f"{key}:{fld}:date", m is None, f"date of a listed cash flow: {m}")
            if fld == "cashflow_amounts":
                m = differ(am, mul(at(cf), factor), e.guard)
                ck.ob(f"{key}:{fld}:amount", m is None, f"amount of a listed cash flow: {m}")
            # no flow overwrites another one
            k = e.args[1]
            if k.op == "ix" or (k.op == "poly" and contains(k, lambda z: z.op == "ix")):
                fine = len(parts) == 1
            elif k in c.init:
                nx = c.next[k]
                fine = all(p_sub(x, k) is ONE or b_empty(b_valid(b_and(b_and(gx, e.guard), c.hguard))) for gx, x in cases(nx))
                if parts.index((cf, factor)) > 0:
                    prev = parts[0][0]
                    fine = fine and contains(c.init[k], lambda z: z.op == "sum" and z.a[0] is prev)
            else:
                fine = False
            ck.ob(f"{key}:{fld}:slot", fine, "two cash flows may share a slot of the table")


def Q08(ck, q, t, meta):
    """Bond value: sum over cash flows paid after the pricing date of amount x
    discount factor, divided by the discount factor of the pricing date; the
    pricing date is the bond's own or else the evaluation date.  Swap value: the
    same per leg with that leg's curve (undivided), the floating leg converted
    with the FX rate when there is one.  KRX yield value: the regulation's
    formula.  npv_result has the same value and lists every flow due on or after
    that date at its own date and amount."""
    me = D(S)
    for fn in ("npv", "npv_result"):
        key = "BondPricer::" + fn
        r = go(ck, q, "BondPricer", fn)
        pd = pricing_date(r, me, "instrument")
        cf = one_call(ck, key + ":flows", r, "::get_cashflows", [inst(), pd, F(me, "forward_curve"), F(me, "past_fixing_data")])
        if cf is None:
            continue
        cv = cell(F(me, "discount_curve"))
        v = div(pv_sum(cf, cv, pd), df(cv, pd))
        if fn == "npv":
            returns(ck, key, r, v, must=TRUE)
        else:
            only_npv(ck, key, r, v)
            reported(ck, key, r, [(cf, ONE)], pd)
    fx = F(me, "floating_to_fixed_fx")
    rate = ite((b_not(SOME(fx)), ONE), (SOME(fx), F(cell(V(fx, 1)), "value")))
    for fn in ("npv", "npv_result"):
        key = "PlainSwapPricer::" + fn
        r = go(ck, q, "PlainSwapPricer", fn)
        x, f = legs(ck, key, r, me)
        if None in (x, f):
            continue
        ev = F(cell(F(me, "evaluation_date")), "date")
        v = add(pv_sum(x, cell(F(me, "fixed_leg_discount_curve")), ev), mul(pv_sum(f, cell(F(me, "floating_leg_discount_curve")), ev), rate))
        if fn == "npv":
            returns(ck, key, r, v, must=TRUE)
        else:
            only_npv(ck, key, r, v)
            reported(ck, key, r, [(x, ONE), (f, rate)], ev)
    # market convention of the KRX
    b = pricer(q, "KrxYieldPricer", "npv")
    ck.fn(b["path"])
    key = "KrxYieldPricer::npv"
    names = {n for n, *_ in b["debug"]}
    a = next((n for n in ("instrument", "bond") if n in names), "bond")
    r = run(q, b, TOTAL + ("::get_coupon_frequency", "::get_calendar", "::get_schedule", "::get_issue_date", "::year_fraction"), OPAQUE + ("::as_real",))
    pd = pricing_date(r, me, a)
    cf = one_call(ck, key + ":flows", r, "::get_cashflows", [D(arg(a)), pd, F(me, "forward_curve"), F(me, "past_fixing_data")])
    fr = one_call(ck, key + ":frequency", r, "::as_real", [None])
    yfs = calls(r, "::year_fraction")
    if cf is not None and fr is not None and ck.ob(key + ":year-fraction", len({e.res for e in yfs}) == 1, "no single year fraction"):
        y = div(F(me, "bond_yield"), fr)
        yf = yfs[0].res
        yv = lift(lambda z: V(z, 0) if z.op == "agg" else z, yf)
        c0 = [c for _, c in cases(yv)][0]
        m = differ(c0.a[-2] if len(c0.a) >= 5 else mk("missing"), keyat(cf))
        ck.ob(key + ":year-fraction", m is None, f"the year fraction does not end at the cash flow's date: {m}")
        m = differ(c0.a[-1], F(me, "daycount"))
        ck.ob(key + ":daycount", m is None, f"day count of the year fraction: {m}")
        d = keyat(cf)
        g = cmp("Gt", dt(d), dt(pd))
        base = add(ONE, y)
        term = mul(at(cf), p_inv(mk("call", "powf", base, mul(yv, fr))))
        s = mk("sum", cf, mk_ite([(g, term), (b_not(g), ZERO)]))
        wd = [e for e in calls(r, "::whole_days")]
        gg, v = ok_part(r)
        if ck.ob(key + ":accrual", len(wd) >= 2 and v is not None, "no accrual fraction"):
            nxt, prev = c0.a[-3], None
            num_, den = wd[0].res, wd[-1].res
            val = div(s, add(ONE, mul(y, div(num_, den))))
            empty = cmp("Eq", length(cf), ZERO)
            returns(ck, key, r, ite((b_not(empty), val), (empty, ZERO)))
            es = [e for e in r.events if e.kind == "call" and e.name.endswith("::sub") or e.kind == "call" and "Sub" in e.name]
            ck.count("whole-day differences", len(wd))


def legs(ck, key, r, me, a="instrument"):
    ev = F(cell(F(me, "evaluation_date")), "date")
    x = one_call(ck, key + ":fixed-flows", r, "::get_fixed_cashflows", [inst(a), ev])
    f = one_call(ck, key + ":floating-flows", r, "::get_floating_cashflows", [inst(a), ev, F(me, "forward_curve"), F(me, "past_fixing_data")])
    return x, f


def read_back(v, g):
    """reads of an entry written before are replaced by what was written"""
    def f(z):
        if z.op != "prj" or z.a[1][0] != "key":
            return None
        k, m = z.a[1][1], z.a[0]
        while m.op in ("ins", "upd"):
            es = [(m.a[1], m.a[2])] if m.op == "ins" else [(p[1], w) for p, w in m.a[1] if p[0] == "key"]
            for kk, w in es:
                if b_empty(b_and(g, b_not(eq(kk, k)))):
                    return read_back(w, g)
            m = m.a[0]
        return None
    return subst(v, f)


def entries(r, res):
    """[(guard, {key: value})] of a map built by insertions"""
    out = []
    for g, m in cases(res):
        if b_and(g, r.g) == FALSE:
            continue
        chain = []
        x = m
        while x.op in ("ins", "upd"):
            if x.op == "ins":
                chain.append((x.a[1], read_back(x.a[2], g)))
                x = x.a[0]
            else:
                for k, v in x.a[1]:
                    if k[0] == "key":
                        chain.append((k[1], read_back(v, g)))
                x = x.a[0]
        out.append((g, chain, x))
    return out


def exposure(ck, key, r, want):
    """the returned map has exactly the entries `want` = [(currency, amount)],
    amounts of equal currencies added"""
    g, res = ok_part(r)
    if res is None:
        return ck.fail(key, "nothing is returned")
    for gx, chain, base in entries(r, res):
        got = {}
        ks = []
        for k, v in reversed(chain):
            j = next((i for i, kk in enumerate(ks) if b_empty(b_and(gx, b_not(eq(kk, k))))), None)
            if j is None:
                ks.append(k)
                got[len(ks) - 1] = v
            else:
                got[j] = v
        wk, wv = [], []
        for k, v in want:
            j = next((i for i, kk in enumerate(wk) if b_empty(b_and(gx, b_not(eq(kk, k))))), None)
            if j is None:
                wk.append(k)
                wv.append(v)
            else:
                wv[j] = add(wv[j], v)
        ck.ob(key + ":entries", base.op == "emptymap" and len(ks) == len(wk), f"{len(ks)} currencies are reported where {len(wk)} are exposed")
        for k, v in zip(wk, wv):
            j = next((i for i, kk in enumerate(ks) if b_empty(b_and(gx, b_not(eq(kk, k))))), None)
            if not ck.ob(key + ":currency", j is not None, f"no exposure is reported for {show(k)[:80]}"):
                continue
            m = differ(got[j], v, gx)
            ck.ob(key + ":amount", m is None, f"exposure: {m}")


def Q09(ck, q, t, meta):
    """fx_exposure of every pricer: default (bond, option, KTB futures, stock,
    cash): npv x unit notional in the instrument's currency; futures: (npv -
    trade price) x unit notional in its currency; swap: value of each leg x unit
    notional in that leg's currency, added when both legs share one; FX futures:
    per unit notional, +underlying discount factor in the underlying currency
    and -trade price x futures-currency discount factor in the futures one."""
    me = D(S)
    b = q.fn("pricing_engines::pricer::PricerTrait::fx_exposure")
    ck.fn(b["path"])
    r = run(q, b, TOTAL, OPAQUE)
    un = one_call(ck, "PricerTrait:unit", r, "::get_unit_notional", [inst()])
    cu = one_call(ck, "PricerTrait:currency", r, "::get_currency", [inst()])
    if None not in (un, cu):
        exposure(ck, "PricerTrait::fx_exposure", r, [(D(cu), mul(arg("npv"), un))])
    over = set()
    for im in q.trait_impls.get("pricing_engines::pricer::PricerTrait", []):
        if any(n == "fx_exposure" for n, *_ in im["items"]):
            over.add(q.types[im["self"]]["s"].split("::")[-1])
    ck.count("pricers", len(q.trait_impls.get("pricing_engines::pricer::PricerTrait", [])))
    ck.floor("pricers", 9)
    for o in over - {"FuturesPricer", "FxFuturesPricer", "PlainSwapPricer", "Pricer"}:
        ck.fail(f"{o}::fx_exposure", "this pricer replaces the common exposure rule by one that was not specified")
    # futures
    bb = pricer(q, "FuturesPricer", "fx_exposure") if "FuturesPricer" in over else None
    if bb is None:
        ck.fail("FuturesPricer::fx_exposure", "a futures position is exposed to its price change, not to its price")
    else:
        ck.fn(bb["path"])
        r = run(q, bb, TOTAL + ("::npv", "FuturesPricer::fair_forward"), OPAQUE)
        val = calls(r, "::npv") or calls(r, "::fair_forward")
        if ck.ob("FuturesPricer:npv", len({e.res for e in val}) == 1, "the futures is not valued"):
            v = V(val[0].res, 0) if val[0].res.op == "agg" else val[0].res
            un = one_call(ck, "FuturesPricer:unit", r, "::get_unit_notional", [None])
            av = one_call(ck, "FuturesPricer:trade-price", r, "::get_average_trade_price", [None])
            cu = one_call(ck, "FuturesPricer:currency", r, "::get_currency", [None])
            if None not in (un, av, cu):
                exposure(ck, "FuturesPricer::fx_exposure", r, [(D(cu), mul(sub(v, av), un))])
    r = go(ck, q, "FxFuturesPricer", "fx_exposure")
    key = "FxFuturesPricer::fx_exposure"
    av = one_call(ck, key + ":trade-price", r, "::get_average_trade_price", [inst()])
    cu = one_call(ck, key + ":currency", r, "::get_currency", [inst()])
    uc = one_call(ck, key + ":underlying-currency", r, "::get_underlying_currency", [inst()])
    mo, mat = maturity(ck, key, r)
    if None not in (av, cu, uc):
        exposure(ck, key, r, [(D(cu), lift(p_neg, mul(df(cell(F(me, "futures_currency_curve")), mat), av))),
                              (D(uc), df(cell(F(me, "underlying_currency_curve")), mat))])
    r = go(ck, q, "PlainSwapPricer", "fx_exposure")
    key = "PlainSwapPricer::fx_exposure"
    x, f = legs(ck, key, r, me)
    un = one_call(ck, key + ":unit", r, "::get_unit_notional", [inst()])
    c1 = one_call(ck, key + ":fixed-currency", r, "::get_fixed_leg_currency", [inst()])
    c2 = one_call(ck, key + ":floating-currency", r, "::get_floating_leg_currency", [inst()])
    if None not in (x, f, un, c1, c2):
        ev = F(cell(F(me, "evaluation_date")), "date")
        exposure(ck, key, r, [(D(c1), mul(pv_sum(x, cell(F(me, "fixed_leg_discount_curve")), ev), un)),
                              (D(c2), mul(pv_sum(f, cell(F(me, "floating_leg_discount_curve")), ev), un))])
