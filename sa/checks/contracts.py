"""Contracts: cash flows, floating coupons, construction and their own terms."""
from spec import *
from interp import *
from models import map_has

S = arg("self")
ME = D(S)
DATE = "time::OffsetDateTime::date"
YF = "time::calendar_trait::CalendarTrait::year_fraction"
COUPON = "parameters::rate_index::RateIndex::get_coupon_amount"
TOTAL = ("::year_fraction", "::get_coupon_amount")
OPAQUE = ("DailyClosePrice as std::default::Default>::default",)


PER_YEAR = {"Daily": 252, "Weekly": 52, "BiWeekly": 26, "SemiMonthly": 24, "Monthly": 12, "SemiQuarterly": 6, "Quarterly": 4,
            "TriAnnually": 3, "SemiAnnually": 2, "Annually": 1, "None": 0}


def own(ty, fn):
    return f"<instruments::{ty} as instrument::InstrumentTrait>::{fn}"


def day(x):
    return call(DATE, x)


def ledger(m, g, base):
    """what a map gained over `base`: [(guard, key, amount)]; None if it is not made of entries over it"""
    out = []
    for h, x in cases(m):
        gg = b_valid(b_and(h, g))
        if gg == FALSE:
            continue
        steps = []
        while x is not base and x.op in ("ins", "upd"):
            if x.op == "ins":
                steps.append(("ins", x.a[0], x.a[1], x.a[2]))
            else:
                for k, v in x.a[1]:
                    if k[0] != "key":
                        return None
                    steps.append(("upd", x.a[0], k[1], v))
            x = x.a[0]
        if x is not base:
            return None
        for kind, before, k, v in reversed(steps):
            there = map_has(before, k)
            for w, c in ((True, b_and(gg, there)), (False, b_and(gg, b_not(there)))):
                if c == FALSE or never(c) or kind == "upd" and not w:
                    continue
                y = special(v, c)
                if w:
                    y = sub(y, special(project(before, ("key", k)), c))
                out.append((c, k, y))
    return out


def total_at(rows, k):
    return add(ZERO, *[ite((g, v), (b_not(g), ZERO)) for g, kk, v in rows if kk is k])


def same_ledger(ck, key, got, want, care, what, where):
    if not ck.ob(key, got is not None, f"{what} are not kept as amounts by date", where):
        return
    keys = []
    for _, k, _ in got + want:
        if k not in keys:
            keys.append(k)
    for k in keys:
        ck.count("dated amounts")
        m = differ(total_at(got, k), total_at(want, k), care)
        ck.ob(key, m is None, f"{what} on {show(k)[:80]}: {m}", where)


def one_loop(ck, key, r, src, where):
    ls = [c for c in r.loops if c.src is src]
    return ls[0] if ck.ob(key + ":every", len(ls) == 1, f"the periods are gone through {len(ls)} times", where) else None


def map_of(c):
    return [m for (root, path), m in c.mus.items() if is_map_mu(c, m)]


def is_map_mu(c, m):
    for _, x in cases(c.init.get(m, UNINIT)):
        while x.op in ("ins", "upd"):
            x = x.a[0]
        if x.op == "emptymap":
            return True
    return False


def flows(ck, key, r, src, coupon, outer, when, where):
    """Ok(map) = amounts `outer` + `coupon` of every period of src, the latter under `when`"""
    c = one_loop(ck, key, r, src, where)
    if c is None:
        return
    ms = map_of(c)
    if not ck.ob(key + ":map", len(ms) == 1, "the coupons are not collected in one map", where):
        return
    mu = ms[0]
    more = [l for l in b_lits(c.backguard) if l.op == "more"]
    go_on = TRUE
    for l in more:
        go_on = b_and(go_on, lit(l))
    for _, g in c.exits:
        ck.ob(key + ":all", never(b_and(b_and(g, go_on), when)), f"the periods are left early when {b_show(b_and(g, go_on))[:200]}", where)
    rows = ledger(c.next[mu], c.backguard, mu)
    g, k, v = coupon
    same_ledger(ck, key + ":coupon", rows, [(g, k, v)], b_and(c.backguard, when), "coupons", where)
    g, v = ok_part(r)
    if not ck.ob(key + ":answer", v is not None, "no cash flows are returned", where):
        return
    ck.ob(key + ":answers", never(b_and(r.g, b_not(g))), f"cash flows are refused when {b_show(b_and(r.g, b_not(g)))[:200]}", where)
    before = ledger(c.init[mu], TRUE, mk("emptymap"))
    for h, x in cases(v):
        h = b_valid(b_and(h, g))
        if h == FALSE:
            continue
        if any(z is mu for z in walk(x)):
            after = ledger(x, h, mu)
            same_ledger(ck, key + ":once", None if after is None or before is None else before + after, outer, h, "amounts paid once", where)
        else:
            ck.ob(key + ":coupons", never(b_and(b_and(h, when), b_not(empty(src)))), f"coupons are left out when {b_show(h)[:200]}", where)
            same_ledger(ck, key + ":once", ledger(x, h, mk("emptymap")), outer, h, "amounts paid once", where)


def empty(src):
    return eq(mk("len", src), ZERO)


def amount_of(rate_index, sched, spread, curve, past, pricing, tenor, calendar, dc, gap):
    return call(COUPON, rate_index, sched, spread, curve, past, pricing, tenor, calendar, dc, gap)


def some_of(x):
    return prj_some(x)


def prj_some(x):
    return project(project(x, ("v", 1)), ("f", "0"))


def opt_ref(x):
    return ite((is_v(x, 0, 2), NONE), (is_v(x, 1, 2), some(prj_some(x))))


def coupon_args(ck, key, r, curve, past, where):
    """the one floating coupon of a period, with the given past fixings or none"""
    es = [e for e in r.events if e.kind == "call" and e.name.endswith("::get_coupon_amount")]
    if not ck.ob(key + ":asked", len(es) == 1, f"floating coupons are asked for {len(es)} times", where):
        return None
    return es[0]


def past_of(r, name):
    """the argument if given, else what stands in for it (no fixings)"""
    p = arg(name)
    es = [e for e in r.events if e.kind == "call" and e.name.endswith("::get_coupon_amount")]
    stand = None
    for e in es:
        x = e.args[4]
        for g, y in cases(x):
            if b_and(g, is_v(p, 0, 2)) != FALSE:
                stand = y
    return p, stand


def nothing(x):
    return x is not None and any(z.op == "emptymap" or z.op == "call" and z.a[0].split("::")[-1] == "default" or z.op == "default" for z in walk(x)) and \
        any("DailyClosePrice" in str(z.a[0]) for z in walk(x) if z.op in ("agg", "default", "call", "tyname"))


def Q14(ck, q, t, meta):
    """A map of cash flows is read as a ledger: every insertion or change of an entry is the
    amount it adds to that date. The ledger of one pass of the loop over the periods, and of
    what is done once before and after it, must equal the amounts the terms of the contract
    give under the same conditions, date by date, and no period may be left out. The price of
    the standard bond of a bond future must equal its discounted coupons and principal."""
    pd = D(arg("pricing_date"))

    # bonds
    p = own("bond::Bond", "get_cashflows")
    r = run(q, p, total=TOTAL, opaque=OPAQUE)
    ck.fn(p)
    src = F(ME, "schedule", "data")
    s = el(src, src)
    past, stand = past_of(r, "past_data")
    ck.ob("bond:no fixings", nothing(stand), f"missing fixings are replaced by {show(stand)[:200] if stand is not None else None}", p)
    ri, fixed, given = F(ME, "rate_index"), F(ME, "fixed_coupon_rate"), F(s, "amount")
    curve = prj_some(arg("forward_curve"))
    data = ite((is_v(past, 0, 2), stand if stand is not None else ZERO), (is_v(past, 1, 2), prj_some(past)))
    frac = call(YF, F(ME, "calendar"), F(s, "calc_start_date"), F(s, "calc_end_date"), F(ME, "daycounter"))
    floating = floating_of(r, prj_some(ri), s, F(ME, "floating_coupon_spread"), curve, data, pd, opt_ref(F(ME, "floating_compound_tenor")),
                           F(ME, "calendar"), F(ME, "daycounter"), F(ME, "fixing_gap_days"))
    frac = named(r, "::year_fraction", frac)
    v = ite((is_v(given, 1, 2), prj_some(given)),
            (b_and(is_v(given, 0, 2), is_v(ri, 1, 2)), floating),
            (b_and(is_v(given, 0, 2), is_v(ri, 0, 2)), mul(frac, prj_some(fixed))))
    due = lambda x: cmp("Ge", day(x), day(pd))
    pay = F(s, "payment_date")
    mat = F(ME, "maturity")
    flows(ck, "bond", r, src, (due(pay), pay, v),
          [(b_and(due(mat), b_not(b_of(F(ME, "is_coupon_strip")))), mat, ONE)], TRUE, p)

    # swaps
    p = own("plain_swap::PlainSwap", "get_fixed_cashflows")
    r = run(q, p, total=TOTAL, opaque=OPAQUE)
    ck.fn(p)
    src = F(ME, "fixed_legs", "data")
    s = el(src, src)
    pay = F(s, "payment_date")
    eff = F(ME, "effective_date")
    apart = b_not(eq(eff, mat))
    first, last, rate = F(ME, "initial_fixed_side_endorsement"), F(ME, "last_fixed_side_payment"), F(ME, "fixed_rate")
    base = ite((is_v(first, 1, 2), prj_some(first)), (is_v(first, 0, 2), ONE))
    frac = named(r, "::year_fraction", call(YF, F(ME, "calendar"), F(s, "calc_start_date"), F(s, "calc_end_date"), F(ME, "fixed_daycounter")))
    swap(ck, "fixed side", r, src, (due(pay), pay, mul(num(-1), prj_some(rate), frac, base)),
         [(b_and(due(eff), is_v(first, 1, 2)), eff, prj_some(first)), (b_and(due(mat), is_v(last, 1, 2)), mat, mul(num(-1), prj_some(last)))],
         is_v(rate, 1, 2), apart, p)

    p = own("plain_swap::PlainSwap", "get_floating_cashflows")
    r = run(q, p, total=TOTAL, opaque=OPAQUE)
    ck.fn(p)
    src = F(ME, "floating_legs", "data")
    s = el(src, src)
    pay = F(s, "payment_date")
    first, last = F(ME, "initial_floating_side_payment"), F(ME, "last_floating_side_endorsement")
    base = ite((is_v(first, 1, 2), prj_some(first)), (is_v(first, 0, 2), ONE))
    past, stand = past_of(r, "past_fixing_data")
    ck.ob("floating side:no fixings", nothing(stand), "missing fixings are replaced by others", p)
    data = ite((is_v(past, 0, 2), stand if stand is not None else ZERO), (is_v(past, 1, 2), prj_some(past)))
    floating = floating_of(r, prj_some(ri), s, NONE, curve, data, pd, opt_ref(F(ME, "floating_compound_tenor")), F(ME, "calendar"),
                           F(ME, "floating_daycounter"), F(ME, "fixing_gap_days"))
    swap(ck, "floating side", r, src, (due(pay), pay, mul(floating, base)),
         [(b_and(due(eff), is_v(first, 1, 2)), eff, mul(num(-1), prj_some(first))), (b_and(due(mat), is_v(last, 1, 2)), mat, prj_some(last))],
         is_v(ri, 1, 2), apart, p)

    # the standard bond of a bond future
    p = "instruments::ktbf::KtbfVirtualBond::npv"
    r = run(q, p)
    ck.fn(p)
    adt = q.adt("time::conventions::PaymentFrequency")
    per_year = mk("disc", F(ME, "frequency"), adt["key"])
    for v in adt["variants"]:
        ck.ob(f"periods a year:{v['name']}", PER_YEAR.get(v["name"]) == v["discr"], f"{v['name']} counts as {v['discr']} periods a year", p)
    n = mul(F(ME, "year"), per_year)
    growth = add(ONE, div(arg("bond_yield"), per_year))
    src = mk("range", ONE, add(ONE, n))
    cpn = total(src, TRUE, div(div(F(ME, "coupon_rate"), per_year), call("powi", growth, add(ONE, mk("ix", src, 0)))))
    want = mul(add(cpn, div(ONE, call("powi", growth, n))), F(ME, "unit_notional"))
    m = differ(norm_powi(r.ret), norm_powi(want), r.g)
    ck.ob("standard bond", m is None, m or "", p)
    r = run(q, own("ktbf::KTBF", "get_virtual_bond_npv"), opaque=("KtbfVirtualBond::npv",))
    ck.fn(own("ktbf::KTBF", "get_virtual_bond_npv"))
    returns(ck, "standard bond:own", r, call(p, F(ME, "virtual_bond"), arg("bond_yield")))
    ck.floor("dated amounts", 8)


def norm_powi(x):
    return subst(x, lambda z: mk("call", "powi", *[norm_powi(y) for y in z.a[-2:]]) if z.op == "call" and z.a[0].split("::")[-1] in ("powi", "powf") and z.a[0] != "powi" else None)


def swap(ck, key, r, src, coupon, outer, when, apart, where):
    """as flows, for exchanges on different days"""
    flows(ck, key, Apart(r, apart), src, coupon, outer, when, where)


class Apart:
    """a result seen where the first and the last exchange are on different days"""

    def __init__(self, r, g):
        self.__dict__.update(r.__dict__)
        self.g = b_and(r.g, g)


def named(r, suffix, x):
    """x under the name the code calls the primitive by"""
    es = {e.name for e in r.events if e.kind == "call" and e.name.endswith(suffix)}
    n = es.pop() if len(es) == 1 else x.a[0]
    return call(n, *x.a[1:])


def floating_of(r, *args):
    return named(r, "::get_coupon_amount", amount_of(*args))


# ------------------------------------------------------------ floating coupons
FWD = "get_forward_rate_between_dates"
SPOT = "get_forward_rate_from_evaluation_date"


def unit(q, path, name):
    a = q.adt(path)
    return mk("agg", path, [v["name"] for v in a["variants"]].index(name), ())


def unmin(t):
    """the smaller or larger of two as a choice between them"""
    def f(z):
        if z.op in ("min", "max"):
            a, b = (unmin(w) for w in z.a)
            lt = cmp("Lt", a, b)
            x, y = (a, b) if z.op == "min" else (b, a)
            return ite((lt, x), (b_not(lt), y))
        return None
    return subst(t, f)


def Q15(ck, q, t, meta):
    """The coupon is compared with its definition as a normal form, per case: a plain index by
    the fixing of its day or the forward rate over the index tenor, an overnight index before
    its first fixing by the mean of the first and last forward rates, and after it by
    compounding, where the loop is summarised: start, end, step, the date of each fixing and
    the factor of each step."""
    p = COUPON
    r = run(q, p, total=("::" + FWD, "::" + SPOT, "::year_fraction", "::adjust"), opaque=("::add_period",))
    ck.fn(p)
    names = {}
    for e in r.events:
        if e.kind == "call":
            names.setdefault(e.name.split("::")[-1], e.name)
    n = lambda x, *a: call(names.get(x, x), *a)
    b = D(arg("base_schedule"))
    fix, start, end = F(b, "fixing_date"), F(b, "calc_start_date"), F(b, "calc_end_date")
    pd, cal, dc, gap = D(arg("pricing_date")), D(arg("calendar")), D(arg("daycounter")), mul(arg("fixing_days"), num(86400), mk("second"))
    curve = cell(arg("forward_curve"))
    hist = F(D(arg("close_data")), "value")
    tenor = F(ME, "curve_tenor")
    step = D(prj_some(arg("compound_tenor")))
    plain, over = is_v(arg("compound_tenor"), 0, 2), is_v(arg("compound_tenor"), 1, 2)
    sp = ite((is_v(arg("spread"), 0, 2), ZERO), (is_v(arg("spread"), 1, 2), prj_some(arg("spread"))))
    how = unit(q, "enums::Compounding", "Simple")
    prec = unit(q, "time::conventions::BusinessDayConvention", "Preceding")
    fwd = lambda a, z: n(FWD, curve, a, z, how)
    ahead = lambda a: fwd(a, n("add_period", a, tenor))
    frac = n("year_fraction", cal, start, end, dc)
    past = cmp("Lt", fix, pd)
    known = map_has(hist, day(fix))
    spot = n(SPOT, curve, n("add_period", fix, tenor), how)
    fixed = project(hist, ("key", day(fix)))
    g, v = ok_part(r)
    if not ck.ob("answer", v is not None, "no coupon is returned", p):
        return
    ck.ob("answers", never(b_and(r.g, b_not(g))), f"a coupon is refused when {b_show(b_and(r.g, b_not(g)))[:200]}", p)
    cases_of = (("past fixing", b_and(past, known), fixed), ("missing fixing", b_and(past, b_not(known)), spot), ("forward", b_not(past), ahead(fix)))
    for k, w, rate in cases_of:
        m = differ(special(v, b_and(plain, w)), mul(add(rate, sp), frac), b_and(g, b_and(plain, w)))
        ck.ob(f"plain:{k}", m is None, f"plain index, {k}: {m}", p)
        ck.count("cases")
    last = sub(end, gap)
    w = b_and(over, b_not(past))
    m = differ(special(v, w), mul(add(div(add(ahead(fix), ahead(last)), num(2)), sp), frac), b_and(g, w))
    ck.ob("overnight:ahead", m is None, f"overnight index ahead of its first fixing: {m}", p)
    # compounding
    w = b_and(over, past)
    ls = [c for c in r.loops if b_and(c.backguard, w) != FALSE]
    if not ck.ob("overnight:loop", len(ls) == 1, f"the steps are gone through by {len(ls)} loops", p):
        return
    c = ls[0]
    cur = [m for m in c.mus.values() if c.init.get(m) is start]
    val = [m for m in c.mus.values() if c.init.get(m) is ONE]
    if not ck.ob("overnight:start", len(cur) == 1 and len(val) == 1, "compounding does not start with one at the start of the period", p):
        return
    x, y = cur[0], val[0]
    m = differ(special(v, w), sub(y, ONE), b_and(g, w))
    ck.ob("overnight:answer", m is None, f"the coupon is not the compounded value less one: {m}", p)
    ck.ob("overnight:on", never(b_and(c.backguard, b_not(cmp("Lt", x, end)))), "compounding goes on after the end of the period", p)
    for _, e in c.exits:
        ck.ob("overnight:until", never(b_and(e, b_and(w, cmp("Lt", x, end)))), f"compounding stops before the end of the period when {b_show(e)[:200]}", p)
    nx = n("add_period", x, step)
    to = ite((cmp("Lt", nx, end), nx), (b_not(cmp("Lt", nx, end)), end))
    care = c.backguard
    m = differ(unmin(c.next[x]), to, care)
    ck.ob("overnight:step", m is None, f"step: {m}", p)
    at_ = n("adjust", cal, sub(x, gap), prec)
    seen = cmp("Lt", at_, pd)
    have = map_has(hist, day(at_))
    stand = fwd(pd, n("add_period", pd, step))
    part = n("year_fraction", cal, x, to, dc)
    for k, w, rate in (("past fixing", b_and(seen, have), project(hist, ("key", day(at_)))), ("missing fixing", b_and(seen, b_not(have)), stand), ("forward", b_not(seen), ahead(at_))):
        for less in (cmp("Lt", nx, end), eq(nx, end), cmp("Gt", nx, end)):
            cc = b_and(b_and(care, w), less)
            same = (lambda v: subst(v, lambda z: end if z is nx else None)) if less == eq(nx, end) else (lambda v: v)
            m = differ(same(special(unmin(c.next[y]), cc)), same(special(mul(y, add(ONE, mul(add(rate, sp), part))), cc)), cc)
            ck.ob(f"overnight:{k}", m is None, f"overnight index, {k}: {m}", p)
            ck.count("cases")
    ck.floor("cases", 9)


# ------------------------------------------------------- construction and terms
I = "instruments::"
CODES = F(ME, "underlying_codes")


def the(f):
    return lambda q: [F(ME, f)]


def certain(f):
    return lambda q: [some(F(ME, f))]


def maybe(f):
    return lambda q: [opt_ref(F(ME, f)), F(ME, f)]


def text(s):
    return lambda q: [mk("str", s)]


def listed(*xs):
    return mk("agg", "array", 0, tuple((str(i), x) for i, x in enumerate(xs)))


def first_code(q):
    return [listed(project(CODES, ("idx", ZERO)))]


def all_codes(q):
    return [tab(CODES, el(CODES, CODES)), *first_code(q)]


def by_variant(field, adt, names):
    def f(q):
        vs = [v["name"] for v in q.adt(adt)["variants"]]
        return [ite(*[(is_v(F(ME, field), i, len(vs)), mk("str", names.get(v, v))) for i, v in enumerate(vs)])]
    return f


def pairs(q):
    fx = F(ME, "quanto_fx_code")
    t = mk("agg", "tuple", 0, (("0", project(CODES, ("idx", ZERO))), ("1", prj_some(fx))))
    return [ite((is_v(fx, 0, 2), listed()), (is_v(fx, 1, 2), listed(t)))]


def codes_if(q):
    fx = F(ME, "floating_to_fixed_fxcode")
    return [ite((is_v(fx, 0, 2), listed()), (is_v(fx, 1, 2), listed(prj_some(fx))))]


COMMON = {"get_name": the("name"), "get_code": the("code"), "get_currency": the("currency"), "get_unit_notional": the("unit_notional"), "get_maturity": certain("maturity")}
TERMS = {
    "bond::Bond": {**COMMON, "get_type_name": text("Bond"), "get_pricing_date": maybe("pricing_date"), "get_schedule": the("schedule"), "get_calendar": the("calendar"),
                   "get_coupon_frequency": the("payment_frequency"), "get_rate_index": maybe("rate_index"), "get_credit_rating": the("credit_rating"),
                   "get_issuer_type": the("issuer_type"), "get_issuer_name": the("issuer_name"), "get_issue_date": the("issue_date"), "is_coupon_strip": the("is_coupon_strip"),
                   "get_rank_type": the("rank")},
    "bond_futures::BondFutures": {**COMMON, "get_type_name": text("BondFutures")},
    "cash::Cash": {**COMMON, "get_unit_notional": lambda q: [ONE], "get_type_name": text("Cash")},
    "futures::Futures": {**COMMON, "get_type_name": text("Futures"), "get_underlying_currency": the("underlying_currency"), "get_underlying_codes": all_codes,
                         "get_average_trade_price": the("average_trade_price")},
    "fx_futures::FxFutures": {**COMMON, "get_type_name": text("FxFutures"), "get_underlying_currency": the("underlying_currency"),
                              "get_average_trade_price": the("average_trade_price"), "get_fxfutres_und_fxcode": the("fx_code"),
                              "get_all_fxcodes_for_pricing": lambda q: [listed(F(ME, "fx_code"))]},
    "ktbf::KTBF": {**COMMON, "get_type_name": text("KTBF"), "get_underlying_bonds": the("underlying_bonds"),
                   "get_bond_futures_borrowing_curve_tags": lambda q: [listed(F(ME, "borrowing_curve_tag"))]},
    "plain_swap::PlainSwap": {**COMMON, "get_currency": the("fixed_leg_currency"), "get_rate_index": maybe("rate_index"),
                              "get_type_name": by_variant("specific_type", "instruments::plain_swap::PlainSwapType", {}),
                              "get_fixed_leg_currency": the("fixed_leg_currency"), "get_floating_leg_currency": the("floating_leg_currency"),
                              "get_specific_plain_swap_type": the("specific_type"), "get_floating_to_fixed_fxcode": maybe("floating_to_fixed_fxcode"),
                              "get_all_fxcodes_for_pricing": codes_if},
    "stock::Stock": {**COMMON, "get_unit_notional": lambda q: [ONE], "get_type_name": text("Stock"), "get_underlying_codes": first_code},
    "vanilla_option::VanillaOption": {**COMMON, "get_type_name": by_variant("option_type", "enums::OptionType", {"Call": "VanillaCall", "Put": "VanillaPut"}),
                                      "get_underlying_currency": the("underlying_currency"), "get_underlying_codes": first_code, "get_option_type": the("option_type"),
                                      "get_option_daily_settlement_type": the("daily_settlement_type"), "get_strike": the("strike"),
                                      "get_quanto_fxcode_und_pair": pairs, "get_underlying_codes_requiring_volatility": first_code},
}
OTHER = {"get_cashflows", "get_fixed_cashflows", "get_floating_cashflows", "get_virtual_bond_npv"}
LISTS = ("array", "tuple")


def unref(r, x):
    """references replaced by what they refer to"""
    def f(z):
        if z.op == "ref":
            if z.a[0].op == "const" and not z.a[1]:
                return z.a[0].a[0]
            return subst(r.ip.read(r.state, z.a[0], z.a[1]), f)
        if z.op == "tab":
            body = subst(z.a[1], f)
            if body.op == "prj" and body.a[0] is z.a[0] and body.a[1][0] == "at" \
                    and (body.a[1][1] is pos(z.a[0]) or body.a[1][1].op == "ix" and body.a[1][1].a[0] is z.a[0]):
                return z.a[0]
            return mk("tab", z.a[0], body)
        return None
    return subst(x, f)


def getters(ck, q):
    for ty, terms in TERMS.items():
        pre = f"<{I}{ty} as instrument::InstrumentTrait>::"
        name = ty.split("::")[-1]
        for p in sorted(k for k in q.by_path if k.startswith(pre) and "{" not in k):
            fn = p[len(pre):]
            if fn in OTHER:
                continue
            if not ck.ob(f"{name}:{fn}:known", fn in terms, "a question about the contract the rules do not know", p):
                continue
            ck.fn(p)
            ck.count("terms asked")
            r = run(q, p)
            b = q.by_path[p][0]
            res = r.ret
            if any(x.op == "agg" and x.a[0] == RESULT for _, x in cases(res)):
                g, res = ok_part(r)
                ck.ob(f"{name}:{fn}:answers", res is not None and never(b_and(r.g, b_not(g))), "the question is refused", p)
                if res is None:
                    continue
            got = unref(r, res)
            ms = [differ(got, w, r.g) for w in terms[fn](q)]
            ck.ob(f"{name}:{fn}", any(m is None for m in ms), f"answers with another term: {ms[0]}", p)


RENAMED = {"option_daily_settlement_type": "daily_settlement_type"}


def holds(ck, key, v, g, derived, where, q, ty):
    """every field of the built contract is the argument of its name, or as derived"""
    adt = q.adt(I + ty)
    for g1, x in cases(v):
        g1 = b_and(g1, g)
        if g1 == FALSE:
            continue
        for f, _, _ in adt["variants"][0]["fields"]:
            want = derived.get(f, arg(f))
            ck.count("fields")
            m = differ(project(x, ("f", f)), want, g1)
            ck.ob(f"{key}:{f}", m is None, f"field {f}: {m}", where)


def fx(a, b):
    return mk("agg", "currency::FxCode", 0, (("currency1", a), ("currency2", b)))


def exactly(ck, key, g, want, where, what):
    ck.ob(key + ":refused", never(b_and(g, b_not(want))), f"{what} is accepted when {b_show(b_and(g, b_not(want)))[:300]}", where)
    ck.ob(key + ":accepted", never(b_and(want, b_not(g))), f"{what} is refused when {b_show(b_and(want, b_not(g)))[:300]}", where)


def Q16(ck, q, t, meta):
    """Every constructor is reduced to the contract it returns and the condition under which it
    does: each field must be the argument of its name (or the derived value of its definition)
    and the condition must be the admissible combinations, both ways. Every question of the
    instrument interface a contract answers must answer with the field of that meaning."""
    none, is_some = lambda x: is_v(arg(x), 0, 2), lambda x: is_v(arg(x), 1, 2)

    def built(ty, fn, **kw):
        p = f"{I}{ty}::{fn}"
        ck.fn(p)
        return p, run(q, p, **kw)

    # plain ones
    differ_ccy = b_not(eq(arg("currency"), arg("underlying_currency")))
    quanto = ite((differ_ccy, some(fx(arg("underlying_currency"), arg("currency")))), (b_not(differ_ccy), NONE))
    stock = [v["name"] for v in q.adt("enums::StockRankType")["variants"]]
    rank = ite((is_some("rank_type"), prj_some(arg("rank_type"))), (none("rank_type"), mk("agg", "enums::StockRankType", stock.index("Undefined"), ())))
    for ty, derived in (("futures::Futures", {"underlying_codes": listed(arg("underlying_code"))}),
                        ("fx_futures::FxFutures", {"fx_code": fx(arg("underlying_currency"), arg("currency"))}),
                        ("vanilla_option::VanillaOption", {"quanto_fx_code": quanto, "daily_settlement_type": arg("option_daily_settlement_type")}),
                        ("cash::Cash", {}), ("stock::Stock", {"rank_type": rank}), ("ktbf::KtbfVirtualBond", {})):
        p, r = built(ty, "new")
        holds(ck, ty.split("::")[-1], r.ret, r.g, derived, p, q, ty)

    # bonds
    one = b_or(b_and(is_some("fixed_coupon_rate"), none("rate_index")), b_and(none("fixed_coupon_rate"), is_some("rate_index")))
    for fn in ("new", "new_from_conventions"):
        p, r = built("bond::Bond", fn, total=("::build_schedule",))
        g, v = ok_part(r)
        key = "Bond:" + fn
        if ck.ob(key, v is not None, "no bond is built", p):
            exactly(ck, key, g, one, p, "a bond with both or none of fixed rate and rate index")
            sched = {"schedule": schedule_of("busi_convention", "payment_frequency")} if fn != "new" else {}
            holds(ck, key, v, g, sched, p, q, "bond::Bond")
    p, r = built("bond::Bond", "set_pricing_date")
    m = differ(final(r, S, "pricing_date"), some(arg("pricing_date")), r.g)
    ck.ob("Bond:set_pricing_date", m is None, m or "", p)

    # swaps
    ends = ("initial_fixed_side_endorsement", "initial_floating_side_payment", "last_fixed_side_payment", "last_floating_side_endorsement")
    every = lambda f, xs: _and(*[f(x) for x in xs])
    same = eq(arg("fixed_leg_currency"), arg("floating_leg_currency"))
    legs = _and(is_some("rate_index"), is_some("fixed_rate"))
    for fn in ("new", "new_from_conventions"):
        p, r = built("plain_swap::PlainSwap", fn, total=("::build_schedule",))
        if fn == "new":
            a, b = arg("fixed_legs"), arg("floating_legs")
        else:
            a, b = schedule_of("fixed_busi_convention", "fixed_frequency"), schedule_of("floating_busi_convention", "floating_frequency")
        bare = _and(empty(project(a, ("f", "data"))), empty(project(b, ("f", "data"))), none("rate_index"), none("fixed_rate"), b_not(same))
        soon = cmp("Le", day(arg("maturity")), add(day(arg("issue_date")), mul(num(2 * 86400), mk("second"))))
        fwd = _and(every(none, ends[:2]), every(is_some, ends[2:]), bare)
        kinds = {"IRS": _and(every(none, ends), legs, same), "CRS": _and(every(is_some, ends), legs, b_not(same)), "FxSwap": _and(every(is_some, ends), bare),
                 "FxForward": b_and(fwd, b_not(soon)), "FxSpot": b_and(fwd, soon)}
        g, v = ok_part(r)
        key = "PlainSwap:" + fn
        if not ck.ob(key, v is not None, "no swap is built", p):
            continue
        anyk = FALSE
        names = [x["name"] for x in q.adt(I + "plain_swap::PlainSwapType")["variants"]]
        ck.ob(key + ":kinds", set(names) == set(kinds), f"kinds of swap: {names}", p)
        typ = []
        for k, h in kinds.items():
            anyk = b_or(anyk, h)
            if k in names:
                typ.append((h, mk("agg", I + "plain_swap::PlainSwapType", names.index(k), ())))
        exactly(ck, key, g, anyk, p, "a combination of terms that is no kind of swap")
        ccy = ite((same, NONE), (b_not(same), some(fx(arg("floating_leg_currency"), arg("fixed_leg_currency")))))
        holds(ck, key, v, b_and(g, anyk), {"specific_type": ite(*typ), "fixed_legs": a, "floating_legs": b, "floating_to_fixed_fxcode": ccy}, p, q, "plain_swap::PlainSwap")

    # futures on treasury bonds
    p, r = built("ktbf::KTBF", "new")
    g, v = ok_part(r)
    if ck.ob("KTBF", v is not None, "no future is built", p):
        holds(ck, "KTBF", v, g, {}, p, q, "ktbf::KTBF")
        src = arg("underlying_bonds")
        when = project(el(src, src), ("f", "pricing_date"))
        bad = b_or(is_v(when, 0, 2), b_and(is_v(when, 1, 2), b_not(eq(prj_some(when), arg("maturity")))))
        ck.ob("KTBF:bonds", none_of(g, r.g, src, bad), "a bond not priced at the maturity of the future is taken, or others are refused", p)

    getters(ck, q)
    ck.floor("terms asked", 75)
    ck.floor("fields", 90)


def _and(*gs):
    g = TRUE
    for h in gs:
        g = b_and(g, h)
    return g


def schedule_of(conv, freq):
    return call("instruments::schedule::build_schedule", arg("forward_generation"), arg("effective_date"), arg("maturity"), arg("calendar"),
                arg(conv), arg(freq), arg("fixing_gap_days"), arg("payment_gap_days"))


def none_of(g, all_, src, bad):
    """g is exactly: no element of src is bad"""
    for l in b_lits(g):
        s = l.a[0] if l.op == "isv" else l
        if s.op == "loopx" and s.a[0] is src:
            conds = [b_of(c) for c in s.a[1]]
            some_bad = FALSE
            for c in conds:
                some_bad = b_or(some_bad, c)
            stays = variant_is(s, len(conds), len(conds) + 1)
            same = never(b_and(some_bad, b_not(bad))) and never(b_and(bad, b_not(some_bad)))
            return same and b_and(g, b_not(b_of(bool_t(stays)))) == FALSE and b_and(b_and(all_, stays), b_not(g)) == FALSE
        if s.op == "exists" and s.a[0] is src:
            c = b_of(s.a[1])
            same = never(b_and(c, b_not(bad))) and never(b_and(bad, b_not(c)))
            return same and b_and(g, lit(l)) == FALSE and b_and(b_and(all_, b_not(lit(l))), b_not(g)) == FALSE
    return False
