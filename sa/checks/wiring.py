"""Which market objects price an instrument."""
from spec import *
from checks.selection import S, MPM, PF, TRAIT, ROLES, Inst, enum, has, of_key, got, type_names
from checks.pricing import variant, n_variants

NONE = mk("agg", OPTION, 0, ())
INST = arg("instrument")
FAIL = ("get_underlying_currency", "get_rate_index", "get_fxfutres_und_fxcode", "get_floating_to_fixed_fxcode")
PLAIN = ("get_type_name", "get_underlying_codes", "get_currency", "get_code", "get_name", "get_maturity")


def pricers(ck, q):
    path = PF + "create_pricer"
    ck.fn(path)
    prim = tuple(TRAIT + g for g in FAIL) + tuple(MPM + r for r in ROLES + ("get_borrowing_curve_names",))
    r = run(q, path, total=prim, opaque=prim + tuple(TRAIT + g for g in PLAIN))
    g, v = ok_part(r)
    if v is None:
        return ck.fail("create_pricer", "no pricer is returned")
    i = Inst(q, D(D(INST)))
    m = lambda f: F(D(S), f)
    x = D(D(INST))
    mp = D(m("match_parameter"))
    role = lambda n: D(got(r, n, mp, x))
    first = lambda n: D(project(got(r, n, mp, x), ("at", ZERO)))
    und0 = D(project(got(r, "get_underlying_codes", x), ("at", ZERO)))
    look = lambda tb, k: (has(m(tb), k), of_key(m(tb), k))
    curve = lambda k: look("zero_curves", k)
    date = (TRUE, m("evaluation_date"))
    rix = got(r, "get_rate_index", x)

    def opt(present, obj):
        due, o = obj
        return b_or(b_not(present), due), ite((present, some(o)), (b_not(present), NONE))
    fwd = opt(SOME(rix), curve(role("get_rate_index_curve_name")))
    past = opt(SOME(rix), look("past_close_data", F(D(V(rix, 1)), "name")))
    fxc = got(r, "get_floating_to_fixed_fxcode", x)
    cur, ucur = D(got(r, "get_currency", x)), D(got(r, "get_underlying_currency", x))
    pair = mk("agg", "tuple", 0, (("0", und0), ("1", mk("agg", "currency::FxCode", 0, (("currency1", ucur), ("currency2", cur))))))
    quanto = opt(b_not(eq(ucur, cur)), look("quantos", pair))
    futures = dict(market_price=look("equities", und0), collateral_curve=curve(first("get_collateral_curve_names")),
                   borrowing_curve=curve(first("get_borrowing_curve_names")))
    analytic = is_v(F(D(m("calculation_configuration")), "vanilla_option_calculation_method"), *enum(q, "enums::VanillaOptionCalculationMethod", "Analytic"))
    want = {
        "Bond": ("BondPricer", dict(evaluation_date=date, discount_curve=curve(role("get_discount_curve_name")), forward_curve=fwd, past_fixing_data=past)),
        "Futures": ("FuturesPricer", futures),
        "VanillaOption": ("OptionAnalyticPricer", dict(
            evaluation_date=date, market_price=look("equities", und0), discount_curve=curve(role("get_discount_curve_name")),
            volatility=look("underlying_volatilities", und0), quanto=quanto, **{"futures_helper." + k: o for k, o in futures.items()})),
        "KTBF": ("KtbfPricer", dict(evaluation_date=date, discount_curve=curve(mk("str", "KRWGOV")), borrowing_curve=curve(first("get_collateral_curve_names")))),
        "FxFutures": ("FxFuturesPricer", dict(fx=look("fxs", D(got(r, "get_fxfutres_und_fxcode", x))), underlying_currency_curve=curve(role("get_floating_crs_curve_name")),
                                              futures_currency_curve=curve(role("get_crs_curve_name")))),
        "PlainSwap": ("PlainSwapPricer", dict(
            evaluation_date=date, fixed_leg_discount_curve=curve(role("get_crs_curve_name")), floating_leg_discount_curve=curve(role("get_floating_crs_curve_name")),
            forward_curve=fwd, past_fixing_data=past, floating_to_fixed_fx=opt(SOME(fxc), look("fxs", D(V(fxc, 1)))))),
        "Stock": ("IdentityPricer", dict(market_price=look("equities", D(got(r, "get_code", x))))),
        "Cash": ("UnitPricer", {}),
    }
    names = [z["name"] for z in q.adt("pricing_engines::pricer::Pricer")["variants"]]
    ck.count("kinds of instrument", len(want))
    for kind, (pricer, slots) in want.items():
        care = i(kind)
        k = names.index(pricer)
        due = analytic if kind == "VanillaOption" else TRUE
        for slot, (d, obj) in slots.items():
            due = b_and(due, d)
            for h, y in cases(v):
                h = b_valid(b_and(b_and(h, g), care))
                if h == FALSE:
                    continue
                if not ck.ob(kind + ":pricer", y.op == "agg" and y.a[1] == k, "priced by another model when " + b_show(h)[:200]):
                    continue
                z = F(V(y, k), *slot.split("."))
                w = differ(z, obj, b_and(h, d))
                ck.ob(f"{kind}:{slot}", w is None, f"{w}"[:800])
        miss = b_and(care, b_and(due, b_not(g)))
        ck.ob(kind + ":answers", never(miss), "refused although everything needed is there, when " + b_show(b_valid(miss))[:400])
        more_ = b_and(care, b_and(g, b_not(due)))
        ck.ob(kind + ":refuses", never(more_), "a pricer is made although something it needs is missing, when " + b_show(b_valid(more_))[:400])
    other = i("BondFutures")
    ck.ob("BondFutures:refuses", never(b_and(g, other)), "a pricer is made for a kind without a model")


FEEDS = {"evaluation_date": "evaluation_date", "fxs": "fxs", "equities": "equities", "zero_curves": "zero_curves",
         "underlying_volatilities": "volatilities", "quantos": "quantos", "past_close_data": "past_daily_close_prices",
         "match_parameter": "match_parameter", "calculation_configuration": "calculation_configuration"}


def handed_over(ck, q):
    """the factory works on the engine's own market; every instrument's pricer is filed under its code"""
    path = "pricing_engines::engine::Engine::initialize_pricers"
    ck.fn(path)
    r = run(q, path, total=(PF + "create_pricer",), opaque=(PF + "create_pricer", TRAIT + "get_code", TRAIT + "get_type_name"))
    g, _ = ok_part(r)
    src = F(F(D(S), "instruments"), "instruments")
    es = [e for e in r.events if e.kind == "map_insert" and e.loops]
    if not ck.ob("pricers:one", len(es) == 1 and len(es[0].loops) == 1 and es[0].loops[0].src is src, "the pricers are not made in one walk over the instruments"):
        return
    e = es[0]
    c = e.loops[0]
    inst = at(src)
    k, v = e.args[1], e.args[2]
    code = D(got(r, "get_code", D(inst)))
    w = differ(D(k) if k.op == "ref" else k, code, e.guard)
    ck.ob("pricers:code", w is None, f"filed under another code: {w}")
    m = differ(e.args[0], e.args[0])
    ck.ob("pricers:kept", F(final(r, S), "pricers") is not None and e.args[0].op == "ref" and e.args[0].a[1][-1] == ("f", "pricers"), "filed elsewhere than among the engine's pricers")
    made = [y for _, x in cases(v) for y in walk(x) if y.op == "call" and y.a[0].endswith("create_pricer")]
    if ck.ob("pricers:made", len(cases(v)) == 1 and cases(v)[0][1] in made, "what is filed is not the pricer made for it: " + str(show(v))[:200]):
        y = cases(v)[0][1]
        fac = y.a[1]
        fac = D(fac) if fac.op == "ref" else fac
        w = differ(peel(y.a[2]), peel(inst), e.guard)
        ck.ob("pricers:whose", w is None, f"made for another instrument: {w}")
        for f, mine in FEEDS.items():
            w = differ(F(fac, f), F(D(S), mine), e.guard)
            ck.ob("pricers:" + f, w is None, f"{w}"[:400])
    miss = b_and(b_and(c.backguard, g), b_not(e.guard))
    ck.ob("pricers:every", never(miss), "an instrument is left without a pricer when " + b_show(b_valid(miss))[:300])
    for _, x in c.exits:
        x = b_and(b_and(x, g), lit(mk("more", src, 0)))
        ck.ob("pricers:all", never(x), "the walk ends early, when " + b_show(b_valid(x))[:300])


def peel(x):
    while x.op in ("ref", "deref"):
        x = D(x) if x.op == "ref" else x.a[0]
    return x


def Q06(ck, q, t, meta):
    """For every kind of instrument the pricer made is the model for that kind, and each market object in it (price, curve,
    volatility, quanto, fixings, exchange rate) is the one filed under the key the instrument's own role, underlying,
    currency pair or rate index gives; a pricer is made exactly where all of them exist.
    The engine hands its own market to the factory and files every instrument's pricer under the instrument's code."""
    pricers(ck, q)
    handed_over(ck, q)
