"""Sensitivities of the engine: the market is left as found, and every figure is the scaled difference of revaluations."""
from spec import *
import models
from interp import Interp, length
from checks.market import fields_of

S = arg("self")
E = "pricing_engines::engine::Engine::"
PRICER = "<pricing_engines::pricer::Pricer as pricing_engines::pricer::PricerTrait>::"
CRES = "pricing_engines::calculation_result::CalculationResult::"
INST = "instruments::instrument::Instruments::"
MKT = mk("obj", mk("name", "market"))
M0 = default(MKT)
GETTERS = ("get_code", "get_unit_notional", "get_type_name")
CHOICE = ("get_all_curve_names", "instruments_using_curve", "instruments_with_underlying", "instruments_with_types",
          "instruments_with_maturity_upto", "instruments_with_maturity_over", "get_all_underlying_codes", "get_longest_maturity",
          "get_shortest_maturity")
PER = ("string_arithmetic::add_period", "get_time_difference")
SETTERS = ("set_single_delta", "set_single_gamma", "set_single_vega", "set_single_rho", "set_single_div_delta", "set_single_vega_structure",
           "set_single_rho_structure", "set_single_div_structure", "set_single_vega_matrix", "set_theta", "set_npv", "set_cashflows",
           "set_fx_exposure", "set_value")


# ------------------------------------------------------- the market as a value
def items(m):
    return (m.a[0], dict(m.a[1])) if m.op == "mkt" else (m, {})


def market(base, d):
    d = {k: v for k, v in d.items() if v is not None}
    return mk("mkt", base, tuple(sorted(d.items(), key=lambda kv: str(kv[0])))) if d else base


def moved(m, key, by):
    """`by` added to what `key` names"""
    def f(m, key, by):
        base, d = items(m)
        v = add(d[key], by) if key in d else by
        d[key] = None if v is ZERO else v
        return market(base, d)
    return lift(lambda m, key: f(m, key, by), m, key)


def price(m, recv):
    def f(m, recv):
        base, d = items(m)
        k = mk("mkey", "price", recv)
        return d[k] if k in d else mk("price", base, recv)
    return lift(f, m, recv)


def priced(m, recv, v):
    def f(m, recv, v):
        base, d = items(m)
        k = mk("mkey", "price", recv)
        d[k] = None if v is mk("price", base, recv) else v
        return market(base, d)
    return lift(f, m, recv, v)


def dated(m, now, v):
    def f(m, v):
        base, d = items(m)
        k = mk("mkey", "date")
        d[k] = None if v is now else v
        return market(base, d)
    return lift(f, m, v)


def bump_model(kind):
    def f(c, s):
        recv = c.args[0]
        iv = [c.ip.snapshot(s, a, t, c.fr) for a, t in zip(c.args[1:-1], c.atys[1:-1])]
        c.ip.event("call", c.nm, list(c.args), s, c.span, c.fr, res=UNIT, info=c)
        key = lift(lambda x: mk("mkey", kind, x, *iv), recv)
        c.ip.write(s, MKT, (), moved(c.ip.read(s, MKT, ()), key, c.args[-1]))
        return ok(UNIT)
    return f


def m_set_price(c, s):
    c.ip.event("call", c.nm, list(c.args), s, c.span, c.fr, res=UNIT, info=c)
    c.ip.write(s, MKT, (), priced(c.ip.read(s, MKT, ()), c.args[0], c.peel(s, 1)))
    return UNIT


def m_get_price(c, s):
    return price(c.ip.read(s, MKT, ()), c.args[0])


def arith(fn):
    def f(c, s):
        c.ip.event("call", c.nm, list(c.args), s, c.span, c.fr, res=UNIT, info=c)
        m = c.ip.read(s, MKT, ())
        c.ip.write(s, MKT, (), priced(m, c.args[0], fn(price(m, c.args[0]), c.peel(s, 1))))
        return UNIT
    return f


NOW = F(cell(F(D(S), "evaluation_date")), "date")


def m_set_date(c, s):
    c.ip.event("call", c.nm, list(c.args), s, c.span, c.fr, res=UNIT, info=c)
    c.ip.write(s, MKT, (), dated(c.ip.read(s, MKT, ()), NOW, c.args[1]))
    c.ip.store(s, ref_field(c.args[0], "date"), c.args[1])
    return UNIT


def ref_field(r, name):
    return lift(lambda x: mk("ref", x.a[0], x.a[1] + (("f", name),)) if x.op == "ref" else mk("ref", mk("obj", x), (("f", name),)), r)


def m_npvs(c, s):
    me = c.args[0]
    insts = c.ip.load(s, ref_field(me, "instruments_in_action"))
    r = lift(lambda i, m: mk("call", "npvs", i, m), insts, c.ip.read(s, MKT, ()))
    c.ip.event("call", c.nm, [me, r], s, c.span, c.fr, res=r, info=c)
    return ok(r)


def m_pricer(c, s):
    """what a pricer says depends on the market as it is"""
    r = lift(lambda me, m, *a: mk("call", c.nm.split("::")[-1], me, m, *a), c.peel(s, 0), c.ip.read(s, MKT, ()), *[c.ip.snapshot(s, a, t, c.fr) for a, t in zip(c.args[1:], c.atys[1:])])
    c.ip.event("call", c.nm, list(c.args), s, c.span, c.fr, res=r, info=c)
    return ok(r)


def m_note(c, s):
    """a result is recorded: an event and nothing else"""
    c.ip.event("call", c.nm, [c.args[0]] + [c.ip.snapshot(s, a, t, c.fr) for a, t in zip(c.args[1:], c.atys[1:])], s, c.span, c.fr, res=UNIT, info=c)
    return ok(UNIT) if c.nm.endswith("set_value") else UNIT


def m_try(c, s):
    """only what happens as long as nothing fails"""
    v = c.args[0]
    i = 1 if c.aty(0).get("def") == OPTION else 0
    s.g = b_and(s.g, c.ip.variant(v, i))
    return mk("agg", models.CFLOW, 0, (("0", under(c.ip.payload(v, i), s.g)),))


MP = "parameters::market_price::MarketPrice"
MODELS = {
    "parameters::zero_curve::ZeroCurve::bump_time_interval": bump_model("curve"),
    "parameters::volatility::Volatility::bump_volatility": bump_model("volatility"),
    "parameters::discrete_ratio_dividend::DiscreteRatioDividend::bump_date_interval": bump_model("dividend"),
    MP + "::set_price": m_set_price,
    MP + "::get_value": m_get_price,
    f"<{MP} as std::ops::MulAssign<f32>>::mul_assign": arith(mul),
    f"<{MP} as std::ops::DivAssign<f32>>::div_assign": arith(div),
    f"<{MP} as std::ops::AddAssign<f32>>::add_assign": arith(add),
    f"<{MP} as std::ops::SubAssign<f32>>::sub_assign": arith(sub),
    "evaluation_date::EvaluationDate::set_date": m_set_date,
    E + "get_npvs": m_npvs,
    PRICER + "npv": m_pricer,
    PRICER + "npv_result": m_pricer,
    PRICER + "fx_exposure": m_pricer,
    "std::ops::Try::branch": m_try,
}
for n in SETTERS:
    MODELS[CRES + n] = m_note


def interval(a, b, src, ix):
    """(a, b] runs over a partition as ix runs over src"""
    if not (b.op == "agg" and b.a[0] == OPTION and b.a[1] == 1):
        return False
    y = dict(b.a[2])["0"]
    if not contains(y, lambda z: z is ix):
        return False
    prev = some(before_el(y, ix))
    w = ite((eq(ix, ZERO), NONE), (b_not(eq(ix, ZERO)), prev))
    return differ(a, w, lit(mk("more", *ix.a))) is None


def some(x):
    return mk("agg", OPTION, 1, (("0", x),))


def before_el(y, ix):
    """y, an expression over the element at ix, for the element before"""
    def f(z):
        if z.op == "prj" and z.a[1][0] in ("at", "idx") and z.a[1][1] is ix:
            return project(z.a[0], ("idx", sub(ix, ONE)))
    return subst(y, f)


def close_market(ctx, m, init, nxt, backg, care):
    """bumps of every interval of a partition, one per pass, are one bump of everything"""
    if m.op != "mu" or m.a[1] is not MKT:
        return NotImplemented
    xs = [x for g, x in cases(nxt) if not never(b_and(g, b_and(backg, care)))]
    if len(xs) == 1 and xs[0] is m:
        return init
    if len(xs) != 1 or xs[0].op != "mkt" or xs[0].a[0] is not m or ctx.src is None:
        return None
    out = init
    for k, v in xs[0].a[1]:
        if k.a[0] not in ("curve", "volatility", "dividend") or contains(v, lambda z: z is ctx.ix):
            return None
        iv = list(k.a[2:])
        hit = [i for i in range(0, len(iv), 2) if contains(mk("tuple", *iv[i:i + 2]), lambda z: z is ctx.ix)]
        if len(hit) != 1 or contains(k.a[1], lambda z: z is ctx.ix) or not interval(iv[hit[0]], iv[hit[0] + 1], ctx.src, ctx.ix):
            return None
        iv[hit[0]] = iv[hit[0] + 1] = NONE
        out = moved(out, mk("mkey", k.a[0], k.a[1], *iv), v)
    return out


def go(q, fn, total=(), **kw):
    return run(q, E + fn, PER + tuple(total), GETTERS + CHOICE, models=MODELS, closers=(close_market,), **kw)


# ---------------------------------------------------------------------- Q01
STEPS = ("set_npv_results", "set_values", "set_cashflow_inbetween", "set_fx_exposures", "preprocess_delta_gamma", "set_delta_gamma", "set_vega",
         "set_rho", "set_div_delta", "preprocess_theta", "set_theta_for_given_instruments", "set_vega_structure", "set_rho_structure",
         "set_div_structure", "set_vega_matrix")
MOVES = ("store", "lstore", "push", "push_front", "extend", "clear", "pop", "pop_back", "pop_front", "remove_at", "map_insert", "map_remove", "havoc")


def foreign(e):
    """what a write event writes to, unless it is the engine's working set or something made in this run"""
    for _, a in cases(e.args[0]):
        root, path = (a.a[0], a.a[1]) if a.op == "ref" else (a, ())
        if root.op in ("var", "loc", "uniq", "boxuninit") or contains(root, lambda z: z.op in ("boxuninit", "uniq")):
            continue
        if root is mk("obj", S) and path[:1] == (("f", "instruments_in_action"),):
            continue
        return a
    return None


def m_step(c, s):
    c.ip.event("call", c.nm, [c.args[0]] + [c.ip.snapshot(s, a, t, c.fr) for a, t in zip(c.args[1:], c.atys[1:])], s, c.span, c.fr, res=UNIT, info=c)
    return ok(UNIT)


def conduct(q):
    """calculate(), its steps as single events"""
    m = dict(MODELS)
    m.update({E + n: m_step for n in STEPS})
    return run(q, E + "calculate", PER, GETTERS + CHOICE, models=m, closers=(close_market,))


def Q01(ck, q, t, meta):
    """The market the pricers share (prices, zero curves, volatilities, dividends, evaluation date) is one ghost value; bumping, setting and
    scaling it are its only transitions, equal and opposite moves cancel, and one bump of each interval of a partition (one per
    pass) is one bump of the whole.  For every step of a calculation the value on every successful exit must be the value at
    entry; no write may reach the market, or a field of the engine other than its working set and results, past those
    transitions; calculate() must do nothing to it between the steps; and the transitions of a price must store exactly what they are told."""
    fields = fields_of(q, "pricing_engines::engine::Engine")
    for n in STEPS + ("calculate",):
        p = E + n
        ck.fn(p)
        r = conduct(q) if n == "calculate" else go(q, n)
        g, _ = ok_part(r)
        m = differ(r.ip.read(r.state, MKT, ()), M0, g)
        ck.ob(n + ":market", m is None, f"the market is not what it was before: {m}", p)
        m = differ(r.ip.load(r.state, mk("ref", mk("obj", F(D(S), "evaluation_date")), (("cell",), ("f", "date")))), NOW, g)
        ck.ob(n + ":date", m is None, f"the evaluation date is not what it was before: {m}", p)
        for f in fields:
            if f != "instruments_in_action":
                m = differ(final(r, S, f), F(D(S), f), g)
                ck.ob(f"{n}:keeps-{f}", m is None, f"{f} is changed: {m}", p)
        for e in r.events:
            if e.kind in MOVES:
                ck.count("writes")
                x = foreign(e)
                ck.ob(f"{n}:write:{e.seq}", x is None, f"{e.kind} writes past the market's own operations: {str(show(x))[:200] if x else ''}", p)
            elif e.kind == "call" and e.name in MODELS:
                ck.count("market moves and results")
    v = F(D(S), "value")
    for n, a, want in (("set_price", "price", lambda x: x), ("mul_assign", "rhs", lambda x: mul(v, x)), ("div_assign", "rhs", lambda x: div(v, x)),
                       ("add_assign", "rhs", lambda x: add(v, x)), ("sub_assign", "rhs", lambda x: sub(v, x))):
        p = MP + "::" + n if n == "set_price" else f"<{MP} as std::ops::{n.split('_')[0].title()}Assign<f32>>::{n}"
        ck.fn(p)
        r = run(q, p)
        m = differ(final(r, S, "value"), want(arg(a)), r.g)
        ck.ob(f"MarketPrice::{n}:value", m is None, f"the price becomes something else: {m}", p)
        for f in fields_of(q, MP):
            if f != "value":
                m = differ(final(r, S, f), F(D(S), f), r.g)
                ck.ob(f"MarketPrice::{n}:keeps-{f}", m is None, f"{f} is changed: {m}", p)
    p = MP + "::get_value"
    ck.fn(p)
    r = run(q, p)
    ck.ob("MarketPrice::get_value", differ(r.ret, v, r.g) is None, "the price read is not the price stored", p)
    ck.floor("market moves and results", 20)


# ---------------------------------------------------------------------- Q02
CC = D(F(D(S), "calculation_configuration"))
RES = F(D(S), "calculation_results")
INSTS = F(D(S), "instruments")
TD = "time::calendar_trait::CalendarTrait::get_time_difference"
PERIOD = "utils::string_arithmetic::add_period"
UNITS = {"delta": Fraction(1, 100), "gamma": Fraction(1, 100), "vega": Fraction(1, 100), "rho": Fraction(1, 10000), "div": Fraction(1, 10000)}
NOSPOT, NOVOL, NORATE = {"Stock", "Futures"}, {"Stock", "Futures", "Cash"}, {"Stock", "Cash"}


def named(x, tail):
    return x.op == "call" and x.a[0].split("::")[-1] == tail


def in_cell(owner, key=None, inner=None):
    """&mut to what the Rc<RefCell> kept under key holds"""
    x = project(owner, ("key", key))
    return mk("ref", mk("obj", V(x, 1) if inner else x), (("cell",),))


def result_of(code):
    return mk("ref", mk("obj", S), (("f", "calculation_results"), ("key", code), ("cell",)))


def stored(code):
    return F(V(F(project(project(RES, ("key", code)), ("cell",)), "npv_result"), 1), "npv")


def getter(x, name, inst):
    """the opaque call of inst's getter as it occurs in x"""
    for y in walk(x):
        if named(y, name) and y.a[1:] == (inst,):
            return y
    return mk("call", "::" + name, inst)


def excluded(x):
    """the constant strings of Some([..])"""
    return {y.a[0] for y in walk(x) if y.op == "str" or y.op == "const" and isinstance(y.a[0], str)}


class Step:
    """one risk step: what it walks over, what it moves"""

    def __init__(self, ck, q, fn, kind, no):
        self.ck, self.fn, self.kind, self.no = ck, fn, kind, no
        self.p = E + fn
        ck.fn(self.p)
        self.r = go(q, fn)
        self.g, _ = ok_part(self.r)
        self.sets = [e for e in self.r.events if e.kind == "call" and e.name.split("::")[-1] in SETTERS]

    def ob(self, key, okk, msg):
        return self.ck.ob(f"{self.fn}:{key}", okk, msg, self.p)

    def outer(self, ctx):
        """the thing bumped in this pass, or None"""
        src, m = ctx.src, F(D(S), "match_parameter")
        if src is None:
            return None
        if self.kind == "curve":
            c = [y for y in walk(src) if named(y, "get_all_curve_names")]
            return D(at(src)) if c and src is V(c[0], 0) and c[0].a[1] is INSTS else None
        if named(src, "get_all_underlying_codes") and src.a[1] is INSTS:
            return D(at(src))
        if self.kind == "dividend" and src is F(D(S), "dividends"):
            return keyat(src)
        return None

    def group(self, insts, key):
        """insts is what depends on key, except types that do not"""
        c = [y for y in walk(insts) if named(y, "instruments_using_curve" if self.kind == "curve" else "instruments_with_underlying")]
        c = [y for y in c if insts is (V(y, 0) if self.kind == "curve" else y)]
        if not c or c[0].a[1] is not INSTS or c[0].a[2] is not key:
            return "the instruments revalued are not those depending on what is bumped"
        self.excl = excluded(c[0].a[-1])
        return None if self.excl <= self.no else f"instruments of type {', '.join(sorted(self.excl - self.no))} are left out"

    def recv(self, key):
        if self.kind == "dividend":
            return in_cell(F(D(S), "dividends"), key, True)
        return in_cell(F(D(S), {"curve": "zero_curves", "volatility": "volatilities", "price": "equities"}[self.kind]), key)

    def covered(self, tag, loops, guard, skip=lambda c: FALSE, leave=lambda c: FALSE):
        """every completed pass of every loop leads on, except under skip(c); no loop ends early except under leave(c)"""
        for i, c in enumerate(loops):
            inner = loops[i + 1].hguard if i + 1 < len(loops) else guard
            miss = b_and(b_and(c.backguard, self.g), b_and(b_not(inner), b_not(skip(i))))
            self.ob(f"{tag}:covers-{i}", never(miss), "a pass goes by without a figure, when " + b_show(b_valid(miss))[:300])
            for _, x in c.exits:
                x = b_and(b_and(x, lit(mk("more", c.src, 0))), b_not(leave(i))) if c.src is not None else x
                self.ob(f"{tag}:all-{i}", never(b_and(x, self.g)), "the walk ends early, when " + b_show(b_valid(x))[:300])

    def record(self, e, name):
        """the setter call's receiver and key; (key, insts, inst, code) if it is one over underlying x instrument"""
        if not self.ob(name + ":loops", len(e.loops) == 2, f"recorded within {len(e.loops)} loops where 2 are expected"):
            return None
        key = self.outer(e.loops[0])
        if not self.ob(name + ":over", key is not None, "the walk is not over everything that can be bumped"):
            return None
        insts = e.loops[1].src
        m = self.group(insts, key)
        self.ob(name + ":group", m is None, m or "")
        inst = D(at(insts))
        code = D(getter(mk("tuple", *e.args), "get_code", inst))
        m = differ(e.args[0], result_of(code), e.guard)
        self.ob(name + ":result", m is None, f"recorded in the result of another instrument: {m}")
        m = differ(e.args[1], key, e.guard)
        self.ob(name + ":key", m is None, f"recorded under another key: {m}")
        self.covered(name, e.loops, e.guard, lambda i: len_is_0(insts) if i == 0 else FALSE)
        return key, insts, inst, code


def len_is_0(x):
    return eq(length(x), ZERO)


def npv_in(insts, m, code):
    return project(mk("call", "npvs", insts, m), ("key", code))


def one_event(st, name):
    es = [e for e in st.sets if e.name.endswith("::" + name)]
    if st.ob(name + ":once", len(es) == 1, f"{len(es)} places record it where one is expected"):
        return es[0]
    return None


def bump_of(kind, recv, by, *iv):
    return moved(M0, mk("mkey", kind, recv, *iv), by)


def flat(ck, q, fn, kind, setter, field, unit, no):
    """figure = (revalued with the whole thing bumped - stored) / bump, per unit"""
    st = Step(ck, q, fn, kind, no)
    e = one_event(st, setter)
    x = e and st.record(e, setter)
    if not x:
        return st
    key, insts, inst, code = x
    bump = F(CC, field)
    up = bump_of(kind, st.recv(key), bump, *[NONE] * (4 if kind == "volatility" else 2))
    un = getter(e.args[2], "get_unit_notional", inst)
    want = mul(mul(div(sub(npv_in(insts, up, code), stored(code)), bump), num(unit)), un)
    m = differ(e.args[2], want, e.guard)
    st.ob(setter + ":value", m is None, f"another figure is recorded: {m}")
    return st


def delta_gamma(ck, q):
    st = Step(ck, q, "set_delta_gamma", "price", NOSPOT)
    for setter in ("set_single_delta", "set_single_gamma"):
        e = one_event(st, setter)
        x = e and st.record(e, setter)
        if not x:
            continue
        key, insts, inst, code = x
        h, u = F(CC, "delta_bump_ratio"), num(UNITS["delta"])
        p0 = price(M0, st.recv(key))
        at_ = lambda f: npv_in(insts, priced(M0, st.recv(key), mul(p0, f)), code)
        up, down = at_(add(ONE, h)), at_(sub(ONE, h))
        un = getter(e.args[2], "get_unit_notional", inst)
        if setter == "set_single_delta":
            want = mul(mul(div(sub(up, down), mul(num(2), h)), u), un)
        else:
            k = div(u, h)
            want = mul(mul(sub(add(up, down), mul(num(2), stored(code))), mul(num(Fraction(1, 2)), mul(k, k))), un)
        m = differ(e.args[2], want, e.guard)
        st.ob(setter + ":value", m is None, f"another figure is recorded: {m}")
    pre = Step(ck, q, "preprocess_delta_gamma", "price", NOSPOT)
    for setter in ("set_single_delta", "set_single_gamma"):
        e = one_event(pre, setter)
        if not e or not pre.ob(setter + ":loops", len(e.loops) == 1, "not recorded once per instrument"):
            continue
        insts = e.loops[0].src
        types = excluded(insts.a[-1]) if named(insts, "instruments_with_types") and insts.a[1] is INSTS else set()
        pre.ob(setter + ":types", getattr(st, "excl", set()) <= types <= NOSPOT, f"the instruments valued directly ({', '.join(sorted(types))}) are not those the revaluation leaves out")
        inst = D(at(insts))
        code = D(getter(mk("tuple", *e.args), "get_code", inst))
        m = differ(e.args[0], result_of(code), e.guard)
        pre.ob(setter + ":result", m is None, f"recorded in the result of another instrument: {m}")
        m = differ(e.args[1], code, e.guard)
        pre.ob(setter + ":key", m is None, f"recorded under another key: {m}")
        un = getter(e.args[2], "get_unit_notional", inst)
        want = mul(mul(stored(code), num(UNITS["delta"])), un) if setter == "set_single_delta" else ZERO
        m = differ(e.args[2], want, e.guard)
        pre.ob(setter + ":value", m is None, f"another figure is recorded: {m}")
        pre.covered(setter, e.loops, e.guard)


def at_index(x, loops):
    """the tenor (and moneyness) a write goes to are those of this pass"""
    want = [mk("ix", c.src, 0) for c in loops]
    kind, v = x
    got = [y for _, y in v.a[2]] if hasattr(v, "op") and v.op == "agg" else [v]
    return kind in ("idx", "at") and got == want


def feeds(mus, ctxs):
    """every loop-carried value the given ones are made from"""
    seen, todo = [], list(mus)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.append(x)
        for c in ctxs:
            for d in (c.init, c.next, c.end, c.after):
                if x in d and d[x] is not None:
                    todo += [y for y in walk(d[x]) if y.op == "mu" and y.a[1] is x.a[1]]
    return seen


def structure(ck, q, fn, kind, setter, field, unit, no, axes, laddered):
    """figures by interval: one cell per pass, from the interval that pass bumps"""
    st = Step(ck, q, fn, kind, no)
    rec = one_event(st, setter)
    if not rec or not st.ob("loops", len(rec.loops) >= 2, "the figures are not recorded per underlying and instrument"):
        return
    T = rec.loops[-1].src
    roots = {x.a[1] for _, x in cases(T) if x.op == "mu"} if T is not None else set()
    if not st.ob("table", len(roots) == 1, "the figures recorded are not those of one table"):
        return
    root = roots.pop()
    carried = lambda x: next((y for y in walk(x) if y.op == "mu" and y.a[1] is root), None)
    writes = [e for e in st.r.events if e.kind == "lstore" and carried(e.args[2]) is not None]
    if not st.ob("writes", len(writes) == 1, f"{len(writes)} places fill the table where one is expected"):
        return
    e = writes[0]
    if not st.ob("nest", len(e.loops) == 2 + len(axes), f"a cell is filled within {len(e.loops)} loops where {2 + len(axes)} are expected"):
        return
    key = st.outer(e.loops[0])
    if not st.ob("over", key is not None and rec.loops[0] is e.loops[0], "the walk is not over everything that can be bumped"):
        return
    ladder = e.loops[1:-1]
    for c, (name, _) in zip(ladder, axes):
        src = c.src.a[0] if c.src is not None and c.src.op == "revsrc" else c.src
        st.ob("axis-" + name, src is F(CC, name), f"the intervals are not those of {name}")
    insts = e.loops[-1].src
    m = st.group(insts, key)
    st.ob("group", m is None, m or "")
    inst = D(at(insts))
    code = D(getter(mk("tuple", *e.args, D(e.args[0])), "get_code", inst))
    # ---- the cell
    path = e.args[0].a[1] if e.args[0].op == "ref" else ()
    okk = len(path) == 2 and path[0][0] == "key" and differ(path[0][1], code, e.guard) is None and at_index(path[1], ladder)
    st.ob("cell", okk, f"the figure goes to another cell: {str(show(e.args[0]))[-300:]}")
    # ---- the market it is valued in
    ms = {x for x in walk(e.args[1]) if x.op == "call" and x.a[0] == "npvs" and x.a[1] is insts}
    mk_ = [x.a[2] for x in ms if x.a[2].op == "mkt"]
    if not st.ob("bumped", len(mk_) == 1, f"{len(mk_)} bumped markets enter a figure where one is expected"):
        return
    m = mk_[0]
    bump, moves = F(CC, field), list(m.a[1])
    okk = len(moves) == 1 and moves[0][0].a[0] == kind and moves[0][0].a[1] is st.recv(key) and differ(moves[0][1], bump, e.guard) is None
    if not st.ob("bump", okk, f"what is bumped is something else: {str(show(m))[:300]}"):
        return
    iv = moves[0][0].a[2:]
    for i, (c, (name, shape)) in enumerate(zip(ladder, axes)):
        ix = mk("ix", c.src, 0)
        okk = interval(iv[2 * i], iv[2 * i + 1], c.src, ix) and ends(dict(iv[2 * i + 1].a[2])["0"], shape, name, c.src)
        st.ob("interval-" + name, okk, f"the interval bumped is not the one ending at this {name}: {str(show(iv[2 * i + 1]))[:300]}")
    st.ob("interval-rest", all(x is NONE for x in iv[2 * len(axes):]), "only a part of the other direction is bumped")
    # ---- the figure
    if laddered:
        prev = [x for x in walk(e.args[1]) if x.op == "prj" and x.a[1] == ("key", code) and x.a[0].op == "mu" and x.a[0].a[1] is not root]
        prev = list(dict.fromkeys(prev))
        if not st.ob("previous", len(prev) == 1, "the figure is not a difference to the valuation before this bump"):
            return
        base = prev[0]
        induct(st, ladder, base.a[0], m, insts, e)
    else:
        st.ob("base", m.a[0] is M0, "the bump comes on top of another market: " + str(show(m.a[0]))[:200])
        base = stored(code)
    un = getter(e.args[1], "get_unit_notional", inst)
    want = mul(mul(div(sub(npv_in(insts, m, code), base), bump), num(unit)), un)
    d = differ(e.args[1], want, e.guard)
    st.ob("value", d is None, f"another figure is recorded: {d}")
    # ---- every cell, and nothing but this pass's
    first = ladder[0]

    def skip(i, loops):
        c = loops[i]
        if i == 0:
            return len_is_0(insts)
        if laddered and c in ladder:
            return beyond(st, bool_t(e.guard), insts, iv, mk("ix", first.src, 0))
        return FALSE

    def leave(i, loops):
        c = loops[i]
        if laddered or c not in ladder:
            return FALSE
        return nothing_over(c, insts, axes[0][0], no)

    st.covered("cells", e.loops, e.guard, lambda i: skip(i, e.loops), lambda i: leave(i, e.loops))
    st.covered("records", rec.loops, rec.guard, lambda i: skip(i, rec.loops), lambda i: leave(i, rec.loops))
    st.ob("records:after", rec.seq > e.seq, "the table is recorded before it is filled")
    old = [x for x in feeds([y for _, y in cases(T) if y.op == "mu"], list(dict.fromkeys(c for v in st.r.events for c in v.loops))) if x in rec.loops[0].init]
    st.ob("fresh", not old, "the table still holds what an earlier pass put there for something else")
    # ---- the record
    ix = mk("ix", T, 0)
    d = differ(rec.args[0], result_of(mk("mapkey", T, ix)), rec.guard)
    st.ob("record:result", d is None, f"recorded in the result of another instrument: {d}")
    d = differ(rec.args[1], key, rec.guard)
    st.ob("record:key", d is None, f"recorded under another key: {d}")
    d = differ(rec.args[2], project(T, ("at", ix)), rec.guard)
    st.ob("record:value", d is None, f"something else than the instrument's row is recorded: {d}")


def ends(y, shape, name, src):
    """y is the end of the interval at the element of src: itself, its date from today, or its time from today"""
    el_ = project(src.a[0] if src.op == "revsrc" else src, ("at", mk("ix", src, 0)))
    if shape:
        p = [z for z in walk(y) if named(z, "add_period")]
        if len(p) != 1 or p[0].a[1] is not NOW or strip(p[0].a[2]) is not strip(el_):
            return False
        if shape == "date":
            return strip(y) is p[0]
        return named(y, "get_time_difference") and y.a[-2] is NOW and strip(y.a[-1]) is p[0]
    return strip(y) is strip(el_)


def strip(x):
    while x.op == "deref" or x.op == "ref" and not x.a[1] and x.a[0].op == "const":
        x = x.a[0]
    return x


def induct(st, ladder, P, m, insts, e):
    """entering every pass, P holds the valuations in the market as it is"""
    now = mk("call", "npvs", insts, m)
    outer_p, outer_m = None, M0
    for i, c in enumerate(ladder):
        p, k = carry(c, P), c.mus.get((MKT, ()))
        if not st.ob(f"ladder-{i}", p is not None and k is not None, "the valuations compared to are not carried along with the bumps"):
            return
        st.ob(f"ladder-{i}:market", c.init[k] is outer_m, "the first bump does not start from the market of the recorded valuation")
        if outer_p is None:
            st.ob(f"ladder-{i}:start", initial(st, c.init[p]), "the first valuation compared to is not the recorded one: " + str(show(c.init[p]))[:200])
        else:
            st.ob(f"ladder-{i}:start", c.init[p] is outer_p, "the valuation compared to starts over")
        outer_p, outer_m = p, k
    c, p, k = ladder[-1], outer_p, outer_m
    st.ob("ladder:previous", p is P and m.a[0] is k, "the figure is not a difference to the valuation before this bump")
    for g, x in cases(c.next[k]):
        st.ob("ladder:bumps", x is m or never(b_and(g, b_and(c.backguard, st.g))), "a pass moves the market in another way: " + str(show(x))[:200])
    for g, x in cases(c.next[p]):
        g = b_and(b_and(g, c.backguard), st.g)
        if x is now:
            continue
        if x is p:
            g = b_and(g, e.loops[-1].hguard)
        st.ob("ladder:carried", never(g), "the next figure is compared to another valuation: " + str(show(x))[:200])
    for a, b in zip(ladder, ladder[1:]):
        for g, x in cases(a.next[carry(a, P)]):
            st.ob("ladder:back", x is carry(b, P) or never(b_and(g, b_and(a.backguard, st.g))), "the valuation compared to is not handed on")


def carry(c, P):
    """loop c's value of what P is in another loop"""
    return next((x for x in c.mus.values() if x.op == "mu" and x.a[1:] == P.a[1:]), None)


def initial(st, x):
    """x is the map of the recorded valuations"""
    if x.op != "mu":
        return False
    ws = [e for e in st.r.events if e.kind in ("map_insert", "map_remove", "lstore") and any(y is x for y in walk(e.args[-1]))]
    return len(ws) == 1 and ws[0].kind == "map_insert" and ws[0].args[3] is x and differ(ws[0].args[2], stored(ws[0].args[1]), ws[0].guard) is None \
        and len(ws[0].loops) == 2 and ws[0].loops[-1].init.get(x) is mk("emptymap")


def beyond(st, t, insts, iv, ix):
    """the interval starts after the longest maturity of the group"""
    for y in walk(t):
        if named(y, "get_longest_maturity") and y.a[1] is INSTS and contains(y.a[2], lambda z: z is insts):
            for d in walk(t):
                if named(d, "get_time_difference") and d.a[-2] is NOW and strip(d.a[-1]) is V(y, 1):
                    start = before_el(dict(iv[1].a[2])["0"], ix)
                    return b_and(b_not(eq(ix, ZERO)), b_or(b_not(SOME(y)), cmp("Lt", d, start)))
    return FALSE


def nothing_over(c, insts, name, no):
    """nothing in the group matures after the end of the interval"""
    g = FALSE
    for _, x in c.exits:
        for y in walk(bool_t(x)):
            if named(y, "instruments_with_maturity_over") and y.a[1] is INSTS and y.a[2].op == "agg" and strip(dict(y.a[2].a[2]).get("0", NONE)) is insts \
                    and ends(strip(y.a[3]), "date", name, c.src) and excluded(y.a[4]) <= no:
                g = b_or(g, len_is_0(y))
    return g


def theta(ck, q):
    st = Step(ck, q, "set_theta_for_given_instruments", "date", NORATE)
    e = one_event(st, "set_theta")
    if not e or not st.ob("loops", len(e.loops) == 1, "not recorded once per instrument"):
        return
    insts = e.loops[0].src
    st.ob("over", strip(insts) is arg("given_instruments"), "the walk is not over the given instruments")
    inst, bumped = D(at(insts)), arg("bumped_date")
    code = D(getter(mk("tuple", *e.args, D(e.args[0])), "get_code", inst))
    m = differ(e.args[0], result_of(code), e.guard)
    st.ob("result", m is None, f"recorded in the result of another instrument: {m}")
    res = project(project(RES, ("key", code)), ("cell",))
    flows = V(F(res, "cashflows"), 1)
    day = lambda x: next((y for y in walk(e.args[1]) if y.op == "call" and y.a[0].split("::")[-1] == "date" and y.a[-1] is x), mk("call", "date", x))
    when = day(keyat(flows))
    paid = b_and(cmp("Lt", day(NOW), when), cmp("Le", when, day(bumped)))
    cash = total(flows, paid, at(flows))
    td = [y for y in walk(e.args[1]) if named(y, "get_time_difference") and y.a[-2:] == (NOW, bumped)]
    if not st.ob("days", len(set(td)) == 1, "the figure is not per day moved"):
        return
    un = [y for y in walk(e.args[1]) if named(y, "get_unit_notional")]
    un = un[0] if len(set(un)) == 1 and un[0].a[1] in (inst, V(F(res, "instrument_info"), 1)) else getter(ZERO, "get_unit_notional", inst)
    diff = sub(npv_in(insts, dated(M0, NOW, bumped), code), npv_in(insts, M0, code))
    want = mul(div(add(diff, cash), mul(td[0], num(365))), un)
    x, w = e.args[1], unify_sums(e.args[1], want)
    m = differ(x, w, e.guard)
    st.ob("value", m is None, f"another figure is recorded: {m}")
    ty = getter(bool_t(e.loops[0].backguard), "get_type_name", inst)
    skip = any_of(eq(D(ty), mk("str", n)) for n in sorted(NORATE))
    st.covered("records", e.loops, e.guard, lambda i: skip)
    pre = Step(ck, q, "preprocess_theta", "date", NORATE)
    e = one_event(pre, "set_theta")
    if e and pre.ob("loops", len(e.loops) == 1, "not recorded once per instrument"):
        insts = e.loops[0].src
        inst = D(at(insts))
        pre.ob("over", named(insts, "instruments_with_types") and insts.a[1] is INSTS and strip(insts.a[2]) is arg("inst_type"), "the walk is not over the given types")
        code = D(getter(mk("tuple", *e.args, D(e.args[0])), "get_code", inst))
        pre.ob("result", differ(e.args[0], result_of(code), e.guard) is None, "recorded in the result of another instrument")
        pre.ob("value", differ(e.args[1], ZERO, e.guard) is None, "another figure than zero is recorded")
        pre.covered("records", e.loops, e.guard)


def valuation(ck, q):
    """present values, values, cash flows and exposures of every instrument"""
    ACT = F(D(S), "instruments_in_action")
    inst = D(at(ACT))
    rest = {k: v for k, v in MODELS.items() if not k.startswith(E)}
    for fn, what in (("get_npvs", "npv"), ("get_npv_results", "npv_result")):
        ck.fn(E + fn)
        r = run(q, E + fn, PER, GETTERS + CHOICE, models=rest)
        filled(ck, fn, r, *ok_part(r), ACT, lambda x: D(getter(x, "get_code", inst)),
               lambda code: mk("call", what, project(F(D(S), "pricers"), ("key", code)), M0, inst))
    for fn, setter, what in (("set_npv_results", "set_npv", "npv_result"), ("set_fx_exposures", "set_fx_exposure", "fx_exposure")):
        st = Step(ck, q, fn, "date", set())
        e = one_event(st, setter)
        if not e:
            continue
        each(st, e, setter)
        v = e.args[1]
        base = [y for y in walk(v) if y.op == "mu"]
        code = keyat(RES)
        st.ob("lookup", len(base) > 0 and v is project(base[0], ("key", code)), f"what is recorded is not looked up under the instrument's code: {str(show(v))[:200]}")
        if base and fn == "set_npv_results":
            filled(ck, fn, st.r, TRUE, base[0], ACT, lambda x: D(getter(x, "get_code", inst)),
                   lambda code: mk("call", what, project(F(D(S), "pricers"), ("key", code)), M0, inst))
        elif base:
            filled(ck, fn, st.r, TRUE, base[0], ACT, lambda x: D(getter(x, "get_code", inst)),
                   lambda code: mk("call", what, project(F(D(S), "pricers"), ("key", code)), M0, inst, stored(code)))
    st = Step(ck, q, "set_values", "date", set())
    e = one_event(st, "set_value")
    if e:
        each(st, e, "set_value")
    st = Step(ck, q, "set_cashflow_inbetween", "date", set())
    st.r = run(q, E + "set_cashflow_inbetween", PER + ("NpvResult::get_expected_coupon_amount",), GETTERS + CHOICE, models=MODELS, closers=(close_market,))
    st.sets = [e for e in st.r.events if e.kind == "call" and e.name.split("::")[-1] in SETTERS]
    e = one_event(st, "set_cashflows")
    if e:
        each(st, e, "set_cashflows")
        mine = V(F(project(at(RES), ("cell",)), "npv_result"), 1)
        c = [y for y in walk(e.args[1]) if named(y, "get_expected_coupon_amount")]
        st.ob("value", len(c) == 1 and e.args[1] is c[0] and c[0].a[1] is mine, f"other cash flows are recorded: {str(show(e.args[1]))[:200]}")
    # the expected cash of a date is the sum over what is paid on it
    p = "pricing_engines::npv_result::NpvResult::get_expected_coupon_amount"
    ck.fn(p)
    r = run(q, p)
    g, v = ok_part(r)
    am, pr = F(D(S), "cashflow_amounts"), F(D(S), "cashflow_probabilities")
    when, x = F(at(am), "0"), mul(F(at(am), "1"), F(project(pr, ("key", keyat(am))), "1"))
    fill = [(e, c) for e in r.events for c in e.loops if c.src is am and v.op == "mu" and v in c.init]
    if ck.ob("expected:table", bool(fill), "the amounts are not gathered in one walk over them", p):
        c = fill[0][1]
        nxt = project(c.next[v], ("key", when))
        has = lit(mk("has", v, when))
        m = differ(nxt, ite((has, add(project(v, ("key", when)), x)), (b_not(has), x)), c.backguard)
        ck.ob("expected:sum", m is None, f"a date's amount is not increased by amount times probability: {m}", p)
        ck.ob("expected:start", c.init[v] is mk("emptymap"), "the table does not start empty", p)
        other = [e for e, _ in fill if e.kind in ("map_insert", "map_remove", "lstore") and not contains(mk("tuple", *e.args[:2]), lambda z: z is when)]
        ck.ob("expected:only", not other, "another date's amount is touched", p)


def each(st, e, name):
    """once per result, in that result"""
    okk = len(e.loops) == 1 and e.loops[0].src is RES
    if st.ob(name + ":over", okk, "not recorded once for every instrument"):
        want = mk("ref", mk("obj", S), (("f", "calculation_results"), ("at", mk("ix", RES, 0)), ("cell",)))
        st.ob(name + ":result", differ(e.args[0], want, e.guard) is None, "recorded in another result")
        st.covered(name, e.loops, e.guard)


def filled(ck, key, r, g, v, src, code_of, value):
    """v is the map code -> value over every element of src"""
    ws = [e for e in r.events if e.kind in ("map_insert", "map_remove", "lstore") and e.args[-1] is v]
    if not ck.ob(f"{key}:filled", len(ws) == 1 and ws[0].kind == "map_insert" and len(ws[0].loops) == 1 and ws[0].loops[0].src is src,
                 "the table is not filled once for every instrument"):
        return
    e = ws[0]
    code = code_of(mk("tuple", *e.args[1:3]))
    ck.ob(f"{key}:filled-key", strip(e.args[1]) is strip(code), "filed under another key: " + str(show(e.args[1]))[:200])
    m = differ(e.args[2], value(code), e.guard)
    ck.ob(f"{key}:filled-value", m is None, f"another value is filed: {m}")
    c = e.loops[0]
    ck.ob(f"{key}:filled-start", c.init.get(v) is mk("emptymap"), "the table does not start empty")
    ck.ob(f"{key}:filled-all", never(b_and(b_and(c.backguard, g), b_not(e.guard))), "an instrument is passed over")
    for _, x in c.exits:
        ck.ob(f"{key}:filled-end", never(b_and(b_and(x, g), lit(mk("more", src, 0)))), "the walk ends early")


RESULT_MAPS = {"set_single_delta": "delta", "set_single_gamma": "gamma", "set_single_vega": "vega", "set_single_rho": "rho",
               "set_single_div_delta": "div_delta", "set_single_vega_structure": "vega_strucure", "set_single_rho_structure": "rho_structure",
               "set_single_div_structure": "div_structure", "set_single_vega_matrix": "vega_matrix"}
RESULT_FIELDS = {"set_npv": "npv_result", "set_fx_exposure": "fx_exposure", "set_theta": "theta", "set_cashflows": "cashflows"}


def keeping(ck, q):
    """what a setter is told is what the result keeps, and nothing else changes"""
    ty = CRES[:-2]
    fields = fields_of(q, ty)
    for n, f in list(RESULT_MAPS.items()) + list(RESULT_FIELDS.items()) + [("set_value", "value")]:
        p = CRES + n
        ck.fn(p)
        r = run(q, p, (), ("get_unit_notional",))
        got, old = final(r, S, f), F(D(S), f)
        if n in RESULT_MAPS:
            k, v = ARGS(q, p)
            for g, base in ((is_v(old, 0), mk("emptymap")), (SOME(old), V(old, 1))):
                d = [(h, x) for h, x in cases(got) if not never(b_and(h, g))]
                okk = bool(d) and all(x.op in ("agg", "upd") for _, x in d)
                m = differ(V(got, 1), mk("ins", base, D(k), v), b_and(g, r.g)) if okk else "no map"
                ck.ob(f"{n}:{'first' if base.op == 'emptymap' else 'next'}", m is None, f"the figure is not kept under its key: {m}", p)
        elif n == "set_value":
            g, _ = ok_part(r)
            info = V(F(D(S), "instrument_info"), 1)
            un = getter(got, "get_unit_notional", info)
            m = differ(got, mk("agg", OPTION, 1, (("0", mul(F(V(F(D(S), "npv_result"), 1), "npv"), un)),)), g)
            ck.ob(n, m is None, f"the value is not present value times notional: {m}", p)
        else:
            v = ARGS(q, p)[0]
            m = differ(got, mk("agg", OPTION, 1, (("0", v),)), r.g)
            ck.ob(n, m is None, f"something else is kept: {m}", p)
        for f2 in fields:
            if f2 != f:
                m = differ(final(r, S, f2), F(D(S), f2), r.g)
                ck.ob(f"{n}:keeps-{f2}", m is None, f"{f2} is changed: {m}", p)


def any_of(gs):
    r = FALSE
    for g in gs:
        r = b_or(r, g)
    return r


def ARGS(q, p):
    return [arg(n) for n in Interp(q).arg_names(q.fn(p))[1:]]


def conducted(ck, q):
    """each figure is computed exactly when it is asked for"""
    p = E + "calculate"
    ck.fn(p)
    r = conduct(q)
    g, _ = ok_part(r)
    flags = [("npv", ("set_npv_results", "set_values", "set_cashflow_inbetween")), ("fx_exposure", ("set_fx_exposures",)), ("delta", ("preprocess_delta_gamma", "set_delta_gamma")),
             ("vega", ("set_vega",)), ("rho", ("set_rho",)), ("div_delta", ("set_div_delta",)), ("vega_strucure", ("set_vega_structure",)),
             ("rho_structure", ("set_rho_structure",)), ("div_structure", ("set_div_structure",)), ("vega_matrix", ("set_vega_matrix",)), ("theta", ("preprocess_theta",))]
    calls = {n: [e for e in r.events if e.kind == "call" and e.name == E + n] for n in STEPS}
    for f, steps in flags:
        on = b_of(F(CC, f))
        for n in steps:
            reach = any_of(e.guard for e in calls[n])
            ck.ob(f"calculate:{n}:asked", never(b_and(b_and(g, on), b_not(reach))), f"{n} is left out although asked for", p)
            ck.ob(f"calculate:{n}:only", never(b_and(reach, b_not(on))), f"{n} is run without being asked for", p)
            ck.ob(f"calculate:{n}:self", all(e.args[0] is S or e.args[0] is mk("ref", mk("obj", S), ()) for e in calls[n]), "run on another engine", p)
    first = [e.seq for n in ("set_npv_results",) for e in calls[n]]
    later = [e.seq for n in STEPS if n != "set_npv_results" for e in calls[n]]
    ck.ob("calculate:order", bool(first) and bool(later) and max(first) < min(later), "figures are computed before the values they compare to", p)
    # theta: everything else than what never decays, by whether it matures on the way
    on = b_of(F(CC, "theta"))
    th = calls["set_theta_for_given_instruments"]
    days = F(CC, "theta_day")
    for which in ("upto", "over"):
        es = [e for e in th if named(e.args[1], "instruments_with_maturity_" + which)]
        if not ck.ob(f"calculate:theta:{which}", len(es) == 1, f"the decay of what matures {which} the day moved to is computed in {len(es)} places", p):
            continue
        e = es[0]
        c = e.args[1]
        day = strip(c.a[3])
        want = add(NOW, mul(mul(num(86400), days), mk("second")))
        okk = c.a[1] is INSTS and c.a[2] is NONE and differ(day, want, e.guard) is None and excluded(c.a[4]) <= NORATE
        ck.ob(f"calculate:theta:{which}:group", okk, f"another set of instruments: {str(show(c))[:300]}", p)
        if which == "over":
            okk = differ(strip(e.args[2]), want, e.guard) is None
        else:
            x = e.args[2]
            x = [y for y in walk(x) if named(y, "get_shortest_maturity")]
            okk = len(x) == 1 and strip(e.args[2]) is V(x[0], 1) and x[0].a[1] is INSTS and contains(x[0].a[2], lambda z: z is c)
        ck.ob(f"calculate:theta:{which}:day", okk, f"moved to another day: {str(show(e.args[2]))[:300]}", p)
        miss = b_and(b_and(g, on), b_and(b_not(e.guard), b_not(len_is_0(c))))
        ck.ob(f"calculate:theta:{which}:asked", never(miss), "left out although asked for, when " + b_show(b_valid(miss))[:300], p)
    ck.ob("calculate:theta:nothing-else", len(th) == 2, f"{len(th)} calls where 2 are expected", p)
    pre = [e for e in calls["preprocess_theta"]]
    ck.ob("calculate:theta:rest", all(excluded(e.args[1]) == NORATE for e in pre), "what is recorded as not decaying is not what the others leave out", p)


def Q02(ck, q, t, meta):
    """For every risk step, each place that records a figure is compared, as a normal form, with: walk = everything that can be bumped x the
    instruments depending on it (all but the types listed as not depending); result = that instrument's; key = what was bumped; value =
    (valuation in the market with exactly that bump - recorded valuation) / bump * unit * notional (delta: central difference of the price
    scaled by 1 +- ratio, gamma: the second difference; theta: valuation on the moved date - valuation + cash paid on the way, per day).
    Figures by tenor: cell i comes from the interval (t[i-1], t[i]], or the difference of successive bumps from the far end (an induction over
    the walk: the carried valuations are those in the carried market); the table recorded is filled in the same pass only.  No completed
    pass goes by without its figure and no walk ends early, except where the interval lies beyond every maturity.  The valuations, cash flows and exposures
    are filed for every instrument under its code, what a result is told is what it keeps, and calculate() runs each step iff asked for."""
    delta_gamma(ck, q)
    flat(ck, q, "set_vega", "volatility", "set_single_vega", "vega_bump_value", UNITS["vega"], NOVOL)
    flat(ck, q, "set_rho", "curve", "set_single_rho", "rho_bump_value", UNITS["rho"], NORATE)
    flat(ck, q, "set_div_delta", "dividend", "set_single_div_delta", "div_bump_value", UNITS["div"], NORATE)
    structure(ck, q, "set_vega_structure", "volatility", "set_single_vega_structure", "vega_structure_bump_value", UNITS["vega"], NOVOL, [("vega_structure_tenors", "time")], True)
    structure(ck, q, "set_vega_matrix", "volatility", "set_single_vega_matrix", "vega_structure_bump_value", UNITS["vega"], NOVOL,
              [("vega_structure_tenors", "time"), ("vega_matrix_spot_moneyness", None)], True)
    structure(ck, q, "set_rho_structure", "curve", "set_single_rho_structure", "rho_bump_value", UNITS["rho"], NORATE, [("rho_structure_tenors", "time")], False)
    structure(ck, q, "set_div_structure", "dividend", "set_single_div_structure", "div_bump_value", UNITS["div"], NORATE, [("div_structure_tenors", "date")], False)
    theta(ck, q)
    valuation(ck, q)
    keeping(ck, q)
    conducted(ck, q)
