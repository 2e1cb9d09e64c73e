"""What a calculation is made of: which instruments, which curves, which market objects."""
from spec import *
from checks.pricing import variant, n_variants
from checks.market import fields_of

S = arg("self")
I = "instrument::Instruments::"
MPM = "pricing_engines::match_parameter::MatchParameter::"
PF = "pricing_engines::pricer_factory::PricerFactory::"
INSTS = F(D(S), "instruments")
TRAIT = "<instrument::Instrument as instrument::InstrumentTrait>::"
GETTERS = tuple(TRAIT + g for g in (
    "get_type_name", "get_underlying_codes", "get_currency", "get_maturity", "get_code", "get_name", "get_all_fxcodes_for_pricing",
    "get_underlying_codes_requiring_volatility", "get_quanto_fxcode_und_pair", "get_bond_futures_borrowing_curve_tags"))
PARTIAL = tuple(TRAIT + g for g in ("get_underlying_currency", "get_floating_leg_currency", "get_rate_index", "get_fxfutres_und_fxcode",
                                    "get_floating_to_fixed_fxcode"))
ROLES = ("get_discount_curve_name", "get_collateral_curve_names", "get_rate_index_curve_name", "get_crs_curve_name", "get_floating_crs_curve_name")


def go(ck, q, path, extra=(), partial=PARTIAL):
    ck.fn(path)
    return run(q, path, total=tuple(partial) + tuple(extra), opaque=GETTERS + tuple(partial) + tuple(extra))


def named(x, name):
    return x.op == "call" and x.a[0].split("::")[-1] == name


def got(r, name, *args):
    """the call of the primitive `name` on args, as the function makes it"""
    hs = [r.ret] + [x for e in r.events for x in list(e.args) + [bool_t(e.guard)]]
    for h in hs:
        for y in walk(h):
            if named(y, name) and y.a[1:] == args:
                return y
    for y in (z for c in loops(r) for x in [bool_t(c.backguard), *c.next.values()] for z in walk(x)):
        if named(y, name) and y.a[1:] == args:
            return y
    return mk("call", name, *args)


def loops(r):
    out = []
    for e in r.events:
        for c in e.loops:
            if not any(c is d for d in out):
                out.append(c)
    return out + [c for c in getattr(r, "loops", []) if not any(c is d for d in out)]


def has(m, k):
    return lit(mk("has", m, k))


def of_key(m, k):
    return project(m, ("key", k))


def contains(xs, y):
    return b_of(lift(lambda b: bool_t(lit(mk("call", "contains", b, y))), xs))


def decides(ck, key, r, due, want, care=TRUE, hyp=(), deref=True, where=None):
    """Ok(want) exactly where an answer is due"""
    g, v = ok_part(r)
    if v is None:
        return ck.fail(key, "no value is returned")
    if deref:
        v = D(v)
    m = differ(v, want, b_and(care, b_and(g, due)), hyp)
    ck.ob(key + ":value", m is None, m or "", where)
    miss = b_and(care, b_and(due, b_not(g)))
    ck.ob(key + ":answers", never(miss, hyp), "refused although there is an answer, when " + b_show(b_valid(miss))[:300], where)
    more_ = b_and(care, b_and(g, b_not(due)))
    ck.ob(key + ":refuses", never(more_, hyp), "answered although there is no answer, when " + b_show(b_valid(more_))[:300], where)


class Inst:
    """an instrument by kind"""

    def __init__(self, q, x):
        self.q, self.x, self.n = q, x, n_variants(q)

    def __call__(self, kind):
        return is_v(self.x, variant(self.q, kind), self.n)

    def data(self, kind, *fields):
        return F(V(self.x, variant(self.q, kind)), *fields)


def enum(q, ty, name):
    names = [v["name"] for v in q.adt(ty)["variants"]]
    return names.index(name), len(names)


def table(rows, other):
    """(due, value) of a case distinction [(guard, due, value)]"""
    rest, due, cs = TRUE, FALSE, []
    for g, d, v in rows:
        g = b_and(rest, g)
        due = b_or(due, b_and(g, d))
        cs.append((g, v))
        rest = b_and(rest, b_not(g))
    return b_or(due, rest), ite(*cs, (rest, other))


def roles(ck, q):
    """the curve named for each role of an instrument"""
    i = Inst(q, D(arg("instrument")))
    m = lambda f: F(D(S), f)
    dummy = m("dummy_string")
    look = lambda g, tb, k: (g, has(m(tb), k), of_key(m(tb), k))
    irs = is_v(i.data("PlainSwap", "specific_type"), *enum(q, "instruments::plain_swap::PlainSwapType", "IRS"))
    swap, fxf = i("PlainSwap"), i("FxFutures")
    plain = lambda g: (g, TRUE, dummy)
    for fn, leg, cur in (("get_crs_curve_name", "fixed_leg_currency", "currency"), ("get_floating_crs_curve_name", "floating_leg_currency", "underlying_currency")):
        r = go(ck, q, MPM + fn, partial=())
        due, want = table([plain(b_and(swap, irs)), look(swap, "crs_curve_map", i.data("PlainSwap", leg)), look(fxf, "crs_curve_map", i.data("FxFutures", cur))], dummy)
        decides(ck, fn, r, due, want)
    fwd, rix = "rate_index_forward_curve_map", lambda k: i.data(k, "rate_index")
    rows = []
    for k in ("Bond", "PlainSwap"):
        rows += [plain(b_and(i(k), b_not(SOME(rix(k))))), look(i(k), fwd, F(V(rix(k), 1), "code"))]
    r = go(ck, q, MPM + "get_rate_index_curve_name", partial=())
    decides(ck, "get_rate_index_curve_name", r, *table(rows, dummy))
    bond = mk("agg", "tuple", 0, tuple((str(n), i.data("Bond", f)) for n, f in enumerate(("issuer_name", "issuer_type", "credit_rating", "currency"))))
    settled = is_v(i.data("VanillaOption", "daily_settlement_type"), *enum(q, "enums::OptionDailySettlementType", "Settled"))
    r = go(ck, q, MPM + "get_discount_curve_name", partial=())
    keys = [y.a[1] for x in (r.ret, bool_t(r.g)) for y in walk(x) if y.op == "has" and y.a[0] is m("bond_discount_curve_map")]
    same = [y for y in keys if differ(y, bond) is None]
    bond = same[0] if same else bond
    opt = i("VanillaOption")
    rows = [plain(b_and(i("Bond"), b_not(has(m("bond_discount_curve_map"), bond)))), look(i("Bond"), "bond_discount_curve_map", bond)]
    rows += rows_of_swap(i, plain, look, fwd, rix)
    rows += [plain(b_and(opt, settled)), look(opt, "funding_cost_map", i.data("VanillaOption", "currency"))]
    decides(ck, "get_discount_curve_name", r, *table(rows, dummy))
    for fn, tb in (("get_collateral_curve_names", "collateral_curve_map"), ("get_borrowing_curve_names", "borrowing_curve_map")):
        r = go(ck, q, MPM + fn)
        codes = got(r, "get_underlying_codes", i.x)
        alts = [(TRUE, codes)]
        if fn.startswith("get_b"):
            tags = got(r, "get_bond_futures_borrowing_curve_tags", i.x)
            none = b_of(compare("Eq", mk("len", tags), ZERO))
            alts = [(none, codes), (b_not(none), mk("extend", codes, tags))]
        g, v = ok_part(r)
        for a, src in alts:
            k = D(at(src))
            there = has(m(tb), k)
            ok_ = b_not(lit(mk("exists", src, bool_t(b_not(there)))))
            gg, vv = b_of(settle(bool_t(g), a)), settle(v, a)
            for h, y in cases(vv):
                h = b_valid(b_and(h, b_and(a, gg)))
                if h == FALSE:
                    continue
                y = deref_tab(y)
                w = differ(y, seqof(src, there, of_key(m(tb), k)), h)
                ck.ob(fn + ":value", w is None, w or "")
            miss = b_and(a, b_and(ok_, b_not(gg)))
            ck.ob(fn + ":answers", never(miss), "refused although every curve is known, when " + b_show(b_valid(miss))[:300])
            more_ = b_and(a, b_and(gg, b_not(ok_)))
            ck.ob(fn + ":refuses", never(more_), "answered although a curve is missing, when " + b_show(b_valid(more_))[:300])
    r = go(ck, q, MPM + "get_collateral_curve_name", partial=())
    k = D(arg("und_code"))
    decides(ck, "get_collateral_curve_name", r, has(m("collateral_curve_map"), k), of_key(m("collateral_curve_map"), k))
    r = go(ck, q, MPM + "new", partial=())
    for f in ("collateral_curve_map", "borrowing_curve_map", "bond_discount_curve_map", "crs_curve_map", "rate_index_forward_curve_map", "funding_cost_map"):
        m_ = differ(F(r.ret, f), arg(f))
        ck.ob("new:" + f, m_ is None, m_ or "")
    ck.ob("new:dummy", differ(F(r.ret, "dummy_string"), mk("str", "Dummy")) is None, "the name standing for no curve is not Dummy")


def settle(x, g):
    """x with every condition decided by g resolved, everywhere"""
    def lit_(l):
        if b_valid(b_and(g, lit(l))) == FALSE:
            return FALSE
        if b_valid(b_and(g, b_not(lit(l)))) == FALSE:
            return TRUE
        return b_of(subst(l, f))

    def f(z):
        if z.op == "ite":
            u = under(z, g)
            return subst(u, f) if u is not z else None
        if z.op == "b":
            return bool_t(b_map(z.a[0], lit_))
        return None
    return subst(x, f)


def rows_of_swap(i, plain, look, fwd, rix):
    k = "PlainSwap"
    return [plain(b_and(i(k), b_not(SOME(rix(k))))), look(i(k), fwd, F(V(rix(k), 1), "code"))]


def deref_tab(y):
    if y.op == "seqof":
        return mk("seqof", y.a[0], D_ite(y.a[1]))
    if y.op == "tab":
        return mk("tab", y.a[0], D_ite(y.a[1]))
    return y


def D_ite(x):
    return lift(lambda z: z if z.op == "skip" else D(z), x)


def kept(ck, key, r, v, care, src, cond, item, result=TRUE):
    """v = the items of src under cond, in order (several times is allowed where pushed several times)"""
    want = tab(src, item) if cond == TRUE else seqof(src, cond, item)
    if all(x.op != "mu" for g, x in cases(v) if b_valid(b_and(g, care)) != FALSE):
        m = differ(special_all(v, care), special_all(want, care), care)
        return ck.ob(key, m is None, m or "")
    es = [e for e in r.events if e.kind == "push" and e.loops and e.loops[-1].src is src]
    roots = {e.args[0] for e in es}
    c = es[0].loops[-1] if es else None
    if not ck.ob(key + ":one", len(roots) == 1 and all(len(e.loops) == 1 and e.loops[0] is c for e in es), "the selection is not gathered in one walk"):
        return
    ref = roots.pop()
    mu = c.mus.get((ref.a[0], ref.a[1]))
    ck.ob(key + ":result", all(x is mu for g, x in cases(v) if b_valid(b_and(g, care)) != FALSE), "something else than the selection is returned")
    ck.ob(key + ":start", mu is not None and differ(c.init[mu], mk("agg", "array", 0, ())) is None, "the selection does not start empty")
    ck.ob(key + ":only", not [e for e in r.events if e.kind != "push" and e.args and e.args[0] is ref and e.kind in MOVES], "the selection is changed otherwise")
    U = FALSE
    for e in es:
        m = differ(e.args[1], item, e.guard)
        ck.ob(key + ":item", m is None, f"something else is selected: {m}")
        bad = b_and(b_and(e.guard, care), b_not(cond))
        ck.ob(key + ":sound", never(bad), "selected although it does not qualify, when " + b_show(b_valid(bad))[:300])
        U = b_or(U, e.guard)
    g0 = b_and(result, b_and(c.backguard, care))
    miss = b_and(b_and(g0, cond), b_not(U))
    ck.ob(key + ":complete", never(miss), "passed over although it qualifies, when " + b_show(b_valid(miss))[:300])
    whole(ck, key, c, b_and(result, care))


MOVES = ("store", "lstore", "push", "push_front", "extend", "clear", "pop", "pop_back", "pop_front", "remove_at", "map_insert", "map_remove",
         "set_insert", "havoc")


def whole(ck, key, c, care):
    for _, x in c.exits:
        x = b_and(b_and(x, care), lit(mk("more", c.src, 0))) if c.src is not None else b_and(x, care)
        ck.ob(key + ":all", never(x), "the walk ends early, when " + b_show(b_valid(x))[:300])


def special_all(x, g):
    """x with everything decided by g resolved"""
    return special(x, g)


def gathered(ck, key, r, v, care, walks, result=TRUE):
    """v = every item of the walks that qualifies, once each.  walks: [(sources, item, condition)]"""
    es = [e for e in r.events if e.kind in ("push", "set_insert") and b_valid(b_and(e.guard, care)) != FALSE]
    roots = {e.args[0] for e in es}
    if not ck.ob(key + ":one", len(roots) == 1 and all(e.loops for e in es), "the list is not gathered in one walk"):
        return
    ref = roots.pop()
    c = es[0].loops[0]
    mu = c.mus.get((ref.a[0], ref.a[1]))
    ck.ob(key + ":walk", all(e.loops[0] is c for e in es), "gathered in several walks")
    ck.ob(key + ":result", mu is not None and all(x is mu for g, x in cases(v) if b_valid(b_and(g, care)) != FALSE), "something else than the list gathered is returned")
    ck.ob(key + ":start", mu is not None and (c.init[mu].op == "emptymap" or differ(c.init[mu], mk("agg", "array", 0, ())) is None), "the list does not start empty")
    ck.ob(key + ":only", not [e for e in r.events if e.kind not in ("push", "set_insert") and e.args and e.args[0] is ref and e.kind in MOVES], "the list is changed otherwise")
    left = list(walks)
    same = lambda a, b: differ(a, b) is None
    for srcs, item, cond in walks:
        mine = [e for e in es if len(e.loops) == len(srcs) and all(a.src is b for a, b in zip(e.loops, srcs)) and is_item(e.args[1], item)]
        if not ck.ob(key + ":item", bool(mine), "never listed: " + str(show(item))[:200]):
            continue
        U = FALSE
        for e in mine:
            dup = contains(e.args[2], item)
            if e.kind == "push":
                bad = b_and(b_and(e.guard, care), dup)
                ck.ob(key + ":once", never(bad), "listed although it is already there, when " + b_show(b_valid(bad))[:300])
            bad = b_and(b_and(e.guard, care), b_not(cond))
            ck.ob(key + ":sound", never(bad), "listed although it does not qualify, when " + b_show(b_valid(bad))[:300])
            U = b_or(U, b_or(e.guard, dup))
        for n, d in enumerate(mine[0].loops):
            last = n + 1 == len(srcs)
            want = b_and(cond, b_not(U)) if last else b_not(mine[0].loops[n + 1].hguard)
            miss = b_and(b_and(b_and(result, care), d.backguard), want)
            ck.ob(key + ":complete", never(miss), "passed over although it qualifies, when " + b_show(b_valid(miss))[:300])
            whole(ck, key, d, b_and(result, care))
        es = [e for e in es if e not in mine]
    for e in es:
        ck.ob(key + ":foreign", False, "something else is listed: " + str(show(e.args[1]))[:200])


def plain_of(x):
    """the thing behind references"""
    while x.op == "ref":
        x = D(x)
    return x


def is_item(x, item):
    for _ in range(4):
        if x is item:
            return True
        y = D(x)
        if y is x:
            return False
        x = y
    return False


def excluded_by(name, inst, r):
    """inst's type name is in the given list of types"""
    xs = arg(name)
    t = D(got(r, "get_type_name", inst))
    return b_and(SOME(xs), contains(V(xs, 1), t))


def given(name="instruments"):
    """(guard, list walked): the list given, or the whole book"""
    x = arg(name)
    return [(SOME(x), D(V(x, 1))), (b_not(SOME(x)), INSTS)]


def selections(ck, q):
    inst_at = lambda src: (at(src), D(at(src)))
    # by underlying, currency, type
    r = go(ck, q, I + "instruments_with_underlying")
    x, i = inst_at(INSTS)
    kept(ck, "by-underlying", r, r.ret, TRUE, INSTS, b_and(contains(got(r, "get_underlying_codes", i), D(arg("und_code"))), b_not(excluded_by("exclude_type", i, r))), x)
    r = go(ck, q, I + "instruments_with_currency")
    kept(ck, "by-currency", r, r.ret, TRUE, INSTS, eq(D(got(r, "get_currency", i)), D(arg("currency"))), x)
    r = go(ck, q, I + "instruments_with_types")
    kept(ck, "by-type", r, r.ret, TRUE, INSTS, contains(arg("type_names"), D(got(r, "get_type_name", i))), x)
    # by curve
    r = go(ck, q, I + "instruments_using_curve", ROLES)
    m, c = D(arg("match_parameter")), D(arg("curve_name"))
    uses = FALSE
    for role in ROLES:
        n = got(r, role, m, i)
        uses = b_or(uses, contains(n, c) if role.endswith("names") else eq(D(n), c))
    g, v = ok_part(r)
    kept(ck, "by-curve", r, v, TRUE, INSTS, b_and(uses, b_not(excluded_by("exclude_type", i, r))), x, g)
    # by maturity
    for fn, ex in (("instruments_with_maturity_upto", "exlucde_type"), ("instruments_with_maturity_over", "exclude_type")):
        r = go(ck, q, I + fn)
        for care, src in given():
            x, i = inst_at(src)
            mat = got(r, "get_maturity", i)
            upto = b_and(SOME(mat), cmp("Le", D(V(mat, 1)), D(arg("maturity"))))
            kept(ck, fn, r, r.ret, care, src, b_and(upto if fn.endswith("upto") else b_not(upto), b_not(excluded_by(ex, i, r))), x)
    # curve names
    r = go(ck, q, I + "get_all_curve_names", ROLES)
    i = D(at(INSTS))
    walks = []
    for role in ROLES:
        n = got(r, role, m, i)
        srcs, y = ((INSTS, n), D(at(n))) if role.endswith("names") else ((INSTS,), D(n))
        walks.append((srcs, y, b_not(eq(y, mk("str", "Dummy")))))
    g, v = ok_part(r)
    gathered(ck, "curve-names", r, v, TRUE, walks, g)
    # lists without repetition
    for fn, name in (("get_all_underlying_codes", "get_underlying_codes"), ("get_all_fxcodes_for_pricing", "get_all_fxcodes_for_pricing"),
                     ("get_all_quanto_fxcode_und_pairs", "get_quanto_fxcode_und_pair")):
        r = go(ck, q, I + fn)
        n = got(r, name, i)
        gathered(ck, fn, r, r.ret, TRUE, [((INSTS, n), at(n) if "fx" in fn else D(at(n)), TRUE)])
    r = go(ck, q, I + "get_all_type_names")
    gathered(ck, "get_all_type_names", r, r.ret, TRUE, [((INSTS,), D(got(r, "get_type_name", i)), TRUE)])
    fn = "get_all_unerlying_codes_requiring_volatility"
    r = go(ck, q, I + fn)
    for care, src in given():
        n = got(r, "get_underlying_codes_requiring_volatility", D(at(src)))
        gathered(ck, fn, r, r.ret, care, [((src, n), D(at(n)), TRUE)])
    r = go(ck, q, I + "get_all_inst_code_clone")
    for care, src in given():
        kept(ck, "get_all_inst_code_clone", r, r.ret, care, src, TRUE, D(got(r, "get_code", D(at(src)))))
    currencies(ck, q)
    maturities(ck, q)


def currencies(ck, q):
    r = go(ck, q, I + "get_all_currencies")
    i = D(at(INSTS))
    ty = D(got(r, "get_type_name", i))
    one = lambda *ns: any_of(eq(ty, mk("str", n)) for n in ns)
    walks = [((INSTS,), D(got(r, "get_currency", i)), TRUE),
             ((INSTS,), D(got(r, "get_underlying_currency", i)), one("Futures", "FxFutures")),
             ((INSTS,), D(got(r, "get_floating_leg_currency", i)), one(*swap_types(q)))]
    g, v = ok_part(r)
    gathered(ck, "get_all_currencies", r, v, TRUE, walks, g)


def any_of(gs):
    out = FALSE
    for g in gs:
        out = b_or(out, g)
    return out


def texts(x):
    return {y.a[0] for _, y in cases(x) if y.op == "str"}


def type_names(q):
    """type name(s) of every kind of instrument"""
    out = {}
    for b in q.bodies.values():
        if b["path"].endswith("InstrumentTrait>::get_type_name") and b["path"].startswith("<instruments::"):
            out[b["path"].split(" as ")[0].split("::")[-1]] = texts(D(run(q, b).ret))
    return out


def swap_types(q):
    return sorted(type_names(q).get("PlainSwap", ()))


def maturities(ck, q):
    for fn, op in (("get_shortest_maturity", "Lt"), ("get_longest_maturity", "Gt")):
        r = go(ck, q, I + fn)
        for care, src in given():
            mat = got(r, "get_maturity", D(at(src)))
            unlimited = lit(mk("exists", src, bool_t(b_not(SOME(mat)))))
            for h, y in cases(r.ret):
                h = b_valid(b_and(h, care))
                if h == FALSE:
                    continue
                if op == "Gt":
                    if y.op == "agg":
                        ck.ob(fn + ":unlimited", y.a[1] == 0 and never(b_and(h, b_not(unlimited))), "no longest maturity although every instrument has one")
                        continue
                    ck.ob(fn + ":unlimited", never(b_and(h, unlimited)), "a longest maturity although an instrument has none")
                cs = [c for c in loops(r) if y in c.init]
                if not ck.ob(fn + ":walk", len(cs) == 1 and cs[0].src is src, "not taken over the instruments asked for: " + str(show(y))[:200]):
                    continue
                c = cs[0]
                ck.ob(fn + ":start", differ(c.init[y], mk("agg", OPTION, 0, ())) is None, "does not start without a maturity")
                mine = D(V(mat, 1))
                better = b_or(b_not(SOME(y)), cmp(op, mine, V(y, 1)))
                want = ite((b_and(SOME(mat), better), some(mine)), (b_not(b_and(SOME(mat), better)), y))
                m = differ(c.next[y], want, b_and(c.backguard, care))
                ck.ob(fn + ":step", m is None, m or "")
                for _, x in c.exits:
                    x = b_and(b_and(x, care), lit(mk("more", src, 0)))
                    if op == "Gt":
                        x = b_and(x, SOME(mat))
                    ck.ob(fn + ":all", never(x), "the walk ends early, when " + b_show(b_valid(x))[:300])


def Q05(ck, q, t, meta):
    """Curve roles: for every kind of instrument and every role the value returned is compared, as a guarded normal form,
    with the entry of the matching table under the key the contract's data make (issuer, leg currency, rate index,
    underlying), the name for "no curve" where the role does not apply, and an error exactly where the entry is missing.
    Selections: the list returned is the filtered book with exactly the stated condition.  Lists of names: each push is
    guarded by the item not being there, every qualifying item of every pass is pushed or there already, nothing else
    is pushed, no walk ends early.  Shortest and longest maturity: start, step and end of the fold."""
    roles(ck, q)
    selections(ck, q)
