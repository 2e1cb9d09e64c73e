"""Adding and subtracting periods; coupon schedules."""
import re
from fractions import Fraction
from spec import *
from interp import *
from checks.calendars import facts_of

SA = "utils::string_arithmetic::"
SECONDS = {"W": 604800, "D": 86400, "h": 3600, "min": 60, "sec": 1}
MONTH = "time::Month"
YY, KK = mk("arg", "'year"), mk("arg", "'years more")
RANGE = {YY: (1, 9999), KK: (0, 10 ** 6)}
OPAQUE = ("::last_day_of_month", "::from_i32_to_month", "::from_month_to_i32")


def bounds_of(p, rest):
    lo = hi = rest
    for mono, c in p.items():
        if not mono:
            continue
        if len(mono) != 1 or mono[0][1] != 1 or mono[0][0] not in RANGE:
            return None
        a, b = RANGE[mono[0][0]]
        lo += min(c * a, c * b)
        hi += max(c * a, c * b)
    return lo, hi


def divide(kind, x, d):
    """x / d or x % d of integers, exactly, where x is a multiple of d plus a constant"""
    p = to_poly(x)
    rest = p.get((), Fraction(0))
    if rest.denominator != 1 or any(c % d for m, c in p.items() if m):
        return None
    q = {m: c / d for m, c in p.items() if m}
    rest = int(rest)
    if kind in ("idiv", "irem"):
        b = bounds_of(p, rest)
        if b is None:
            return None
        if b[0] >= 0:
            n = rest // d
        elif b[1] <= 0:
            n = -((-rest) // d)
        else:
            return None
    else:
        n = rest // d
    if kind in ("irem", "rem"):
        return num(rest - d * n)
    return from_poly({**q, (): Fraction(n)}) if n else from_poly(q)


def folded(t, env):
    def f(z):
        if z in env:
            return env[z]
        if z.op in ("idiv", "irem") or z.op == "call" and z.a[0].split("::")[-1] in ("div_euclid", "rem_euclid"):
            a = z.a[-2:]
            u, v = (subst(k, f) for k in a)
            if v.op == "num" and v.a[0] > 0:
                r = divide({"div_euclid": "div", "rem_euclid": "rem"}.get(z.a[0].split("::")[-1] if z.op == "call" else "", z.op), u, int(v.a[0]))
                if r is not None:
                    return r
        if z.op == "call" and z.a[0].endswith("::from_i32_to_month"):
            u = subst(z.a[1], f)
            if u.op == "num" and 0 <= u.a[0] <= 11:
                return mk("agg", MONTH, int(u.a[0]), ())
        return None
    return subst(t, f)


def plain(t, start, cur):
    """one way of writing month ends, smaller days and dates on a clock"""
    def f(z):
        if z.op == "min":
            a, b = (subst(x, f) for x in z.a)
            return ite((cmp("Lt", a, b), a), (b_not(cmp("Lt", a, b)), b))
        if z.op == "call":
            n = z.a[0]
            if n.endswith("::last_day_of_month"):
                return mk("call", "last_day_of_month", *[subst(x, f) for x in z.a[-2:]])
            if n.endswith("OffsetDateTime::replace_date"):
                x, d = (subst(x, f) for x in z.a[1:])
                return mk("call", "time::OffsetDateTime::new_in_offset", d, call("time::OffsetDateTime::time", x), call("time::OffsetDateTime::offset", x))
            if n.endswith("::offset") and z.a[1] is start:
                return call("time::OffsetDateTime::offset", cur)  # no part of a period changes it
        return None
    return subst(t, f)


def texts(units):
    """(text, parts) of periods, and texts that are none"""
    good = []
    parts = [(n, u) for u in units for n in ("1", "12", "7", "100")]
    good += [(n + u, [(n, u)]) for n, u in parts]
    few = [(n, u) for n, u in parts if n in ("1", "12")]
    good += [(a + b + c + d, [(a, b), (c, d)]) for a, b in few for c, d in few]
    good += [("".join("2" + u for u in units), [("2", u) for u in units])]
    bad = ["", "None", "12", "Y", "1X", "1m1", "one", " ", "-", "1y", "1d"] + list(units)
    return good, bad


def pattern(ck, name, loop, units, r):
    """the text is cut into exactly its parts, and a text without any is refused"""
    src = loop.src
    pat = None
    for z in walk(src):
        if z.op == "call" and z.a[0].endswith("Regex::new") and z.a[1].op == "str":
            pat = z.a[1].a[0]
    if not ck.ob(f"{name}:pattern", pat is not None, "the text is not read with a fixed pattern", SA + name):
        return None
    good, bad = texts(units)
    try:
        rx = re.compile(pat)
        wrong = [s for s, w in good if [m.groups()[:2] for m in rx.finditer(s)] != w] + [s for s in bad if rx.search(s)]
    except re.error as e:
        wrong = [str(e)]
    ck.ob(f"{name}:parts", not wrong, f"the pattern {pat!r} does not cut {wrong[:3]} into its parts", SA + name)
    asked = [l for l in facts_of([r.g] + [g for g, _ in cases(r.ret)]) if l.op == "call" and l.a[0].endswith("Regex::is_match")]
    asked = [l for l in asked if l.a[1] is src.a[1] and l.a[2] is src.a[2]]
    if not ck.ob(f"{name}:asks", len(asked) == 1, "a text without any part is not told apart", SA + name):
        return None
    return lit(asked[0])


def arms(ck, name, units, start, where):
    """per unit: the guard of its arm, the date (or sum) before and after one part, and its number"""
    r = run(ck.q, SA + name, opaque=OPAQUE)
    ck.fn(SA + name)
    loops = [c for c in r.loops if c.src is not None and c.src.op == "call" and c.src.a[0].endswith("captures_iter")]
    if not ck.ob(f"{name}:loop", len(loops) == 1, "the parts of the text are not gone through once", where):
        return None
    c = loops[0]
    is_part = pattern(ck, name, c, units, r)
    if is_part is None:
        return None
    cap = project(c.src, ("at", mk("ix", c.src, 0)))
    unit = project(cap, ("idx", num(2)))
    mine = [m for m in c.mus.values() if c.init.get(m) is start]
    if not ck.ob(f"{name}:from", len(mine) == 1, f"the first part is not applied to {show(start)}", where):
        return None
    cur = mine[0]
    nxt = c.next[cur]
    lits, nums = {}, set()
    for g, x in cases(nxt):
        for l in b_lits(g):
            if l.op == "isv" and l.a[0] is unit and l.a[1].op == "str":
                lits[l.a[1].a[0]] = lit(l)
        for z in walk(x):
            if z.op == "call" and z.a[0].endswith("::parse") and z.a[1] is project(cap, ("idx", ONE)):
                nums.add(project(project(z, ("v", 0)), ("f", "0")))
    if not ck.ob(f"{name}:number", len(nums) == 1, "the number of a part is not read from its text", where):
        return None
    out = {}
    none = FALSE
    for u in units:
        if u in lits:
            out[u] = lits[u]
            none = b_or(none, lits[u])
    for u in units:
        if u not in out:
            out[u] = b_not(none)
            none = TRUE
    unknown = [u for u in lits if u not in units]
    ck.ob(f"{name}:units", not unknown, f"units {unknown} are not those of the pattern", where)
    return r, c, cur, nxt, nums.pop(), out, is_part


def shifting(ck, name, sign, units, start, on_clock):
    where = SA + name
    a = arms(ck, name, units, start, where)
    if a is None:
        return
    r, c, cur, nxt, n, arm, is_part = a
    ck.ob(f"{name}:answer", r.ret is cur, f"the answer is not the date after the last part: {show(r.ret)[:200]}", where)
    ck.ob(f"{name}:refused", never(b_and(r.g, b_not(is_part))), "a text without any part is taken", where)
    kind = "time::OffsetDateTime::" if on_clock else "time::Date::"
    year, month, day = (call(kind + x, cur) for x in ("year", "month", "day"))
    mdisc = mk("disc", month, "time::month::Month")
    mnum = call(SA + "from_month_to_i32", month)

    def built(y, m):
        eom = call("time::Date::day", call("last_day_of_month", y, m))
        d = ite((cmp("Lt", eom, day), eom), (b_not(cmp("Lt", eom, day)), day))
        date = project(project(mk("call", "time::Date::from_calendar_date", y, m, d), ("v", 0)), ("f", "0"))
        if not on_clock:
            return date
        return call("time::OffsetDateTime::new_in_offset", date, call("time::OffsetDateTime::time", cur), call("time::OffsetDateTime::offset", cur))

    for u in units:
        key = f"{name}:{u}"
        got = plain(under(nxt, arm[u]), start, cur)
        ck.count("units")
        if u in SECONDS:
            m = differ(got, add(cur, mul(num(sign * SECONDS[u]), n, mk("second"))), arm[u])
            ck.ob(key, m is None, f"one part '{u}' is not that long: {m}", where)
        elif u == "Y":
            m = differ(got, built(add(year, mul(num(sign), n)), month), arm[u])
            ck.ob(key, m is None, f"years: {m}", where)
        else:
            bad, late = None, None
            for m in range(12):
                for rest in range(12):
                    for more in (0, 1, None):
                        k = num(more) if more is not None else add(num(2), KK)
                        v = add(mul(num(12), k), num(rest))
                        y = YY if sign > 0 else add(YY, k, ONE)  # years from 1 on
                        env = {n: v, mnum: num(m), mdisc: num(m), year: y}
                        x = plain(folded(got, env), start, cur)
                        total = m + sign * rest
                        w = lambda j: built(add(y, mul(num(sign), k), num(total // 12 + j)), mk("agg", MONTH, total % 12, ()))
                        e = differ(x, w(0), folded_guard(arm[u], env))
                        ck.count("month cases")
                        if e is None:
                            continue
                        what = f"{'+' if sign > 0 else '-'}({show(v)}) months from month {m + 1}: {e}"
                        if sign < 0 and differ(x, w(1), folded_guard(arm[u], env)) is None and (more is None or 12 * more + rest > m + 12):
                            late = late or what
                        else:
                            bad = bad or what
            ck.ob(key, bad is None, f"months: {bad}", where)
            if sign < 0:
                ck.ob(key + ":a year late beyond the year before", late is None, f"months: {late}", where)


def folded_guard(g, env):
    return b_of(folded(bool_t(g), env))


def month_tables(ck, q):
    for name, spec in (("from_month_to_i32", None), ("from_i32_to_month", None)):
        r = run(q, SA + name)
        ck.fn(SA + name)
        bad = []
        for i in range(12):
            a = r.ip.args[0]
            if name == "from_month_to_i32":
                g = is_v(a, i, 12)
                x = under(r.ret, g)
                ok = all(y is num(i) for h, y in cases(x) if not never(b_and(h, g)))
            else:
                x = subst(r.ret, lambda z: num(i) if z is a else None)
                live = [y for h, y in cases(x) if h != FALSE]
                ok = len(live) == 1 and live[0].op == "agg" and live[0].a[1] == i and b_of(subst(bool_t(r.g), lambda z: num(i) if z is a else None)) != FALSE
            if not ok:
                bad.append(i + 1)
        ck.ob(name, not bad, f"months {bad} are numbered wrongly", SA + name)


FRACTION = {"Y": Fraction(1), "M": Fraction(61, 2) / Fraction(1461, 4), "W": 7 / Fraction(1461, 4), "D": 1 / Fraction(1461, 4),
            "h": 1 / (Fraction(1461, 4) * 24), "min": 1 / (Fraction(1461, 4) * 1440), "sec": 1 / (Fraction(1461, 4) * 86400)}


def fraction(ck, q):
    name = "from_period_string_to_float"
    units = list(FRACTION)
    a = arms(ck, name, units, ZERO, SA + name)
    if a is None:
        return
    r, c, cur, nxt, n, arm, is_part = a
    for u in units:
        m = differ(under(nxt, arm[u]), add(cur, mul(num(FRACTION[u]), n)), arm[u])
        ck.ob(f"{name}:{u}", m is None, f"one part '{u}' does not count as its share of a year: {m}", SA + name)
    g, v = ok_part(r)
    done = c.closedform.get(cur, cur)
    m = "no value" if v is None else None if v is done else differ(v, cur, g)
    ck.ob(f"{name}:answer", m is None, f"the answer is not the sum of the parts: {m}", SA + name)
    ck.ob(f"{name}:refused", never(b_and(g, b_not(is_part))), "a text without any part is taken", SA + name)


TENOR = {"Daily": (1, "D"), "Weekly": (1, "W"), "BiWeekly": (2, "W"), "SemiMonthly": (2, "W"), "Monthly": (1, "M"), "SemiQuarterly": (2, "M"),
         "Quarterly": (3, "M"), "TriAnnually": (4, "M"), "SemiAnnually": (6, "M"), "Annually": (1, "Y")}


def text_fold(t, g):
    """constant texts cut, measured and read, where g holds"""
    def f(z):
        if z.op == "ite":
            u = under(z, g)
            if u is not z:
                return subst(u, f)
        if z.op == "ref" and z.a[0].op == "const" and not z.a[1]:
            return z.a[0].a[0]
        if z.op == "prj" and z.a[1][0] == "rng":
            s, a, b = subst(z.a[0], f), subst(z.a[1][1], f), subst(z.a[1][2], f)
            if s.op == "str" and a.op == b.op == "num":
                return mk("str", s.a[0][int(a.a[0]):int(b.a[0])])
        if z.op == "len":
            s = subst(z.a[0], f)
            if s.op == "str":
                return num(len(s.a[0]))
        if z.op == "prj" and z.a[1] == ("f", "0") and z.a[0].op == "prj" and z.a[0].a[1] == ("v", 0):
            p = z.a[0].a[0]
            if p.op == "call" and p.a[0].endswith("::parse"):
                s = subst(p.a[1], f)
                if s.op == "str" and s.a[0].isdigit():
                    return num(int(s.a[0]))
        return None
    return subst(t, f)


def frequencies(ck, q):
    P = "time::conventions::PaymentFrequency"
    names = [v["name"] for v in q.adt(P)["variants"]]
    r0 = run(q, P + "::as_str")
    r = run(q, P + "::to_string_with_multiple")
    for f in ("as_str", "to_string_with_multiple"):
        ck.fn(f"{P}::{f}")
    k = r.ip.args[1]
    for i, nm in enumerate(names):
        if nm == "None":
            continue
        ck.count("payment frequencies")
        if not ck.ob(f"PaymentFrequency:{nm}:known", nm in TENOR, "a frequency the rules do not know"):
            continue
        n, u = TENOR[nm]
        g = is_v(D(arg("self")), i, len(names))
        x = text_fold(under(r0.ret, g), g)
        ck.ob(f"PaymentFrequency:{nm}", x.op == "str" and x.a[0] == f"{n}{u}", f"its period is written {show(x)[:100]}, not {n}{u}", P + "::as_str")
        x = text_fold(under(r.ret, g), g)
        parts = x.a[-2:] if x.op == "call" and x.a[0].split("::")[-1] in ("add", "push_str", "concat") or x.op in ("push", "add") else (x, x)
        head, tail = parts
        good = tail.op == "str" and tail.a[0] == u and head.op == "call" and head.a[0].endswith("to_string") and head.a[1] is mul(num(n), k)
        ck.ob(f"PaymentFrequency:{nm}:multiple", good, f"a multiple of its period is written {show(x)[:200]}", P + "::to_string_with_multiple")


def clock(ck, q):
    """the evaluation date moves by periods"""
    E = "<evaluation_date::EvaluationDate as std::ops::"
    for tr, fn, by in (("AddAssign", "add_assign", "add_period"), ("SubAssign", "sub_assign", "sub_period"), ("Add", "add", "add_period"), ("Sub", "sub", "sub_period")):
        p = f"{E}{tr}<&str>>::{fn}"
        r = run(q, p, opaque=("::add_period", "::sub_period", "::notify_observers"))
        ck.fn(p)
        if tr.endswith("Assign"):
            want = call(SA + by, F(D(arg("self")), "date"), D(arg("rhs")))
            st = [e for e in r.events if e.kind == "store" and len(e.args) > 1 and show(e.args[0]).endswith(".date")]
            tell = [e for e in r.events if e.kind == "call" and e.name.endswith("::notify_observers")]
            good = len(st) == 1 and st[0].args[1] is want and st[0].guard == r.g
            ck.ob(f"EvaluationDate:{fn}:moved", good, f"the date becomes {[show(e.args[1])[:120] for e in st]}", p)
            ck.ob(f"EvaluationDate:{fn}:told", len(tell) == 1 and st and tell[0].seq > st[0].seq and tell[0].guard == r.g, "the observers are not told after the move", p)
        else:
            want = call(SA + by, F(arg("self"), "date"), D(arg("rhs")))
            m = differ(r.ret, want, r.g)
            ck.ob(f"EvaluationDate:{fn}", m is None, m or "", p)


def Q12(ck, q, t, meta):
    """The loop over the parts of a period text is summarised: it starts from the date
    given, applies one part per pass and returns the date after the last.  The pattern
    that cuts the text is compared with the intended cutting on all texts of one or two
    parts (constant evaluated against an oracle).  Each unit's arm is a normal form of
    the date before the part: years and months change only year and month, the day is
    the smaller of the day and the last of the new month, clock and offset are those
    reached so far; the others add their exact length.  Month arithmetic is decided for
    every month of departure, every number of months and every year: the number is
    split into whole years (left symbolic) and the rest, divisions being exact on a
    multiple of twelve plus a constant."""
    ck.q = q
    month_tables(ck, q)
    dt = ["Y", "M", "W", "D", "h", "min", "sec"]
    shifting(ck, "add_period", 1, dt, D(arg("datetime")), True)
    shifting(ck, "sub_period", -1, dt, D(arg("datetime")), True)
    shifting(ck, "add_period_date", 1, dt[:4], D(arg("date")), False)
    shifting(ck, "sub_period_date", -1, dt[:4], D(arg("date")), False)
    fraction(ck, q)
    frequencies(ck, q)
    clock(ck, q)
    ck.floor("units", 22)
    ck.floor("month cases", 4 * 432)
    ck.floor("payment frequencies", 10)


# ------------------------------------------------------------------ schedules
BUILD = "instruments::schedule::build_schedule"
PRIM = ("::add_period", "::sub_period", "::to_string_with_multiple", "::fmt", "::calendar_name")


def dates(ck, q, forward, r):
    """the raw dates: from one end, in steps counted from that end, until the other is reached"""
    way = "forward" if forward else "backward"
    eff, mat, freq = D(arg("effective_date")), D(arg("maturity")), D(arg("freq"))
    first, goal, by = (eff, mat, "add_period") if forward else (mat, eff, "sub_period")
    step = lambda c: call(SA + by, first, call("time::conventions::PaymentFrequency::to_string_with_multiple", freq, c))
    grow = "push" if forward else "pushf"
    for c in r.loops:
        if c.src is not None and c.src.op not in ("rangefrom",):
            continue
        for m in c.mus.values():
            nx = c.next.get(m)
            if nx is None or nx.op != grow or nx.a[0] is not m:
                continue
            x = nx.a[1]
            init = c.init[m]
            alone = init.op == "agg" and len(init.a[2]) == 1 and init.a[2][0][1] is first or init.op in ("push", "pushf") and init.a[1] is first and init.a[0].op == "agg" and not init.a[0].a[2]
            ck.ob(f"{way}:first", alone, f"the dates start with {show(init)[:150]}", BUILD)
            count = None
            for k in c.mus.values():
                if c.init[k] is ONE and c.next.get(k) is add(k, ONE) and x is step(k):
                    count = k
            ck.ob(f"{way}:step", count is not None, f"the next date is {show(x)[:200]}, not one more period from {show(first)[:60]}", BUILD)
            last = [k for k in c.mus.values() if c.init[k] is first and c.next.get(k) is x]
            if ck.ob(f"{way}:last", len(last) == 1, "the date reached is not followed", BUILD):
                more = cmp("Lt", last[0], goal) if forward else cmp("Gt", last[0], goal)
                out = b_any([g for _, g in c.exits])
                ck.ob(f"{way}:until", never(b_and(out, more)), f"the dates end before {show(goal)[:60]} is reached", BUILD)
                ck.ob(f"{way}:while", never(b_and(c.backguard, b_not(more))), f"the dates go on after {show(goal)[:60]} is reached", BUILD)
            return m
    ck.fail(f"{way}:dates", "the dates of the schedule are not stepped one period at a time from its one end", BUILD)
    return None


def Q13(ck, q, t, meta):
    """The generator of coupon schedules is interpreted once per direction.  The loop
    collecting the raw dates must start with the effective date (maturity), step by a
    whole multiple of the frequency counted from there, and end exactly when the other
    end is reached.  The list of periods is one entry per pair of neighbouring dates,
    whose fields are compared as normal forms with the rule: adjusted dates except the
    effective date at the head and the maturity at the tail, fixing before the start,
    payment after the end; refusals are compared as conditions."""
    b = q.fn(BUILD)
    ck.fn(BUILD)
    names = ("effective_date", "maturity", "calendar", "conv", "freq", "fixing_gap_days", "payment_gap_days")
    eff, mat, cal, conv = (D(arg(n)) for n in names[:4])
    fix, pay = arg("fixing_gap_days"), arg("payment_gap_days")
    days = lambda n: mul(num(86400), n, mk("second"))
    preceding = [v["name"] for v in q.adt("time::conventions::BusinessDayConvention")["variants"]].index("Preceding")
    prec = mk("agg", "time::conventions::BusinessDayConvention", preceding, ())
    for forward in (True, False):
        way = "forward" if forward else "backward"
        args = [bool_t(TRUE if forward else FALSE)] + [arg(n) for n in names]
        r = run(q, BUILD, opaque=PRIM, total=("::adjust",), args=args)
        raw = dates(ck, q, forward, r)
        if raw is None:
            continue
        g, v = ok_part(r)
        if not ck.ob(f"{way}:answers", v is not None, "no schedule is returned", BUILD):
            continue
        adjust = None
        for z in walk(v):
            if z.op == "call" and z.a[0].endswith("::adjust"):
                adjust = z.a[0]
        adj = lambda x, c=conv: mk("call", adjust, cal, x, c)
        data = F(v, "data")
        src = mk("range", ZERO, sub(length(raw), ONE))
        if not ck.ob(f"{way}:periods", data.op in ("seqof", "tab") and data.a[0] is src, f"not one period per pair of neighbouring dates: {show(data)[:200]}", BUILD):
            continue
        i = mk("ix", src, 0)
        n = sub(length(raw), ONE)
        body = subst(data.a[1], lambda z: project(raw, ("at", i)) if z.op == "prj" and z.a[0] is raw and z.a[1] == ("idx", i) else None)
        at = lambda k: adj(project(raw, ("at", i)) if k == 0 else project(raw, ("idx", add(i, num(k)))))
        head, tail = eq(i, ZERO), eq(add(i, ONE), n)
        hyp = b_and(cmp("Ge", i, ZERO), cmp("Lt", i, n))
        start = ite((head, eff), (b_not(head), at(0)))
        end = ite((tail, mat), (b_not(tail), at(1)))
        fixing = lift(lambda s: adj(sub(s, days(fix)), prec), start)
        payment = ite((tail, mat), (b_not(tail), adj(add(at(1), days(pay)))))
        refused = b_of(lift(lambda e, s: bool_t(cmp("Le", e, s)), end, start))
        skipped = b_any([h for h, x in cases(body) if x.op == "skip"])
        ck.ob(f"{way}:refused", never(b_and(hyp, b_ite(skipped, b_not(refused), refused))), "a period that ends no later than it starts is not what is refused", BUILD)
        whole = mk_ite([(h, x) for h, x in cases(body) if x.op != "skip"])
        care = b_and(hyp, b_not(b_or(skipped, refused)))
        for f, w in (("fixing_date", fixing), ("calc_start_date", start), ("calc_end_date", end), ("payment_date", payment), ("amount", NONE)):
            m = differ(lift(lambda x: project(x, ("f", f)), whole), w, care)
            ck.ob(f"{way}:{f}", m is None, f"{f.replace('_', ' ')}: {m}", BUILD)
            ck.count("fields of a period")
        gaps = b_and(cmp("Ge", fix, ZERO), cmp("Ge", pay, ZERO))
        ck.ob(f"{way}:gaps", never(b_and(g, b_not(gaps))), "a negative gap is taken", BUILD)
        left = [l for l in facts_of([g]) if l.op in ("exists", "loopx")]
        every = b_any([lit(l) for l in left])
        lost = b_and(b_and(gaps, b_not(every)), b_not(g))
        ck.ob(f"{way}:taken", len(left) <= 1 and never(lost), "a schedule is refused when " + b_show(lost)[:200], BUILD)
        for l in left:
            cond = [subst(x, lambda z: project(raw, ("at", i)) if z.op == "prj" and z.a[0] is raw and z.a[1] == ("idx", i) else None) for x in l.a[1:]]
            when = b_any([b_of(x) for x in cond if x.op == "b"])
            ck.ob(f"{way}:only then", never(b_and(hyp, b_and(when, b_not(refused)))), "a schedule is refused for another reason", BUILD)
    for name, fields in (("get_fixing_date", "fixing_date"), ("get_calc_start_date", "calc_start_date"), ("get_calc_end_date", "calc_end_date"), ("get_payment_date", "payment_date"), ("get_amount", "amount")):
        p = "instruments::schedule::BaseSchedule::" + name
        x = run(q, p)
        ck.fn(p)
        m = differ(deref(x.ret), F(D(arg("self")), fields), x.g)
        ck.ob(f"BaseSchedule:{name}", m is None, m or "", p)
    p = "instruments::schedule::BaseSchedule::new"
    x = run(q, p)
    ck.fn(p)
    for f in ("fixing_date", "calc_start_date", "calc_end_date", "payment_date", "amount"):
        ck.ob(f"BaseSchedule:new:{f}", F(x.ret, f) is arg(f), f"the {f} kept is {show(F(x.ret, f))[:100]}", p)
    ck.floor("fields of a period", 10)


def deref(x):
    """what a returned reference shows"""
    def f(z):
        if z.op == "ref":
            return project_path(default(z.a[0]), z.a[1]) if z.a[1] else default(z.a[0])
        return z
    return lift(f, x)
