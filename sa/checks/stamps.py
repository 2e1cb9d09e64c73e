"""Time stamps, counters and time-weighted averages."""
from spec import *
from interp import *

TS = "types::timestamp::"
GEN = TS + "DateUnixNanoGenerator"
NUM = "utils::numeric_converter::"
TIM = "utils::timer::"
SEC = 10 ** 9
HOUR = 3600 * SEC
DAY = 24 * HOUR
HELD = ("timer::get_unix_nano",)


def const(x):
    return int(x.a[0]) if x.op == "num" else None


def clocks(x):
    """whole divisions in one form: rests are rests of quotients, quotients are joined"""
    def f(z):
        if z.op in ("idiv", "irem") and len(z.a) == 2:
            x, n = clocks(z.a[0]), const(z.a[1])
            if n is None or n <= 0:
                return mk(z.op, x, z.a[1])
            if z.op == "idiv":
                if x.op == "idiv" and const(x.a[1]):
                    return clocks(mk("idiv", x.a[0], num(n * const(x.a[1]))))
                if x.op == "irem" and const(x.a[1]) and const(x.a[1]) % n == 0:
                    return clocks(mk("irem", mk("idiv", x.a[0], num(n)), num(const(x.a[1]) // n)))
                return mk("idiv", x, num(n)) if n != 1 else x
            if x.op == "irem" and const(x.a[1]) and const(x.a[1]) % n == 0:
                return clocks(mk("irem", x.a[0], num(n)))
            return mk("irem", x, num(n))
        if z.op == "icast":
            return clocks(z.a[1])
        return None
    return subst(x, f)


def q_(x, n):
    return clocks(mk("idiv", x, num(n)))


def r_(x, n):
    return clocks(mk("irem", x, num(n)))


def body_of(ck, t, p):
    ck.ob(f"{p.split('::')[-1]}:there", p in t.by_path, "no such function", p)
    if p in t.by_path:
        ck.fn(p)
        return True
    return False


def T16(ck, q, t, meta):
    """A time of day read from a record is the day in force plus the offset plus the digits read, moved by
    whole days while the time before it is fifteen hours or more ahead; the day in force moves along and the
    result is remembered. Setting the day drops the time of day, differences are divided by their own unit,
    and a log's date and time are the Gregorian day and the clock time of the instant at the offset."""
    parsing(ck, t)
    days(ck, t)
    for f, n in (("nanos", 1), ("micros", 10 ** 3), ("millis", 10 ** 6), ("secs", SEC), ("mins", 60 * SEC), ("hours", HOUR), ("days", DAY)):
        p = TS + "TimeStamp::diff_in_" + f
        if body_of(ck, t, p):
            r = run(t, p)
            d = sub(F(D(arg("self")), "stamp"), F(arg("other"), "stamp"))
            m = differ(whole_days(r.ret), div(d, num(n)), TRUE, ())
            ck.ob(f"diff_in_{f}", m is None, f"a difference is not counted in its unit: {m}", p)
            ck.count("units")
    ck.floor("units", 5)
    logs(ck, t)


def parsing(ck, t):
    p = NUM + "TimeStampConverter::parse_hhmmssuuuuuu"
    if not body_of(ck, t, p):
        return
    r = run(t, p, opaque=HELD + ("parse_under8", "parse_hhmmss_to_nanos"))
    gen, val = D(arg("date_generator")), D(arg("val"))
    g, v = ok_part(r)
    ck.ob("parse:answers", g == TRUE and v is not None, "a time of day is refused when " + b_show(b_not(g))[:200], p)
    if v is None:
        return
    stamp = project(v, ("f", "stamp"))
    loops = [c for c in r.loops if any(m is stamp for m in c.init)]
    if not ck.ob("parse:rolls over", len(loops) == 1, f"the instant is {show(stamp)[:200]}", p):
        return
    c = loops[0]
    cut = lambda a, b: project(val, ("rng", num(a), num(b)))
    parts = [x for x in r.events if x.kind == "call" and x.res is not None and (x.name.endswith("parse_under8") or x.name.endswith("parse_hhmmss_to_nanos"))]
    micro = [e.res for e in parts if e.name.endswith("parse_under8") and spans(e.args[0], val, 6, 12) and e.args[1] is num(6)]
    clock = [e.res for e in parts if e.name.endswith("parse_hhmmss_to_nanos") and spans(e.args[0], val, 0, 6)]
    if ck.ob("parse:digits", len(micro) == 1 and len(clock) == 1, "the clock time is not read from the first six digits and the microseconds from the next six: " + "; ".join(show(e.res)[:80] for e in parts), p):
        off = F(D(arg("self")), "offset_nanos")
        want = add(mul(num(1000), micro[0]), clock[0], off, F(gen, "utcdate_unix_nano"))
        m = differ(c.init[stamp], want, TRUE, ())
        ck.ob("parse:instant", m is None, f"the instant of the day in force is {m}", p)
    step = lambda m, n: differ(c.next[m], add(m, num(n)), TRUE, ())
    m = step(stamp, DAY)
    ck.ob("parse:one day more", m is None, f"one step moves the instant to {m}", p)
    prev = F(gen, "prev_timestamp")
    out = FALSE
    for _, h in c.exits:
        out = b_or(out, h)
    want = cmp("Lt", prev, add(stamp, num(15 * HOUR)))
    same = b_valid(b_or(b_and(out, b_not(want)), b_and(b_not(out), want)))
    ck.ob("parse:until in order", never(same), "the instant is final when " + b_show(out)[:300], p)
    utc = final(r, arg("date_generator"), "utcdate_unix_nano")
    ck.ob("parse:day in force", utc in c.init and c.init[utc] is F(gen, "utcdate_unix_nano") and step(utc, DAY) is None,
          f"the day in force becomes {show(utc)[:150]}, moving on by {show(c.next[utc])[:150] if utc in c.next else ''}", p)
    up = final(r, arg("date_generator"), "update_stamp")
    ok_ = up in c.next
    if ok_:
        for h, x in cases(c.next[up]):
            at_ = F(V(arg("system_timestamp"), 1), "stamp")
            now = x.op == "call" and x.a[0].endswith("get_unix_nano")
            ok_ = ok_ and (now and never(b_and(h, is_v(arg("system_timestamp"), 1, 2))) or x is at_)
    ck.ob("parse:noted", ok_, "the time of the change of day is not the one given: " + (show(c.next[up])[:200] if up in c.next else show(up)[:200]), p)
    pv = final(r, arg("date_generator"), "prev_timestamp")
    ck.ob("parse:remembered", pv is stamp, f"the time remembered is {show(pv)[:150]}", p)
    p2 = [x for x in t.by_path if x.endswith("TimeStampConverter>::krx_timestamp_converter") or x.endswith("TimeStampConverter::krx_timestamp_converter")]
    if ck.ob("exchange:there", len(p2) == 1, "no converter of the exchange's times", p):
        ck.fn(p2[0])
        r = run(t, p2[0], opaque=("IntegerConverter::new",))
        ck.ob("exchange:offset", project(r.ret, ("f", "offset_nanos")) is num(9 * HOUR), "the offset of the exchange is " + show(project(r.ret, ("f", "offset_nanos")))[:100], p2[0])


def spans(x, val, a, b):
    """whether x is the part of val from a to b"""
    s = show(x)
    return x.op == "prj" and x.a[0] is val and x.a[1][0] == "rng" and x.a[1][1] is num(a) and x.a[1][2] is num(b) or \
        x.op == "ref" and s.endswith(f"<rng,{a},{b}>") and "val" in s or (x.op == "prj" and s == f"*val[rng,{a},{b}]") or s in (f"&obj(val)<rng,{a},{b}>", f"&obj(val)[rng,{a},{b}]")


def days(ck, t):
    day = lambda x: mul(num(DAY), mk("idiv", x, num(DAY)))
    now = lambda r: [e.res for e in r.events if e.kind == "call" and e.name.endswith("get_unix_nano")]
    for f in ("set_timestamp", "set_today", "increment", "cache_timestamp"):
        p = GEN + "::" + f
        if not body_of(ck, t, p):
            continue
        r = run(t, p, opaque=HELD)
        me = D(arg("self"))
        got = {k: final(r, arg("self"), k) for k in ("utcdate_unix_nano", "prev_timestamp", "update_stamp")}
        want = {k: F(me, k) for k in got}
        if f == "set_timestamp":
            st = F(arg("timestamp"), "stamp")
            want.update(utcdate_unix_nano=day(st), update_stamp=st)
        elif f == "set_today":
            n = now(r)
            ck.ob("set_today:one reading", len(n) == 1, "the clock is not read once", p)
            if n:
                want.update(utcdate_unix_nano=day(n[0]), update_stamp=n[0])
        elif f == "increment":
            want.update(utcdate_unix_nano=add(F(me, "utcdate_unix_nano"), num(DAY)), update_stamp=arg("update_timestamp"))
        else:
            want.update(prev_timestamp=arg("stamp"))
        for k in got:
            m = differ(whole_days(got[k]), whole_days(want[k]), TRUE, ())
            ck.ob(f"{f}:{k}", m is None, f"the generator's {k} becomes {m}", p)
            ck.count("settings")
    for f in ("from_unixnano", "from_today"):
        p = GEN + "::" + f
        if not body_of(ck, t, p):
            continue
        r = run(t, p, opaque=HELD)
        v = r.ret if f == "from_unixnano" else ok_part(r)[1]
        n = now(r)
        src = arg("unix_nano") if f == "from_unixnano" else (n[0] if len(n) == 1 else None)
        if ck.ob(f"{f}:of", v is not None and src is not None, "no generator, or not of one reading of the clock", p):
            m = differ(whole_days(project(v, ("f", "utcdate_unix_nano"))), whole_days(day(src)), TRUE, ())
            ck.ob(f"{f}:day", m is None, f"the day in force is {m}", p)
            ck.ob(f"{f}:no time before", project(v, ("f", "prev_timestamp")) is num(0), "a time before is remembered at the start", p)
    for f, k in (("get_prev_timestamp", "prev_timestamp"), ("get_utcdate_unix_nano", "utcdate_unix_nano"), ("get_update_stamp", "update_stamp")):
        p = GEN + "::" + f
        if p in t.by_path:
            ck.fn(p)
            ck.ob(f, run(t, p).ret is F(D(arg("self")), k), "another time is answered", p)
    ck.floor("settings", 9)


def whole_days(x):
    """x - x rem day in the form of a quotient"""
    def f(z):
        if z.op == "irem":
            return sub(whole_days(z.a[0]), mul(z.a[1], mk("idiv", whole_days(z.a[0]), z.a[1])))
        return None
    return subst(x, f)


def logs(ck, t):
    # calendar
    p = TIM + "is_leap_year"
    y = arg("year")
    if body_of(ck, t, p):
        r = run(t, p)
        z = lambda n: cmp("Eq", mk("irem", y, num(n)), num(0))
        want = b_or(b_and(z(4), b_not(z(100))), z(400))
        got = bool_of(r.ret)
        d = b_or(b_and(got, b_not(want)), b_and(b_not(got), want))
        # what divides by 400 divides by 100, and by 4
        hyp = b_and(b_or(b_not(z(400)), z(100)), b_or(b_not(z(100)), z(4)))
        d = b_valid(b_and(d, hyp))
        ck.ob("log:leap years", never(d), "a leap year is one where " + b_show(got)[:200], p)
    p = TIM + "days_in_month"
    if body_of(ck, t, p):
        for m, n in zip(range(1, 13), (31, None, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)):
            r = run(t, p, args=[y, num(m)], opaque=("timer::is_leap_year",))
            if n is not None:
                ck.ob(f"log:month {m}", r.ret is num(n), f"month {m} has {show(r.ret)[:100]} days", p)
            else:
                l = lit(call(TIM + "is_leap_year", y))
                okk = differ(r.ret, ite((l, num(29)), (b_not(l), num(28))), TRUE, ()) is None
                ck.ob("log:month 2", okk, f"February has {show(r.ret)[:150]} days", p)
            ck.count("months")
        ck.floor("months", 12)
    calendar(ck, t)
    p = TIM + "convert_unix_nano_to_date_and_time"
    if not body_of(ck, t, p):
        return
    r = run(t, p, opaque=("days_to_date",))
    x, off = arg("unix_nano"), arg("utc_offset_hour")
    dates = [e for e in r.events if e.kind == "call" and e.name.endswith("days_to_date")]
    shown = [fmtvals(project(r.ret, ("f", k))) for k in ("0", "1")]
    h = q_(x, HOUR)
    tot = add(r_(h, 24), off)
    over, under = cmp("Ge", tot, num(24)), cmp("Lt", tot, num(0))
    mid = b_and(b_not(over), b_not(under))
    sane = b_not(b_and(over, under))
    hour = ite((over, sub(tot, num(24))), (b_and(b_not(over), under), add(tot, num(24))), (mid, tot))
    d0 = q_(x, DAY)
    dd = ite((over, add(d0, num(1))), (b_and(b_not(over), under), sub(d0, num(1))), (mid, d0))
    if ck.ob("log:day", len(dates) == 1, "the date is not made of one day", p):
        m = differ(clocks(dates[0].args[0]), dd, sane, ())
        ck.ob("log:day of the instant", m is None, f"the day shown is {m}", p)
        parts = [project(dates[0].res, ("f", k)) for k in "012"]
        ok_ = shown[0] is not None and len(shown[0][0]) == 3 and all(a is b for a, b in zip(shown[0][0], parts))
        ck.ob("log:date order", ok_, f"the date shows {show(project(r.ret, ('f', '0')))[:300]}", p)
        ck.ob("log:date form", shown[0] is not None and shown[0][1] == DATE_FORM, f"the date is laid out as {shown[0][1] if shown[0] else None}", p)
    want = [hour, r_(q_(x, 60 * SEC), 60), r_(q_(x, SEC), 60), r_(q_(x, 10 ** 6), 1000), r_(q_(x, 10 ** 3), 1000), r_(x, 1000)]
    if ck.ob("log:time parts", shown[1] is not None and len(shown[1][0]) == 6, "the time does not show six parts", p):
        for n, a, b in zip(("hour", "minute", "second", "millisecond", "microsecond", "nanosecond"), shown[1][0], want):
            m = differ(clocks(a), b, sane, ())
            ck.ob(f"log:{n}", m is None, f"the {n} shown is {m}", p)
            ck.count("parts of the time")
        ck.ob("log:time form", shown[1][1] == TIME_FORM, f"the time is laid out as {shown[1][1]}", p)
    ck.floor("parts of the time", 6)
    p = TIM + "time_components_from_unix_nano"
    if body_of(ck, t, p):
        x = arg("unix_nano")
        r = run(t, p)
        for k, w in zip("0123", (r_(q_(x, HOUR), 24), r_(q_(x, 60 * SEC), 60), r_(q_(x, SEC), 60), r_(q_(x, 10 ** 6), 1000))):
            m = differ(clocks(project(r.ret, ("f", k))), w, TRUE, ())
            ck.ob(f"components:{k}", m is None, f"part {k} of the clock time is {m}", p)


def bool_of(x):
    """the condition under which a truth value holds"""
    g = FALSE
    for h, v in cases(x):
        g = b_or(g, b_and(h, v.a[0] if v.op in ("b", "B") else lit(v)))
    return g


def fmtvals(s):
    """(values shown, layout) of a formatted text"""
    found = []

    def f(z):
        if z.op == "call" and z.a[0].endswith("fmtargs") or z.op == "fmtargs":
            found.append(z)
        return None
    subst(s, f)
    if len(found) != 1:
        return None
    xs = [a for a in found[0].a if isinstance(a, T)]
    if len(xs) != 2:
        return None
    lay = tuple(const(project(xs[0], ("f", str(i)))) for i in range(len(xs[0].a[2]))) if xs[0].op == "agg" else None
    vals = [project(xs[1], ("f", str(i))) for i in range(len(xs[1].a[2]))]
    return [v.a[-1] for v in vals], lay


# layouts as compiled: a value with width n is 195 32 0 0 105 n 0, a character is 1 and its code
def layout(text):
    out = ()
    for x in text:
        out += (195, 32, 0, 0, 105, x, 0) if isinstance(x, int) else (1, ord(x))
    return out + (0,)


DATE_FORM = layout([4, 2, 2])
TIME_FORM = layout([2, ":", 2, ":", 2, ".", 3, ":", 3, ":", 3])


def calendar(ck, t):
    p = TIM + "days_to_date"
    if not body_of(ck, t, p):
        return
    r = run(t, p, opaque=("timer::is_leap_year", "timer::days_in_month"))
    year, month, dom = (project(r.ret, ("f", k)) for k in "012")
    ly = [c for c in r.loops if any(m is year for m in c.init)]
    lm = [c for c in r.loops if any(m is month for m in c.init)]
    if not ck.ob("log:calendar", len(ly) == 1 and len(lm) == 1 and ly[0] is not lm[0], "the date is not counted by years and then by months", p):
        return
    ly, lm = ly[0], lm[0]
    rest = [m for m in ly.init if ly.init[m] is arg("days")]
    ck.ob("log:years from 1970", ly.init[year] is num(1970) and differ(ly.next[year], add(year, num(1)), TRUE, ()) is None, f"years count from {show(ly.init[year])[:60]}", p)
    if ck.ob("log:days of years", len(rest) == 1, "the days are not counted down by years", p):
        rest = rest[0]
        leap = lit(call(TIM + "is_leap_year", year))
        size = ite((leap, num(366)), (b_not(leap), num(365)))
        m = differ(ly.next[rest], sub(rest, size), TRUE, ())
        ck.ob("log:a year's days", m is None, f"a year takes {m}", p)
        exit_ok(ck, "log:year found", ly, ite_cmp("Lt", rest, ((leap, num(366)), (b_not(leap), num(365)))), p)
        inner = [m for m in lm.init if lm.init[m] is rest]
        ck.ob("log:months from January", lm.init[month] is num(1) and differ(lm.next[month], add(month, num(1)), TRUE, ()) is None, f"months count from {show(lm.init[month])[:60]}", p)
        if ck.ob("log:days of months", len(inner) == 1, "the days of the year are not counted down by months", p):
            inner = inner[0]
            size = call(TIM + "days_in_month", year, month)
            m = differ(lm.next[inner], sub(inner, size), TRUE, ())
            ck.ob("log:a month's days", m is None, f"a month takes {m}", p)
            exit_ok(ck, "log:month found", lm, cmp("Lt", inner, size), p, inner, size)
            m = differ(dom, add(inner, num(1)), TRUE, ())
            ck.ob("log:day of the month", m is None, f"the day of the month is {m}", p)


def ite_cmp(op, a, cs):
    g = FALSE
    for h, v in cs:
        g = b_or(g, b_and(h, cmp(op, a, v)))
    return g


def exit_ok(ck, key, c, want, p, left=None, size=None):
    out = FALSE
    for _, h in c.exits:
        out = b_or(out, h)
    d = b_or(b_and(out, b_not(want)), b_and(b_not(out), want))
    if left is not None:
        # what is left is not negative, and no day left is less than any month
        d = b_and(d, b_and(cmp("Ge", left, num(0)), b_or(b_not(cmp("Le", left, num(0))), want)))
        d = b_and(d, b_or(b_not(cmp("Eq", left, num(0))), want))
    ck.ob(key, never(b_valid(d)), "counting stops when " + b_show(out)[:300], p)


CTR = "utils::counter::"


def T15(ck, q, t, meta):
    """Every request for a number is one indivisible addition of one to the counter, which starts at the
    start given; the number given is the one read by that addition, and a bounded counter refuses it exactly
    if it is beyond the end given. Nothing else changes the counter."""
    for w in ("Usize", "U64"):
        for kind in ("Counter", "UnboundedCounter"):
            ty = CTR + kind + w
            p = ty + "::new"
            if not ck.ob(f"{kind}{w}:there", p in t.by_path and ty + "::next" in t.by_path, "no such counter", p):
                continue
            ck.fn(p)
            r = run(t, p)
            at_ = project(r.ret, ("f", "counter"))
            news = [e for e in r.events if e.kind == "call" and "::atomic::" in e.name and e.res is at_]
            ck.ob(f"{kind}{w}:start", len(news) == 1 and news[0].args[0] in (arg("start"), arg("_start")), f"the counter starts as {show(at_)[:100]}", p)
            if kind == "Counter":
                ck.ob(f"{kind}{w}:end", project(r.ret, ("f", "end")) is arg("end"), "the end kept is " + show(project(r.ret, ("f", "end")))[:80], p)
            p = ty + "::next"
            ck.fn(p)
            r = run(t, p)
            ops = [e for e in r.events if e.kind == "call" and "::atomic::" in e.name]
            if not ck.ob(f"{kind}{w}:one step", len(ops) == 1 and ops[0].name.endswith("fetch_add") and ops[0].guard == TRUE and not ops[0].loops,
                         "a number is not taken by one indivisible addition: " + ", ".join(e.name.split("::")[-1] for e in ops), p):
                continue
            e = ops[0]
            ck.ob(f"{kind}{w}:by one", e.args[1] is num(1) and show(e.args[0]) == "&obj(self).counter", f"the step is {show(e.args[1])[:60]}", p)
            if kind == "UnboundedCounter":
                ck.ob(f"{kind}{w}:number", r.ret is e.res, f"the number given is {show(r.ret)[:150]}", p)
            else:
                g, v = ok_part(r)
                want = cmp("Le", e.res, F(D(arg("self")), "end"))
                bad = b_valid(b_or(b_and(g, b_not(want)), b_and(b_not(g), want)))
                ck.ob(f"{kind}{w}:to the end", never(bad), "a number is given when " + b_show(g)[:200], p)
                ck.ob(f"{kind}{w}:number", v is e.res, f"the number given is {show(v)[:150] if v is not None else None}", p)
            ck.count("counters")
            others = [x for x in t.by_path if x.startswith(ty + "::") or x.startswith(f"<{ty} as")]
            for x in others:
                if x in (ty + "::new", p) or "{closure" in x:
                    continue
                ck.fn(x)
                rr = run(t, x)
                ops = [e for e in rr.events if e.kind == "call" and "::atomic::" in e.name and not e.name.endswith("::load")]
                ck.ob(f"{x}:kept", not ops, "the counter is also changed here", x)
    p = "types::base::VirtualOrderId::next_id"
    if body_of(ck, t, p):
        r = run(t, p)
        me = F(D(arg("self")), "order_id")
        ck.ob("next_id:number", r.ret is me, f"the number given is {show(r.ret)[:100]}", p)
        ck.ob("next_id:by one", differ(final(r, arg("self"), "order_id"), add(me, num(1)), TRUE, ()) is None, f"the next is {show(final(r, arg('self'), 'order_id'))[:100]}", p)
    ck.floor("counters", 4)


W = "feature::weight::TimeSeriesWeight::"
V_ = "feature::weighted_valuation::"
SCALES = {"Micro": 10 ** 3, "Milli": 10 ** 6, "Second": SEC, "Minute": 60 * SEC, "Hour": HOUR, "Day": DAY}


def T18(ck, q, t, meta):
    """The weight over an interval is the weight of one unit to the power of the time between the two stamps
    counted in the weight's own unit. An update keeps that weight of the value before and takes the rest of
    the new value (average) or all of it (sum), and moves its time to the new stamp."""
    p = W + "apply"
    if not body_of(ck, t, p):
        return
    r = run(t, p)
    me = D(arg("self"))
    scale, w = F(me, "scale"), F(me, "weight")
    d = sub(F(arg("current_ts"), "stamp"), F(arg("prev_ts"), "stamp"))
    ad = t.adt(TS + "TimeScale")
    names = [v["name"] for v in ad["variants"]]
    ck.ob("apply:units", set(names) == set(SCALES), f"the units are {names}", p)
    for i, n in enumerate(names):
        if n not in SCALES:
            continue
        want = mk("call", "powf", w, div(d, num(SCALES[n])))
        got = [(h, x) for h, x in cases(r.ret) if not never(b_valid(b_and(h, is_v(scale, i, len(names)))))]
        ok_ = got != [] and all(x.op == "call" and x.a[0].endswith("powf") and x.a[1] is w and differ(whole_days(x.a[2]), div(d, num(SCALES[n])), TRUE, ()) is None for _, x in got)
        ck.ob(f"apply:{n}", ok_, "the weight of an interval is " + "; ".join(show(x)[:150] for _, x in got), p)
        ck.count("units")
    ck.floor("units", 5)
    for ty, fld, mean in (("EWMA", "value", True), ("EWMS", "summation", False)):
        p = V_ + ty + "::update"
        if not body_of(ck, t, p):
            continue
        r = run(t, p, opaque=("TimeSeriesWeight::apply",))
        ap = [e for e in r.events if e.kind == "call" and e.name.endswith("TimeSeriesWeight::apply")]
        was = F(me, fld)
        if ck.ob(f"{ty}:interval", len(ap) >= 1 and all(len(e.args) == 3 and e.args[1] is F(me, "timestamp") and e.args[2] is arg("new_timestamp") for e in ap),
                 "the weight is not that of the time since the last update", p):
            a = ap[0].res
            own = show(ap[0].args[0])
            ck.ob(f"{ty}:own weight", own == "&obj(self).weight", f"the weight is {own}", p)
            want = add(mul(a, was), mul(sub(num(1), a), arg("new_value")) if mean else arg("new_value"))
            m = differ(final(r, arg("self"), fld), want, TRUE, ())
            ck.ob(f"{ty}:value", m is None, f"an update gives {m}", p)
        ck.ob(f"{ty}:remembered", final(r, arg("self"), "timestamp") is arg("new_timestamp"), "the time of the update is " + show(final(r, arg("self"), "timestamp"))[:100], p)
        ck.ob(f"{ty}:weight kept", final(r, arg("self"), "weight") is F(me, "weight"), "an update changes the weight", p)
        ck.count("averages")
        p = V_ + ty + "::new"
        if body_of(ck, t, p):
            r = run(t, p)
            ck.ob(f"{ty}:new", all(project(r.ret, ("f", k)) is arg(k) for k in ("weight", "timestamp")) and project(r.ret, ("f", fld)) is (arg("value") if mean else num(0)),
                  f"a new one is {show(r.ret)[:200]}", p)
        p = V_ + ty + "::get_value"
        if body_of(ck, t, p):
            ck.ob(f"{ty}:get_value", run(t, p).ret is was, "another value is answered", p)
    ck.floor("averages", 2)
