"""Holidays, business-day adjustment and day counts."""
import datetime
import json
import os
from spec import *
from terms import _nodes as NODES, _vars as VARS
from interp import Interp

CT = "time::calendar_trait::CalendarTrait::"
HOL = "time::holiday::Holidays"
SELF, DATE = arg("self"), arg("date")
HERE = os.path.dirname(os.path.abspath(__file__))


DIGITS = bytes([48, 49] + [48] * 254)


class Gap(Exception):
    """the rule uses something the tabulation does not know"""


class Domain:
    """the days over which a rule is tabulated: one entry per day"""

    def __init__(self, days):
        self.days = days
        self.n = len(days)
        self.cls, self.hold = {}, []
        self.all = (1 << self.n) - 1
        tt = [(d.year, d.month - 1, d.day, d.weekday(), d.timetuple().tm_yday, d.toordinal() * 86400) for d in days]
        self.f = {k: [x[i] for x in tt] for i, k in enumerate(("year", "month", "day", "weekday", "ordinal", "stamp"))}

    def mask(self, bools):
        return int(bytes(map(bool, bools))[::-1].translate(DIGITS) or b"0", 2)

    def classes(self, col):
        """value -> mask of the entries with that value"""
        c = self.cls.get(id(col))
        if c is None:
            at = {}
            for i, x in enumerate(col):
                at.setdefault(x, []).append(i)
            c = {}
            for x, ix in at.items():
                b = bytearray(self.n)
                for i in ix:
                    b[i] = 1
                c[x] = self.mask(b)
            self.cls[id(col)] = c
            self.hold.append(col)
        return c

    def where(self, col, f):
        m = 0
        for x, c in self.classes(col).items():
            if f(x):
                m |= c
        return m

    def days_of(self, m):
        s = bin(m)[2:][::-1]
        return [self.days[i] for i, c in enumerate(s) if c == "1"]


class Rules:
    """tabulates date predicates of the crate from their value summaries; nothing of the crate is executed"""

    def __init__(self, ck, q, dom, self_type=None):
        self.ck, self.q, self.dom, self.self_type = ck, q, dom, self_type
        self.sums = {}
        self.memo = {}
        self.stack = []

    def summary(self, body):
        r = self.sums.get(body["path"])
        if r is None:
            ip = Interp(self.q, opaque=lambda x: x["path"] != body["path"])
            r = ip.analyze(body, args=[arg(f"{body['path']}#{i}") for i in range(body["args"])])
            r.ip = ip
            self.sums[body["path"]] = r
            self.ck.fn(body["path"])
        return r

    def resolve(self, name):
        cands = [name] if not name.startswith("::") else []
        m = name.rsplit("::", 1)[1]
        if self.self_type and (name.startswith("::") or name.startswith(HOL)):
            cands = [f"<{self.self_type} as {HOL}>::{m}", HOL + "::" + m] + cands
        for c in cands:
            r = self.q.by_path.get(c)
            if r and len(r) == 1:
                return r[0]
        return None

    def call(self, name, args):
        """mask (predicates) or value of a crate function applied to values per entry"""
        body = self.resolve(name)
        if body is None:
            raise Gap("call of " + name)
        key = (body["path"],) + tuple(a if not isinstance(a, list) else id(a) for a in args)
        if key in self.memo:
            return self.memo[key]
        if body["path"] in self.stack:
            raise Gap("recursion through " + name)
        self.stack.append(body["path"])
        try:
            r = self.summary(body)
            env = {f"{body['path']}#{i}": a for i, a in enumerate(args)}
            ev = Eval(self, env)
            done = ev.guard(r.g)
            if done != self.dom.all:
                bad = self.dom.days_of(self.dom.all & ~done)[0]
                self.ck.fail(f"answers:{name.rsplit('::', 1)[1]}", f"{body['path']} has no answer on {bad} (an index out of range, an overflow or an unwrap)")
            v = ev.value(r.ret)
        finally:
            self.stack.pop()
        self.memo[key] = v
        self.keep = getattr(self, "keep", [])
        self.keep.append(args)
        return v


class Eval:
    def __init__(self, rules, env):
        self.r, self.env, self.dom = rules, env, rules.dom
        self.vals, self.masks = {}, {0: 0, 1: rules.dom.all}

    # -- guards
    def guard(self, f):
        m = self.masks.get(f)
        if m is None:
            v, lo, hi = NODES[f]
            l = self.lit(VARS[v])
            m = (l & self.guard(hi)) | (~l & self.dom.all & self.guard(lo))
            self.masks[f] = m
        return m

    def lit(self, t):
        k = ("lit", t)
        m = self.vals.get(k)
        if m is None:
            m = self.vals[k] = self._lit(t)
        return m

    def _lit(self, t):
        d = self.dom
        if t.op == "isv":
            s, k = t.a
            if s.op == "cmp":
                f = (lambda x: x < 0) if k == 0 else (lambda x: x == 0) if k == 1 else (lambda x: x > 0)
                p = s.a[0]
                one = self.affine(p)
                if one:
                    a, c, b = one
                    col = self.value(a)
                    if isinstance(col, list):
                        return d.where(col, lambda x: f(c * x + b))
                return d.mask([f(x) for x in self.col(p)])
            if s.op == "call" and s.a[0].endswith("from_ordinal_date"):
                y, o = (self.col(x) for x in s.a[1:3])
                good = d.mask([1 <= b <= (366 if leap(a) else 365) for a, b in zip(y, o)])
                return good if k == 0 else d.all & ~good
            v = self.value(s)
            return d.where(v, lambda x: x == k) if isinstance(v, list) else (d.all if v == k else 0)
        if t.op == "isz":
            return d.mask([x == 0 for x in self.col(t.a[0])])
        if t.op == "contains":
            return self.contains(*t.a)
        v = self.value(t)
        if isinstance(v, bool):
            return d.all if v else 0
        if isinstance(v, int):
            return v
        raise Gap(f"condition {show(t)[:120]}")

    def affine(self, p):
        """(atom, coefficient, constant) of a polynomial in one atom"""
        if p.op != "poly":
            return (p, 1, 0) if p.op != "num" else None
        one, b = None, 0
        for mono, c in p.a[0]:
            if not mono:
                b = c
            elif len(mono) == 1 and mono[0][1] == 1 and one is None:
                one = (mono[0][0], c)
            else:
                return None
        return one and (*one, b)

    def contains(self, xs, x):
        if xs.op != "agg":
            raise Gap(f"membership in {show(xs)[:80]}")
        m = 0
        for _, e in xs.a[2]:
            m |= self.same(e, x)
        return m

    def same(self, e, x):
        if e.op == "agg" and e.a[0] == "tuple":
            m = self.dom.all
            for n, c in e.a[2]:
                m &= self.same(c, project(x, ("f", n)))
            return m
        return self.dom.mask([a == b for a, b in zip(self.col(e), self.col(x))])

    # -- values
    def col(self, t):
        v = self.value(t)
        if isinstance(v, list):
            return v
        return [v] * self.dom.n

    def value(self, t):
        """a mask for a predicate, a column for a number, enum or day, a constant, or a tuple of them"""
        if t in self.vals:
            return self.vals[t]
        v = self.vals[t] = self._value(t)
        return v

    def _value(self, t):
        op, d = t.op, self.dom
        if op == "num":
            x = t.a[0]
            return int(x) if x.denominator == 1 else x
        if op == "b":
            return self.guard(t.a[0])
        if op == "second":
            return 1
        if op == "arg":
            if t.a[0] in self.env:
                return self.env[t.a[0]]
            raise Gap(f"argument {t.a[0]}")
        if op == "deref":
            return self.value(t.a[0])
        if op == "agg":
            if t.a[0] in ("tuple", "array"):
                return tuple(self.value(x) for _, x in t.a[2])
            if not t.a[2]:
                return t.a[1]
            raise Gap(f"value {show(t)[:80]}")
        if op == "irem":
            a, b = self.col(t.a[0]), self.col(t.a[1])
            return [x - y * int(x / y) for x, y in zip(a, b)]
        if op == "poly":
            out = [0] * d.n
            for mono, c in t.a[0]:
                c = int(c) if c.denominator == 1 else c
                if not mono:
                    out = [o + c for o in out]
                    continue
                part = [c] * d.n
                for at_, e in mono:
                    if at_.op == "second":
                        continue
                    if e < 0:
                        raise Gap("division")
                    v = self.col(at_)
                    for _ in range(e):
                        part = [x * y for x, y in zip(part, v)]
                out = [o + p for o, p in zip(out, part)]
            return out
        if op == "ite":
            out = [None] * d.n
            for g, x in t.a[0]:
                m = self.guard(g)
                v = self.value(x)
                if isinstance(v, tuple):
                    raise Gap("conditional tuple")
                s = bin(m)[2:][::-1]
                col = v if isinstance(v, list) else None
                for i, c in enumerate(s):
                    if c == "1":
                        out[i] = col[i] if col else v
            return out
        if op == "prj":
            base, k = t.a
            v = self.value(base)
            if base.op == "call" and k[0] == "v" or base.op == "prj" and base.a[1][0] == "v" and not isinstance(v, tuple):
                return v
            if k[0] == "f" and isinstance(v, tuple):
                return v[int(k[1])]
            if k[0] in ("idx", "at") and isinstance(v, tuple):
                ix = self.col(k[1])
                # entries out of range are refused by the guard, not read
                return [v[int(i)] if 0 <= i < len(v) else 0 for i in ix]
            raise Gap(f"value {show(t)[:80]}")
        if op == "call":
            return self.callv(t)
        raise Gap(f"value {show(t)[:80]}")

    def callv(self, t):
        name, args = t.a[0], [x for x in t.a[1:]]
        last = name.rsplit("::", 1)[1]
        if name in ("contains",):
            return self.contains(*args)
        if name.startswith("time::OffsetDateTime::") or name.startswith("time::Date::"):
            if last in ("year", "month", "day", "weekday", "ordinal", "date", "to_julian_day"):
                x = self.value(args[0])
                if x is self.dom.f["stamp"]:
                    return x if last == "date" else self.dom.f[last]
                if last == "date":
                    return x
                if isinstance(x, list):
                    dd = [datetime.date.fromordinal(v // 86400) for v in x]
                    return [{"year": z.year, "month": z.month - 1, "day": z.day, "weekday": z.weekday(), "ordinal": z.timetuple().tm_yday}[last] for z in dd]
        if name.endswith("from_ordinal_date"):
            y, o = (self.col(x) for x in args[:2])
            return [(datetime.date(a, 1, 1).toordinal() + b - 1) * 86400 if 1 <= a <= 9999 else 0 for a, b in zip(y, o)]
        return self.r.call(name, [self.value(x) for x in args])


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


# ---------------------------------------------------------------- the rules a calendar's users rely on
MON, TUE, WED, THU, FRI = range(5)


def easter_monday(y, orthodox=False):
    """computus: anonymous Gregorian, or Meeus' Julian algorithm carried to the Gregorian calendar"""
    if orthodox:
        a, b, c = y % 4, y % 7, y % 19
        d = (19 * c + 15) % 30
        e = (2 * a + 4 * b - d + 34) % 7
        m, day = divmod(d + e + 114, 31)
        shift = y // 100 - y // 400 - 2
        e = datetime.date(y, m, day + 1) + datetime.timedelta(shift)
    else:
        a, b, c = y % 19, y // 100, y % 100
        d, e, f = b // 4, b % 4, (b + 8) // 25
        g = (b - f + 1) // 3
        h = (19 * a + b - d - g + 15) % 30
        i, k = c // 4, c % 4
        l = (32 + 2 * e + 2 * i - h - k) % 7
        m = (a + 11 * h + 22 * l) // 451
        e = datetime.date(y, (h + l - 7 * m + 114) // 31, (h + l - 7 * m + 114) % 31 + 1)
    return e + datetime.timedelta(1)


def good_friday(x, orthodox=False):
    return x == easter_monday(x.year, orthodox) - datetime.timedelta(3)


def moved(x, m, d, friday=True, w=None):
    """a fixed date, on Monday if it falls on a Sunday and on Friday if it falls on a Saturday"""
    return x.month == m and (x.day == d or (x.day == d + 1 and x.weekday() == MON) or (friday and x.day == d - 1 and x.weekday() == FRI))


def nth(x, m, w, lo, hi):
    return x.month == m and x.weekday() == w and lo <= x.day <= hi


def washington(x):
    return nth(x, 2, MON, 15, 21) if x.year >= 1971 else moved(x, 2, 22)


def memorial(x):
    return nth(x, 5, MON, 25, 31) if x.year >= 1971 else moved(x, 5, 30)


def veterans(x, friday):
    if x.year <= 1970 or x.year >= 1978:
        return moved(x, 11, 11, friday)
    return nth(x, 10, MON, 22, 28)


def juneteenth(x, friday=True):
    return x.year >= 2022 and moved(x, 6, 19, friday)


def columbus(x):
    return x.year >= 1971 and nth(x, 10, MON, 8, 14)


def king(x, since):
    return x.year >= since and nth(x, 1, MON, 15, 21)


def common(x):
    """closed under every United States calendar"""
    return (moved(x, 1, 1, False) or washington(x) or memorial(x) or nth(x, 9, MON, 1, 7) or nth(x, 11, THU, 22, 28)
            or moved(x, 7, 4, False) or moved(x, 12, 25, False) or juneteenth(x, False))


def fridays(x):
    return moved(x, 7, 4) or moved(x, 12, 25) or juneteenth(x)


def bonds(x):
    ymd = (x.year, x.month, x.day)
    return (common(x) or fridays(x) or king(x, 1983) or columbus(x) or veterans(x, False)
            or (good_friday(x) and x.year not in (2015, 2021, 2023))
            or ymd in ((2018, 12, 5), (2012, 10, 30), (2004, 6, 11)))


CLOSED = {(2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11), (2001, 9, 11), (2001, 9, 12), (2001, 9, 13),
          (2001, 9, 14), (1994, 4, 27), (1985, 9, 27), (1977, 7, 14), (1973, 1, 25), (1972, 12, 28), (1969, 7, 21), (1969, 3, 31),
          (1969, 2, 10), (1968, 7, 5), (1968, 4, 9), (1963, 11, 25), (1961, 5, 29), (1958, 12, 26), (1954, 12, 24), (1956, 12, 24),
          (1965, 12, 24)}


def nyse(x):
    return (common(x) or fridays(x) or good_friday(x) or king(x, 1998)
            or ((x.year <= 1968 or (x.year <= 1980 and x.year % 4 == 0)) and nth(x, 11, TUE, 1, 7))
            or (x.year, x.month, x.day) in CLOSED
            or (x.year == 1968 and x.timetuple().tm_yday >= 163 and x.weekday() == WED))


UNITED_STATES = {
    "Settlement": lambda x: common(x) or fridays(x) or king(x, 1983) or columbus(x) or veterans(x, True) or (x.month == 12 and x.day == 31 and x.weekday() == FRI),
    "Nyse": nyse,
    "GovernmentBond": bonds,
    "Sofr": lambda x: good_friday(x) or bonds(x),
    "FederalReserve": lambda x: common(x) or king(x, 1983) or columbus(x) or veterans(x, False),
}

LUNAR = json.load(open(os.path.join(HERE, "..", "oracles", "lunar.json")))
FIXED = {(1, 1), (3, 1), (5, 1), (5, 5), (6, 6), (8, 15), (10, 3), (10, 9), (12, 25)}
TEMPORARY = {(2023, 1, 24), (2023, 5, 1), (2023, 5, 29), (2023, 10, 2), (2024, 2, 12), (2024, 5, 6)}


def korea(x):
    o, i = x.timetuple().tm_yday, x.year - 1901
    return ((x.month, x.day) in FIXED or (x.year, x.month, x.day) in TEMPORARY or abs(o - LUNAR["new_year"][i]) <= 1
            or o == LUNAR["buddha"][i] or abs(o - LUNAR["chuseok"][i]) <= 1)


def last_weekday(x):
    """the last Monday-to-Friday day of the year"""
    return x.month == 12 and x.weekday() < 5 and x.day > 28 and all(
        datetime.date(x.year, 12, d).weekday() >= 5 for d in range(x.day + 1, 32))


SOUTH_KOREA = {"Settlement": korea, "Krx": lambda x: korea(x) or last_weekday(x)}


def days(y0, y1, weekdays=True):
    d0 = datetime.date(y0, 1, 1).toordinal()
    out = [datetime.date.fromordinal(k) for k in range(d0, datetime.date(y1, 12, 31).toordinal() + 1)]
    return [x for x in out if x.weekday() < 5] if weekdays else out


def tabulate(ck, q, ty, oracle, y0, y1):
    short = ty.rsplit("::", 1)[1]
    dom = Domain(days(y0, y1))
    names = [v["name"] for v in q.adt(ty)["variants"]]
    ck.ob(f"{short}:kinds", set(names) == set(oracle), f"the calendar kinds are {names}, rules are known for {sorted(oracle)}")
    rules = Rules(ck, q, dom, ty)
    for i, n in enumerate(names):
        if n not in oracle:
            continue
        want = dom.mask([oracle[n](x) for x in dom.days])
        try:
            got = rules.call(f"<{ty} as {HOL}>::is_holiday", [i, dom.f["stamp"]])
        except Gap as e:
            ck.fail(f"{short}:{n}", f"the rule cannot be tabulated: {e}")
            continue
        more, less = dom.days_of(got & ~want), dom.days_of(want & ~got)
        ck.ob(f"{short}:{n}:holidays", not less, f"not a holiday though its rules say so: {', '.join(map(str, less[:5]))} ({len(less)} days)")
        ck.ob(f"{short}:{n}:open", not more, f"a holiday its rules do not know: {', '.join(map(str, more[:5]))} ({len(more)} days)")
        ck.count("days tabulated", dom.n)
        ck.count("calendar kinds")
    return rules


def dates_of(t):
    """time zone shifts that change nothing are dropped; a predicate of a calendar is named without the route to it"""
    def f(z):
        if z.op == "call" and z.a[0] == "to_offset" and z.a[1].op == "call" and z.a[1].a[0] == z.a[0] and z.a[1].a[2] is z.a[2]:
            return dates_of(z.a[1])
        if z.op == "call" and z.a[0].endswith(("::is_holiday", "::is_weekend")):
            return mk("call", z.a[0].rsplit("::", 1)[1], *map(dates_of, z.a[1:]))
        return None
    return subst(t, f)


def calendar_rules(ck, q):
    """each calendar: weekends and, unless removed, the rules' holidays and the added ones, on the calendar's own date"""
    for path, ty, off in (("southkorea::SouthKorea", "southkorea::SouthKoreaType", 9), ("unitedstates::UnitedStates", "unitedstates::UnitedStatesType", -5),
                          ("nullcalendar::NullCalendar", None, None)):
        full = "time::calendars::" + path
        name = path.rsplit("::", 1)[1]
        tyname = ty and "time::calendars::" + ty
        spec = f"<{tyname} as {HOL}>::is_holiday"
        shift = "to_offset"
        me = D(SELF)
        local = mk("call", shift, D(DATE), F(me, "utc_offset")) if ty else D(DATE)
        on = lambda x: mk("call", "time::OffsetDateTime::date", x)
        w = mk("call", "time::OffsetDateTime::weekday", local)
        weekend = b_or(is_v(w, 5, 7), is_v(w, 6, 7))
        listed = lambda lst, x: lit(mk("call", "contains", F(me, lst), on(x)))
        rule = lambda x: lit(mk("call", "is_holiday", F(me, "specific_type"), x))
        if ty:
            base = lambda x: rule(x)
            holiday = b_or(weekend, b_and(b_not(listed("holiday_remover", local)), b_or(rule(local), listed("holiday_adder", local))))
            wants = {"is_holiday": holiday, "is_weekend": weekend}
        else:
            wants = {"is_holiday": weekend, "is_weekend": weekend}
        for m, want in wants.items():
            p = f"<{full} as time::calendar_trait::CalendarTrait>::{m}"
            ck.fn(p)
            r = run(q, p, opaque=(spec,) if ty else ())
            got = dates_of(r.ret)
            d = differ(got, bool_t(want), r.g)
            ck.ob(f"{name}:{m}", d is None, d or "")
            ck.ob(f"{name}:{m}:answers", never(b_not(r.g)), "no answer when " + b_show(b_not(r.g))[:200])
        if not ty:
            continue
        for m, lst in (("add_holidays", "holiday_adder"), ("remove_holidays", "holiday_remover")):
            p = f"<{full} as time::calendar_trait::CalendarTrait>::{m}"
            ck.fn(p)
            r = run(q, p)
            g, _ = ok_part(r)
            ck.ob(f"{name}:{m}:accepts", never(b_not(g)), "refused when " + b_show(b_not(g))[:200])
            changes = [e for e in r.events if e.args and isinstance(e.args[0], T) and e.args[0].op == "ref"]
            one = len(changes) == 1 and changes[0].kind == "push" and changes[0].guard == TRUE and not changes[0].loops
            ck.ob(f"{name}:{m}:lists", one and changes[0].args[2] in (F(me, lst), F(mk("deref", "self"), lst)) and changes[0].args[1] is D(DATE),
                  "not exactly the date appended to " + lst + ": " + "; ".join(f"{e.kind} {show(e.args[-1])[:60]} {show(e.args[1])[:60]}" for e in changes[:4]))
            for f in ("holiday_adder", "holiday_remover", "specific_type", "utc_offset"):
                ck.ob(f"{name}:{m}:{f}", final(r, "self", f) is F(mk("deref", "self"), f), f"{f} is replaced by {show(final(r, 'self', f))[:200]}")
        p = f"{full}::new"
        ck.fn(p)
        r = run(q, p)
        hms = mk("call", "time::UtcOffset::from_hms", num(off), ZERO, ZERO)
        v = r.ret
        z = project(v, ("f", "utc_offset"))
        ck.ob(f"{name}:new:offset", z is project(project(hms, ("v", 0)), ("f", "0")), f"the calendar's clock is {show(z)[:120]}, not UTC{off:+d}")
        for f in ("holiday_adder", "holiday_remover"):
            x = project(v, ("f", f))
            ck.ob(f"{name}:new:{f}", x.op == "agg" and not x.a[2], f"a new calendar starts with {f} = {show(x)[:120]}")
        x = project(v, ("f", "specific_type"))
        ck.ob(f"{name}:new:kind", x is arg("specific_type"), f"the kind is {show(x)[:120]}")


def joint_and_dispatch(ck, q):
    me = D(SELF)
    JC = "<time::jointcalendar::JointCalendar as time::calendar_trait::CalendarTrait>::"
    CAL = "<time::calendar::Calendar as time::calendar_trait::CalendarTrait>::"
    for p in sorted(q.by_path):
        if p.endswith("CalendarTrait::is_business_day") or (p.endswith("CalendarTrait>::is_business_day") and "calendar::Calendar as" not in p):
            ck.fn(p)
            r = run(q, p, opaque=("::is_holiday",))
            is_ = b_of(dates_of(r.ret))
            h = [l for l in b_lits(is_) if l.op == "call" and l.a[0] == "is_holiday" and l.a[1] is me and l.a[2] is D(DATE)]
            ck.ob(f"{p.split('::')[-2]}:is_business_day", len(h) == 1 and is_ == b_not(lit(h[0])), f"a business day when {show(r.ret)[:200]}")
    n = len(q.adt("time::calendar::Calendar")["variants"])
    names = [v["name"] for v in q.adt("time::calendar::Calendar")["variants"]]
    src = F(me, "calendars")
    c = at(src)
    item = project(src, ("at", c)) if c.op == "ix" else c

    def each(m, when):
        """some member calendar for which m holds"""
        cs = [b_and(is_v(item, i, n), lit(mk("call", m, V(item, i), when))) for i, v in enumerate(names)]
        return lit(mk("exists", src, bool_t(b_any(cs))))
    for m, path, neg in (("is_holiday", JC + "is_holiday", False), ("is_weekend", JC + "is_weekend", False),
                         ("is_holiday", "time::jointcalendar::JointCalendar::is_business_day", True)):
        ck.fn(path)
        r = run(q, path, opaque=tuple(f"{k} as time::calendar_trait::CalendarTrait>::{m}" for k in MODS.values()))
        want = each(m, D(DATE))
        d = differ(dates_of(r.ret), bool_t(b_not(want) if neg else want), r.g)
        ck.ob("JointCalendar:" + path.rsplit("::", 1)[1], d is None, d or "")
    path = "time::jointcalendar::JointCalendar::new"
    ck.fn(path)
    r = run(q, path, opaque=("::calendar_name",))
    g, v = ok_part(r)
    given_ = arg("calendars")
    empty = eq(mk("len", given_), ZERO)
    bad = b_valid(b_ite(g, empty, b_not(empty)))
    ck.ob("JointCalendar:new:empty", never(bad), "wrong answer when " + b_show(bad)[:200])
    if v is not None:
        ck.ob("JointCalendar:new:calendars", project(v, ("f", "calendars")) is given_, f"the members are {show(project(v, ('f', 'calendars')))[:200]}")
    for m in ("add_holidays", "remove_holidays"):
        ck.fn(JC + m)
        r = run(q, JC + m)
        g, _ = ok_part(r)
        ck.ob(f"JointCalendar:{m}", never(g), "accepted when " + b_show(g)[:200])


MODS = {"NullCalendar": "nullcalendar::NullCalendar", "SouthKorea": "southkorea::SouthKorea", "UnitedStates": "unitedstates::UnitedStates"}


# ---------------------------------------------------------------- adjustment and day counts
def by_days(x, n):
    return add(x, mul(num(86400 * n), mk("second")))


def facts_of(guards):
    return sorted({l for g in guards for l in b_lits(g)}, key=lambda l: l.id)


def roll(ck, key, r, mu):
    """+1/-1 if mu is the day reached from `date` by single steps past holidays, else None"""
    for c in r.ip.loops:
        if mu not in c.init:
            continue
        hol = [l for l in facts_of([c.backguard] + [g for _, g in c.exits])
               if l.op == "call" and l.a[0].endswith("::is_holiday") and l.a[2] is mu]
        ok_ = ck.ob(key + ":start", c.init[mu] is D(DATE), f"the search starts at {show(c.init[mu])[:120]}, not at the date given")
        if not ck.ob(key + ":asks", len(hol) == 1, f"the search does not ask whether the day reached is a holiday: {b_show(c.backguard)[:200]}"):
            return None
        h = lit(hol[0])
        ck.ob(key + ":asks:self", hol[0].a[1] is D(SELF), f"another calendar is asked: {show(hol[0].a[1])[:120]}")
        ck.ob(key + ":on", never(b_and(c.backguard, b_not(h))), "the search goes on from a day that is no holiday")
        for _, g in c.exits:
            ck.ob(key + ":stop", never(b_and(g, h)), "the search stops at a holiday")
        nxt = c.next.get(mu)
        if nxt is None:
            nxt = mu
        step = sub(nxt, mu)
        d = 1 if step is by_days(ZERO, 1) else -1 if step is by_days(ZERO, -1) else None
        ck.ob(key + ":step", d is not None, f"a step is {show(step)[:120]}, not one day")
        return d if ok_ else None
    return None


def adjustment(ck, q):
    over = lambda m: [p for p in sorted(q.by_path) if p == CT + m or (p.endswith("CalendarTrait>::" + m) and not p.startswith("<time::calendar::Calendar "))]
    prim = ("::is_holiday",)
    for m, way in (("adjust_following", 1), ("adjust_preceding", -1)):
        for p in over(m):
            ck.fn(p)
            key = p.split(" as ")[0].split("::")[-1] + ":" + m if p[0] == "<" else m
            r = run(q, p, opaque=prim)
            d = roll(ck, key, r, r.ret)
            ck.ob(key, d == way, f"the day returned, {show(r.ret)[:200]}, is not the first open day {'from' if way > 0 else 'back from'} the date")
    month = lambda x: mk("call", "time::OffsetDateTime::month", x)
    for m, way in (("adjust_modified_following", 1), ("adjust_modified_preceding", -1)):
        for p in over(m):
            ck.fn(p)
            key = p.split(" as ")[0].split("::")[-1] + ":" + m if p[0] == "<" else m
            r = run(q, p, opaque=prim)
            cs = cases(r.ret)
            dirs = {x: roll(ck, f"{key}:{'same month' if k == 0 else 'other'}", r, x) for k, (_, x) in enumerate(cs)}
            near = [x for x in dirs if dirs[x] == way]
            back = [x for x in dirs if dirs[x] == -way]
            if not ck.ob(key + ":ways", len(near) == 1 and len(back) == 1 and len(cs) == 2, f"the days returned are {[show(x)[:80] for x in dirs]}"):
                continue
            same = eq(month(near[0]), month(D(DATE)))
            g = next(g for g, x in cs if x is near[0])
            bad = b_valid(b_ite(g, b_not(same), same))
            ck.ob(key + ":month", never(bad), f"the direction is wrong when {b_show(bad)[:200]}")
    conv = "time::conventions::BusinessDayConvention"
    names = [v["name"] for v in q.adt(conv)["variants"]]
    fns = {"Following": "adjust_following", "Preceding": "adjust_preceding", "ModifiedFollowing": "adjust_modified_following", "ModifiedPreceding": "adjust_modified_preceding"}
    for p in over("adjust"):
        ck.fn(p)
        r = run(q, p, opaque=tuple("::" + f for f in fns.values()))
        g, v = ok_part(r)
        for i, n in enumerate(names):
            w = is_v(D(arg("convention")), i, len(names))
            if n == "Dummy":
                ck.ob("adjust:Dummy", never(b_and(g, w)), "a date is returned under no convention")
                continue
            ck.ob(f"adjust:{n}:answers", never(b_and(w, b_not(g))), "refused")
            got = v and {x for h, x in cases(v) if b_and(h, w) != FALSE}
            want = D(DATE) if n == "Unadjusted" else None
            for x in got or ():
                good = x is want if want else (x.op == "call" and x.a[0].endswith("::" + fns.get(n, "?")) and x.a[1] is D(SELF) and x.a[2] is D(DATE))
                ck.ob(f"adjust:{n}", good, f"{n} gives {show(x)[:150]}")
                ck.count("conventions")


def months(ck, q):
    for p in (CT + "is_leap_year",):
        ck.fn(p)
        r = run(q, p)
        y = arg("year")
        z = lambda n: eq(mk("irem", y, num(n)), ZERO)
        want = b_or(b_and(z(4), b_not(z(100))), z(400))
        hyp = ()
        d = differ(r.ret, bool_t(want), r.g, hyp)
        ck.ob("is_leap_year", d is None, d or "")
    p = CT + "last_day_of_month"
    ck.fn(p)
    r = run(q, p, opaque=("::is_leap_year",))
    leap_ = [l for l in facts_of([r.g] + [g for g, _ in cases(r.ret)]) if l.op == "call" and l.a[0].endswith("::is_leap_year")]
    ck.ob("last_day_of_month:leap", len(leap_) == 1 and leap_[0].a[1] is D(SELF) and leap_[0].a[2] is arg("year"), f"leap years are asked as {[show(l)[:80] for l in leap_]}")
    if len(leap_) == 1:
        lp = lit(leap_[0])
        mth = lambda i: is_v(arg("month"), i, 12)
        ymd = lambda n: project(project(mk("call", "time::Date::from_calendar_date", arg("year"), arg("month"), num(n)), ("v", 0)), ("f", "0"))
        long_ = b_any([mth(i) for i in (0, 2, 4, 6, 7, 9, 11)])
        short = b_any([mth(i) for i in (3, 5, 8, 10)])
        want = ite((long_, ymd(31)), (short, ymd(30)), (b_and(mth(1), lp), ymd(29)), (b_and(mth(1), b_not(lp)), ymd(28)))
        d = differ(r.ret, want, r.g)
        ck.ob("last_day_of_month", d is None, d or "")


def fractions(ck, q):
    """the length of a period under each day-count convention, and exact time"""
    me, s, e = D(SELF), D(arg("start_date")), D(arg("end_date"))
    y0, y1 = (mk("call", "time::OffsetDateTime::year", x) for x in (s, e))
    m0, m1 = (mk("disc", mk("call", "time::OffsetDateTime::month", x), "time::month::Month") for x in (s, e))
    d0, d1 = (mk("call", "time::OffsetDateTime::day", x) for x in (s, e))
    names = [v["name"] for v in q.adt("time::conventions::DayCountConvention")["variants"]]
    p = CT + "year_fraction"
    ck.fn(p)
    r = run(q, p, opaque=("::is_leap_year",))
    g, v = ok_part(r)
    if v is None:
        return ck.fail("year_fraction", "no length is returned")
    due = b_not(cmp("Gt", s, e))
    ck.ob("year_fraction:order", never(b_and(g, b_not(due))), "a length is returned for an end before the start")
    whole = lambda x: mk("call", "time::Duration::whole_days", x)
    src = mk("range", y0, add(y1, ONE))
    dec31 = lambda y: project(project(mk("call", "time::Date::from_calendar_date", y, mk("agg", "time::Month", 11, ()), num(31)), ("v", 0)), ("f", "0"))
    isdec = lambda y: is_v(mk("call", "time::Date::from_calendar_date", y, mk("agg", "time::Month", 11, ()), num(31)), 0, 2)
    date = lambda x: mk("call", "time::OffsetDateTime::date", x)
    lp = [l for l in every_lit(r) if l.op == "call" and l.a[0].endswith("::is_leap_year")]
    ck.ob("year_fraction:leap", lp and all(l.a[1] is me for l in lp), "leap years are not asked")
    lname = lp[0].a[0] if lp else "?"

    def by_years(within, head, tail):
        i = mk("ix", src, 0)
        y = add(y0, i)
        first, last, one = eq(i, ZERO), eq(y, y1), eq(y0, y1)
        leap_ = lit(mk("call", lname, me, y))
        n = ite((leap_, num(366)), (b_not(leap_), num(365)))
        per = lambda x: lift(lambda k: div(x, k), n)
        rest = b_not(first)
        body = ite((b_and(first, one), per(within)), (b_and(first, b_not(one)), per(head(y))),
                   (b_and(rest, last), per(tail(sub(y, ONE)))), (b_and(rest, b_not(last)), ONE))
        return body, i, y

    def years(key, got, within, head, tail):
        body, i, y = by_years(within, head, tail)
        if not ck.ob(key + ":years", got.op == "sum" and got.a[0] is src, f"not a sum over the years from the first to the last: {show(got)[:200]}"):
            return
        # December 31st exists in every year
        hyp = b_and(isdec(y), isdec(sub(y, ONE)))
        d = differ(got.a[1], body, hyp)
        ck.ob(key, d is None, d or "")
    actual = {"Actual365Fixed": 365, "Actual360": 360, "Actual364": 364}
    for k, n in enumerate(names):
        w = is_v(D(arg("day_count")), k, len(names))
        key = "year_fraction:" + n
        if n == "Dummy":
            ck.ob(key, never(b_and(g, w)), "a length is returned under no convention")
            continue
        ck.count("day-count conventions")
        if n != "ActActIsda":
            ck.ob(key + ":answers", never(b_and(b_and(w, due), b_not(g))), "refused when " + b_show(b_and(b_and(w, due), b_not(g)))[:200])
        got = under(v, b_and(g, w))
        if n in actual:
            d = differ(got, div(whole(sub(e, s)), num(actual[n])), b_and(g, w))
            ck.ob(key, d is None, d or "")
        elif n in ("Thirty360", "StreetConvention"):
            bad = None
            for a in range(1, 32):
                for b in range(1, 32):
                    x = fold(got, {d0: num(a), d1: num(b)})
                    f, t_ = (a, b)
                    if n == "StreetConvention":
                        f = min(a, 30)
                        t_ = 30 if b == 31 and f == 30 else b
                    want = div(add(mul(num(360), sub(y1, y0)), mul(num(30), sub(m1, m0)), num(t_ - f)), num(360))
                    if x is not want and bad is None:
                        bad = f"from the {a}. to the {b}. of a month it is {show(x)[:200]}, not {show(want)[:200]}"
            ck.ob(key, bad is None, bad or "")
        elif n == "ActActIsda":
            years(key, got, whole(sub(e, s)), lambda y: whole(sub(dec31(y), date(s))), lambda y: whole(sub(date(e), dec31(y))))
        else:
            ck.fail(key, "a convention the rules do not know")
    p = CT + "get_time_difference"
    ck.fn(p)
    r = run(q, p, opaque=("::is_leap_year",))
    # the clock part is a constant of the time crate; its one named constant used here is midnight
    clocks = {z.a[2] for z in walk(r.ret) if z.op == "call" and z.a[0].endswith("OffsetDateTime::new_in_offset") and z.a[2].op == "agg" and z.a[2].a[0].endswith("Time")}
    ck.ob("get_time_difference:clock", len(clocks) == 1, f"year ends are taken at {[show(c)[:80] for c in clocks]}")
    clock = clocks.pop() if clocks else UNIT
    mid = lambda y: mk("call", "time::OffsetDateTime::new_in_offset", dec31(y), clock, mk("call", "time::OffsetDateTime::offset", s))
    sec = lambda x: div(x, mul(num(86400), mk("second")))
    years("get_time_difference", r.ret, sec(sub(e, s)), lambda y: sec(sub(mid(y), s)), lambda y: sec(sub(e, mid(y))))
    for p in sorted(q.by_path):
        if p.endswith("CalendarTrait>::year_fraction") and not p.startswith("<time::calendar::Calendar "):
            ck.fn(p)
            r = run(q, p, opaque=("::year_fraction",))
            first = project(F(me, "calendars"), ("idx", ZERO))
            good = r.ret.op == "call" and r.ret.a[0].endswith("::year_fraction") and r.ret.a[1:] == (first, s, e, D(arg("day_count")))
            ck.ob("JointCalendar:year_fraction", good, f"the length is {show(r.ret)[:200]}")


def fold(t, env):
    """t with constants for some atoms"""
    def f(z):
        if z in env:
            return env[z]
        if z.op in ("min", "max"):
            u, v = (subst(k, f) for k in z.a[:2])
            if u.op == v.op == "num":
                return num((min if z.op == "min" else max)(u.a[0], v.a[0]))
        return None
    return subst(t, f)


def every_lit(r):
    out = set()
    for x in walk(r.ret):
        if x.op == "b":
            out |= set(b_lits(x.a[0]))
        elif x.op == "ite":
            for g, _ in x.a[0]:
                out |= set(b_lits(g))
    return sorted(out, key=lambda l: l.id)


def Q10(ck, q, t, meta):
    """A day is a holiday exactly when the calendar's rules say so.  Every date predicate of the calendar kinds is
    summarised on its own (guarded value-flow interpretation of its MIR, all other functions opaque); the summaries'
    decision diagrams are tabulated over every weekday of the years the calendars cover (South Korea 1951-2050, United
    States 1901-2199), one bit per day, and compared day by day with rules that do not come from the code: computus for
    Good Friday, the Korean lunar calendar, nth-weekday and moved-to-weekday rules, named special closings.  No summary
    may lack an answer on such a day (index out of range, overflow, unwrap).  The calendars themselves must be: weekends,
    and otherwise unless removed the kind's rule or the added days, on the date of the calendar's own clock; added and
    removed days are kept exactly as given; a joint calendar is closed exactly when a member is."""
    tabulate(ck, q, "time::calendars::southkorea::SouthKoreaType", SOUTH_KOREA, 1951, 2050)
    tabulate(ck, q, "time::calendars::unitedstates::UnitedStatesType", UNITED_STATES, 1901, 2199)
    calendar_rules(ck, q)
    joint_and_dispatch(ck, q)
    ck.floor("calendar kinds", 7)
    ck.floor("days tabulated", 2 * 26000 + 5 * 78000)


def Q11(ck, q, t, meta):
    """Business-day adjustment and day counts follow their conventions.  Each adjustment is a loop whose summary must
    start at the date given, step one whole day in its direction, go on only from a holiday and stop only at a day that
    is none; the modified conventions return that day exactly when its month is the date's and otherwise the first open
    day in the other direction; each named convention selects its own adjustment.  Leap years, month ends and the six
    day-count fractions are compared as normal forms with their definitions (30/360 for every pair of days of the
    month); the actual/actual sum and exact time year by year."""
    adjustment(ck, q)
    months(ck, q)
    fractions(ck, q)
    ck.floor("conventions", 5)
    ck.floor("day-count conventions", 6)
