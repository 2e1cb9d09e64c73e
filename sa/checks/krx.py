"""Exchange messages: what the digits of a fixed-width field spell, where each field of a record is read, what is refused."""
from spec import *
from interp import Interp, Blowup
from lanes import Lanes, Form, Carry, digits

NC = "utils::numeric_converter::"
KC = "data::krx::krx_converter::"
ADT_CFG = NC + "NumReprCfg"


class Payload:
    """bytes of the message `root`: which are digits, which the decimal point; the others may be anything"""

    def __init__(self, root, size):
        self.root, self.size, self.kind, self.reads = root, size, {}, []
        self.lanes = Lanes(self.byte, self.range)

    def spell(self, spots, point=()):
        for s in spots:
            self.kind[s] = "digit"
        for s in point:
            self.kind[s] = "point"
        self.lanes.memo = {}

    def byte(self, base, off):
        if base is not self.root:
            raise Carry(f"a read of {show(base)[:60]}")
        k = self.kind.get(off)
        if k == "digit":
            return 48, (self.root.id, off)
        if k == "point":
            return 46, None
        return 0, (self.root.id, off)

    def range(self, s):
        return (0, 9) if self.kind.get(s[1]) == "digit" else (0, 255)

    def digits(self, spots):
        return digits(self.lanes, self.root.id, spots)

    def farthest(self, x):
        """one past the last byte any raw read in x touches"""
        out = 0
        for y in walk(x):
            if y.op == "raw":
                b, o = self.lanes.at(y.a[1])
                out = max(out, o + y.a[0] // 8)
        return out


def same(f, g):
    return f.k == g.k and f.c == g.c


def tell(f):
    return " + ".join([str(f.k)] * bool(f.k) + [f"{v}*b[{s[1]}]" for s, v in sorted(f.c.items(), key=lambda kv: kv[0][1])])[:200] or "0"


def spelt(ck, key, p, x, want, where, care=TRUE):
    """on the paths `care`, the value x is exactly the linear form `want`"""
    for g, v in cases(x):
        if b_and(g, care) == FALSE:
            continue
        try:
            f = p.lanes.value(v)
        except Carry as e:
            ck.ob(key, False, f"cannot be the digits as spelt: {e}", where)
            return False
        if not same(f, want):
            ck.ob(key, False, f"reads {tell(f)} where the field spells {tell(want)}", where)
            return False
    ck.ob(key, True, "", where)
    return True


def inside(ck, key, r, size, where):
    """every slice taken of the field lies within its `size` bytes, and nothing else can stop the reading"""
    for e in r.events:
        if e.kind == "index":
            base, lo, hi = (list(e.args) + [None, None])[:3]
            try:
                n = length(base)
                if not (n.op == "num"):
                    n = num(size)
                lo_, hi_ = int(lo.a[0]), int((hi if hi is not None else p_add(lo, ONE)).a[0])
            except (AttributeError, IndexError, TypeError, ValueError):
                continue
            if hi is not None and hi.op == "len":
                continue
            if not (0 <= lo_ <= hi_ <= int(n.a[0])):
                ck.ob(key, False, f"the slice {lo_}..{hi_} does not lie within the {n.a[0]} bytes it is taken of", where)
                return
    ck.ob(key, True, "", where)



def analyse(t, b, mem=None, args=None, opaque=(), total=()):
    key = (t.name, b["key"], tuple(sorted((k.id, v.id) for k, v in (mem or {}).items())), tuple(a.id for a in args or ()), opaque, total)
    r = _runs.get(key)
    if r is None:
        ends = tuple(opaque) + tuple(total)
        ip = Interp(t, opaque=lambda x: x["path"].endswith(ends) if ends else False)
        ip.total, ip.closers = tuple(total), ()
        ip.unroll = 16
        r = ip.analyze(b, mem=mem, args=args)
        r.ip = ip
        _runs[key] = r
    return r


_runs = {}


def loc(b):
    f, l = b["span"][:2]
    return f"{b['path']} {f}:{l}"


def body(ck, t, path):
    ck.fn(path)
    return t.fn(path)


def config(like, d, p, signed, unused, drop):
    """a number format, as the analysed code represents it"""
    vals = {"digit_length": num(d), "decimal_point_length": num(p), "is_signed": bool_t(TRUE if signed else FALSE),
            "unused_length": num(unused), "total_length": num(d + p + int(signed) + unused),
            "float_normalizer": NONE, "drop_decimal_point": bool_t(TRUE if drop else FALSE)}
    return mk("agg", like.a[0], like.a[1], tuple((n, vals[n]) for n, _ in like.a[2]))


class Lay:
    """where a field of d digits and a decimal part of p places (the point included) keeps its digits"""

    def __init__(self, d, p=0, signed=False, unused=0, drop=False, at=0):
        i = at + int(signed) + unused
        self.whole = list(range(i, i + d))
        self.point = [i + d] if p else []
        self.frac = list(range(i + d + 1, i + d + p))
        self.end = i + d + p
        self.sign = at if signed else None
        self.spots = self.whole + ([] if drop else self.frac)

    def mark(self, p):
        p.spell(self.whole + self.frac, self.point)


def reading(ck, key, t, fn, conv, lay, size):
    """run the reading function on a format and decide what it yields for every well-formed field"""
    b = body(ck, t, fn)
    names = Interp(t).arg_names(b)
    me, val = arg(names[0]), D(arg(names[1]))
    try:
        r = analyse(t, b, {mk("obj", me): conv})
    except Blowup as e:
        return ck.fail(key, f"not followed: {e}", loc(b))
    decided(ck, key, r, val, lay, size, loc(b))


def numeral(val, lay):
    """the characters of the field's digits are digits"""
    g = TRUE
    for i in lay.whole + lay.frac:
        x = project(val, ("idx", num(i)))
        g = b_and(g, b_and(cmp("Ge", x, num(48)), cmp("Le", x, num(57))))
    return g


def decided(ck, key, r, val, lay, size, where):
    p = Payload(val, size)
    lay.mark(p)
    if not ck.ob(key + ":answers", r.ret is not None and never(b_and(b_not(r.g), b_and(eq(length(val), num(size)), numeral(val, lay)))),
                 "a well-formed field may not be read at all, when " + b_show(b_not(r.g))[:200], where):
        return
    want = p.digits(lay.spots)
    if lay.sign is None:
        spelt(ck, key, p, r.ret, want, where)
    else:
        zero = eq(project(val, ("idx", num(lay.sign))), num(48))
        spelt(ck, key + ":unsigned", p, r.ret, want, where, zero)
        spelt(ck, key + ":negative", p, r.ret, want.times(-1), where, b_not(zero))
    inside(ck, key + ":within", r, size, where)


KRX = (  # converter, member, digits, decimal part, signed, unused, reader
    ("<impl utils::numeric_converter::OrderConverter>::krx_risk_free_derivative_converter", "price", 4, 4, True, 0, "OrderConverter::to_book_price"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_risk_free_derivative_converter", "quantity", 9, 0, False, 0, "OrderConverter::to_book_quantity"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_base_derivative_converter", "price", 5, 3, True, 0, "OrderConverter::to_book_price"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_base_derivative_converter", "quantity", 9, 0, False, 0, "OrderConverter::to_book_quantity"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_stock_converter", "price", 9, 0, False, 2, "OrderConverter::to_book_price"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_stock_converter", "price", 9, 0, False, 2, "OrderConverter::to_book_price_unchecked"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_stock_converter", "quantity", 12, 0, False, 0, "OrderConverter::to_book_quantity"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_stock_converter", "quantity", 12, 0, False, 0, "OrderConverter::to_book_quantity_unchecked"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_stock_derivative_converter", "price", 8, 0, True, 0, "OrderConverter::to_book_price"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_stock_derivative_converter", "quantity", 9, 0, False, 0, "OrderConverter::to_book_quantity_unchecked"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_general_commodity_derivative_converter", "price", 8, 0, True, 0, "OrderConverter::to_book_price"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_general_commodity_derivative_converter", "quantity", 9, 0, False, 0, "OrderConverter::to_book_quantity_unchecked"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_repo_converter", "price", 6, 4, True, 0, "OrderConverter::to_book_price"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_repo_converter", "quantity", 15, 0, False, 0, "OrderConverter::to_book_quantity"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_base_bond_converter", "price", 7, 3, False, 1, "OrderConverter::to_book_price"),
    ("<impl utils::numeric_converter::OrderConverter>::krx_base_bond_converter", "quantity", 12, 0, False, 0, "OrderConverter::to_book_quantity"),
    ("<impl utils::numeric_converter::OrderCounter>::krx_base_order_counter", "order_count", 5, 0, False, 0, "OrderCounter::to_order_count"),
    ("<impl utils::numeric_converter::OrderCounter>::krx_base_order_counter", "order_count", 5, 0, False, 0, "OrderCounter::to_order_count_unchecked"),
    ("<impl utils::numeric_converter::CumQntConverter>::krx_base_cum_qnt_converter", "converter", 12, 0, False, 0, "CumQntConverter::to_cum_qnt"),
    ("<impl utils::numeric_converter::CumQntConverter>::krx_base_cum_qnt_converter", "converter", 12, 0, False, 0, "CumQntConverter::to_cum_qnt_unchecked"),
    ("<impl utils::numeric_converter::CumQntConverter>::krx_bond_cum_qnt_converter", "converter", 15, 0, False, 0, "CumQntConverter::to_cum_qnt"),
    ("<impl utils::numeric_converter::CumQntConverter>::krx_cum_trd_value_converter", "converter", 18, 4, False, 0, "CumQntConverter::to_cum_qnt"),
    ("<impl utils::numeric_converter::CumQntConverter>::krx_cum_trd_value_converter", "converter", 18, 4, False, 0, "CumQntConverter::to_long_cum_qnt_unchecked"),
    ("<impl utils::numeric_converter::YieldConverter>::krx_yield_converter", "converter", 5, 7, True, 0, "YieldConverter::to_yield"),
)


def T07(ck, q, t, meta):
    """The digits of a fixed-width field are read exactly.

    For every way the exchange's numbers are laid out (sign, unused characters, whole digits, a decimal point and
    decimals, decimals to be dropped), each reading function is interpreted on that layout with the digits left
    symbolic, and the packed arithmetic of its result is decided in a domain of bit fields holding linear forms: the
    result must be the linear form sum of digit*10^k the field spells, negated exactly when the leading character of a
    signed field is not '0', with no field of the packed word running into the next, no byte outside the field left in
    the result and no slice outside it taken."""
    cfg0 = None
    # the primitives
    U = D(arg("u"))
    for fn, least, most in (("parse_under8", 1, 8), ("parse_under16", 1, 16), ("parse_under32", 17, 19)):
        b = body(ck, t, NC + fn)
        for n in range(least, most + 1):
            r = analyse(t, b, args=(arg("u"), num(n)))
            decided(ck, f"{fn}:{n}", r, U, Lay(n), n, loc(b))
            ck.count("formats")
        b = body(ck, t, NC + fn + "_with_floating_point")
        for n in range(max(least, 2), most + 1 + (most == 19)):
            for p in range(0, n + 1):
                if n - (p > 0) > 19 or (p == 0 and n > 19) or (p and n == p and p == 1):
                    continue
                r = analyse(t, b, args=(arg("u"), num(n), num(p)))
                decided(ck, f"{fn}_with_floating_point:{n}.{p}", r, U, Lay(n - p, p), n, loc(b))
                ck.count("formats")
    for fn, n in (("parse_2digits", 2), ("parse_3digits", 3)):
        b = body(ck, t, NC + fn)
        decided(ck, fn, analyse(t, b), U, Lay(n), n, loc(b))
    b = body(ck, t, NC + "parse_hhmmss_to_nanos")
    r = analyse(t, b)
    p = Payload(U, 6)
    p.spell(range(6))
    want = p.digits((0, 1)).times(3600).plus(p.digits((2, 3)).times(60)).plus(p.digits((4, 5))).times(10 ** 9)
    spelt(ck, "parse_hhmmss_to_nanos", p, r.ret, want, loc(b))
    # the exchange's own converters
    for c, member, d, pl, signed, unused, reader in KRX:
        b = body(ck, t, KC + c)
        conv = analyse(t, b).ret
        name = c.split("::")[-1]
        if conv is None or conv.op != "agg":
            ck.fail(f"{name}:made", "the converter is not made", loc(b))
            continue
        f = project(conv, ("f", member))
        cfg0 = project(f, ("f", "numcfg"))
        drop = "trd_value" in name
        lay = Lay(d, pl, signed, unused, drop)
        total = d + pl + int(signed) + unused
        w = project(cfg0, ("f", "total_length"))
        ck.ob(f"{name}.{member}:width", w is num(total), f"the field is {show(w)} characters wide, not {total}", loc(b))
        reading(ck, f"{name}:{reader}", t, NC + reader, conv, lay, total)
        ck.count("formats")
    # any other format
    if cfg0 is None:
        return
    b = body(ck, t, NC + "IntegerConverter::new")
    for d in range(1, 19):
        for pl in range(0, 19 - d):
            if pl > 8 and (d + pl) % 3:
                continue
            for signed in (False, True):
                for unused in (0, 1, 2):
                    for drop in ((False, True) if pl else (False,)):
                        if (unused or drop) and (d * 7 + pl * 3 + unused) % 4:
                            continue
                        conv = analyse(t, b, args=(config(cfg0, d, pl, signed, unused, drop),))
                        g, v = ok_part(conv)
                        key = f"format {d}.{pl}{' signed' * signed}{f' unused {unused}' * bool(unused)}{' dropped' * drop}"
                        if not ck.ob(key + ":made", v is not None and g == TRUE, "a valid format of at most 18 digits is refused", loc(b)):
                            continue
                        lay = Lay(d, pl, signed, unused, drop)
                        reading(ck, key + ":to_i64", t, NC + "IntegerConverter::to_i64", v, lay, lay.end)
                        ck.count("formats")
                        if not signed:
                            reading(ck, key + ":to_u64", t, NC + "IntegerConverter::to_u64", v, lay, lay.end)
    # formats that are not consistent, or too long for 64 bits, are refused
    for d, pl, extra in ((5, 0, 1), (5, 3, -1), (19, 0, 0), (12, 7, 0)):
        bad = config(cfg0, d, pl, False, 0, False)
        bad = update(bad, (("f", "total_length"),), num(d + pl + extra))
        g, v = ok_part(analyse(t, b, args=(bad,)))
        ck.ob(f"refused {d}.{pl}{extra:+d}", v is None or g == FALSE, "a format that does not add up, or of over 18 digits, is accepted", loc(b))
    ck.floor("formats", 300)


# ---------------------------------------------------------------- records
DQ, DT, SQ = "data::krx::derivative_quote::", "data::krx::derivative_trade::", "data::krx::stock_quote::"
DERIV = (9, 9, 5, 0)                    # widths: price, quantity, order count, liquidity provider quantity
STOCK = (11, 12, 0, 0)
LPSTK = (11, 12, 0, 12)
RECORDS = {  # record: module, size, levels, first level, widths, trade fields, decoders
    "IFMSRPD0034": (DQ, 324, 5, 47, DERIV, False, ("to_quote_snapshot", "to_quote_snapshot_buffer")),
    "IFMSRPD0035": (DQ, 554, 10, 47, DERIV, False, ("to_quote_snapshot", "to_quote_snapshot_buffer")),
    "IFMSRPD0037": (DT, 431, 5, 172, DERIV, True, ("to_trade_quote_snapshot", "to_trade_quote_snapshot_buffer")),
    "IFMSRPD0038": (DT, 661, 10, 172, DERIV, True, ("to_trade_quote_snapshot", "to_trade_quote_snapshot_buffer")),
    "IFMSRPD0036": (DT, 173, 0, None, DERIV, True, ("to_trade_data", "to_trade_data_buffer")),
    "IFMSRPD0002": (SQ, 555, 10, 47, STOCK, False, ("to_quote_snapshot", "to_quote_snapshot_buffer")),
    "IFMSRPD0003": (SQ, 795, 10, 47, LPSTK, False, ("to_quote_snapshot", "to_quote_snapshot_buffer")),
}
ISIN, STAMP, PRICE, QTY, CUM, TYPE = (17, 29), (35, 47), (47, 56), (56, 65), (119, 131), 153
PRIMS = ("IsinCode::new", "InstId::new", "get_unix_nano", "TimeStampConverter::parse_hhmmssuuuuuu")
PAY = D(arg("payload"))
TYPES = "types::enums::TradeType"


def build(ck, t, mod, name, cut, cum):
    """the decoder, set up through its public builders"""
    path = mod + name
    x = analyse(t, body(ck, t, f"<{path} as std::default::Default>::default")).ret
    if cut is not None:
        g, v = ok_part(analyse(t, body(ck, t, path + "::with_quote_level_cut"), args=(x, num(cut))))
        if v is None or g != TRUE:
            return None
        x = v
    if cum is not None:
        x = analyse(t, body(ck, t, path + "::with_cum_trd_qnt"), args=(x, bool_t(TRUE if cum else FALSE))).ret
    return x


class Decoded:
    def __init__(self, ck, t, name, fn, cut, cum):
        self.mod, self.size, self.levels, self.first, self.widths, self.trade, fns = RECORDS[name]
        self.b = body(ck, t, f"{self.mod}{name}::{fn}")
        self.where = loc(self.b)
        self.buffered = fn.endswith("_buffer")
        self.made = build(ck, t, self.mod, name, cut, cum)
        self.out = None
        if self.made is None:
            return
        names = Interp(t).arg_names(self.b)
        me = mk("obj", arg(names[0]))
        self.r = r = analyse(t, self.b, {me: self.made}, opaque=PRIMS)
        self.payload = D(arg(names[1]))
        if self.buffered:
            self.g = ok_part(r)[0] if r.ret is not None else FALSE
            self.root = mk("obj", arg(names[2]))
            self.before = D(arg(names[2]))
            self.out = under(r.ip.read(r.state, self.root, ()), self.g)
        else:
            self.g, self.out = ok_part(r)

    def get(self, *path):
        x = self.out
        for p in path:
            x = project(x, p if isinstance(p, tuple) else ("f", p) if isinstance(p, str) else ("idx", num(p)))
        return x


def some_of(x):
    """payload of an Option that is Some on every case, else None"""
    out = []
    for g, v in cases(x):
        if v.op != "agg" or not v.a[2] or v.a[1] != 1:
            return None
        out.append((g, v.a[2][0][1]))
    return mk_ite(out)


def none_always(x):
    return all(v.op == "agg" and v.a[1] == 0 and "Option" in v.a[0] for _, v in cases(x))


def formats_of(ck, key, d):
    """[(condition, price format, quantity digits)] of the converter a decoded record carries"""
    out = []
    for g, c in cases(d.r.ip.load(d.r.state, d.get("order_converter"))):
        if b_valid(b_and(g, d.g)) == FALSE:
            continue
        pc, qc = project(project(c, ("f", "price")), ("f", "numcfg")), project(project(c, ("f", "quantity")), ("f", "numcfg"))

        def n(x, f):
            y = project(x, ("f", f))
            return int(y.a[0]) if y.op == "num" else 1 if y is bool_t(TRUE) else 0 if y is bool_t(FALSE) else None
        p = (n(pc, "digit_length"), n(pc, "decimal_point_length"), n(pc, "is_signed"), n(pc, "unused_length"))
        q_ = n(qc, "digit_length")
        if None in p or q_ is None:
            ck.fail(key + ":format", "the record carries a converter of unknown format: " + show(c)[:200] + " when " + b_show(b_and(g, d.g))[:200])
            return []
        out.append((b_and(g, d.g), p, q_))
    ck.ob(key + ":format", bool(out), "the record carries no converter")
    return out


def field_price(ck, key, d, x, at_, fmts, where):
    good = True
    for g, (dg, pl, sg, un), _ in fmts:
        lay = Lay(dg, pl, bool(sg), un, at=at_)
        p = Payload(d.payload, d.size)
        lay.mark(p)
        want = p.digits(lay.spots)
        if lay.sign is None:
            good &= spelt(ck, key, p, x, want, where, g)
        else:
            zero = eq(project(d.payload, ("idx", num(lay.sign))), num(48))
            good &= spelt(ck, key, p, x, want, where, b_and(g, zero))
            good &= spelt(ck, key + ":negative", p, x, want.times(-1), where, b_and(g, b_not(zero)))
    return good


def field_count(ck, key, d, x, at_, width, where, care=TRUE):
    lay = Lay(width, at=at_)
    p = Payload(d.payload, d.size)
    lay.mark(p)
    return spelt(ck, key, p, x, p.digits(lay.spots), where, care)


def call_named(x, name):
    return x.op == "call" and (x.a[0] == name or x.a[0].endswith("::" + name))


def T08(ck, q, t, meta):
    """Every field of a decoded exchange record is read at its own place.

    Oracle: the record layouts (field positions and widths of the seven record types).  Each decoder, plain and into a
    buffer, is interpreted for every number of levels it can be asked for and with and without the cumulative volume;
    every numeric field of the result must be the linear form spelt by the digits at that field's own position under
    the format the record carries (see T07), levels in order and sides not exchanged, levels beyond the number asked
    for left alone, the identifier and the time taken from their slices, and no byte past the end of the record read."""
    for name, (mod, size, levels, first, widths, trade, fns) in RECORDS.items():
        pr, qn, oc, lp = widths
        for fn in fns:
            for cut in (range(levels + 1) if levels else (None,)):
                for cum in ((False, True) if trade else (None,)):
                    if cut not in (None, 0, 1, levels) and cum:
                        continue
                    key = f"{name}.{fn}" + (f"[{cut}]" if cut is not None else "") + ("+volume" if cum else "")
                    try:
                        d = Decoded(ck, t, name, fn, cut, cum)
                    except Blowup as e:
                        ck.fail(key, f"not followed: {e}")
                        continue
                    record(ck, key, t, d, cut, cum)
                    ck.count("decodings")
    ck.floor("decodings", 90)


def record(ck, key, t, d, cut, cum):
    pr, qn, oc, lp = d.widths
    w = d.where
    if not ck.ob(key + ":decodes", d.out is not None and d.g != FALSE, "the record is never decoded", w):
        return
    x = d.get("id")
    for g, v in cases(x):
        if b_and(g, d.g) == FALSE:
            continue
        isin = [y for y in walk(v) if call_named(y, "IsinCode::new") or (y.op == "call" and y.a[1:2] == (project(d.payload, ("rng", num(ISIN[0]), num(ISIN[1]))),))]
        ck.ob(key + ":identifier", bool(isin) and call_named(v, "InstId::new") and any(y.op == "prj" and y.a[0] is d.payload and y.a[1] == ("rng", num(ISIN[0]), num(ISIN[1]))
              for y in walk(v)), "the identifier is not made of the code at 17..29: " + show(v)[:160], w)
    x = d.get("timestamp")
    for g, v in cases(x):
        if b_and(g, d.g) == FALSE:
            continue
        src = [y for y in walk(v) if call_named(y, PRIMS[3])]
        ck.ob(key + ":time", bool(src) and all(project(d.payload, ("rng", num(STAMP[0]), num(STAMP[1]))) in y.a for y in src),
              "the time is not read at 35..47: " + show(v)[:160], w)
    fmts = formats_of(ck, key, d)
    if d.trade:
        field_price(ck, key + ":price", d, d.get("trade_price"), PRICE[0], fmts, w)
        field_count(ck, key + ":quantity", d, d.get("trade_quantity"), QTY[0], QTY[1] - QTY[0], w, d.g)
        x = d.get("cumulative_trade_quantity")
        if cum:
            y = some_of(under(x, d.g))
            if ck.ob(key + ":volume:some", y is not None, "the cumulative volume is not given: " + show(x)[:100], w):
                field_count(ck, key + ":volume", d, y, CUM[0], CUM[1] - CUM[0], w, d.g)
        else:
            ck.ob(key + ":volume", none_always(under(x, d.g)), "a cumulative volume is given though it was not asked for", w)
        kind(ck, key + ":side", t, d, w)
    if d.levels:
        asks, bids = d.get("ask_quote_data"), d.get("bid_quote_data")
        step = 2 * (pr + qn + oc + lp)
        if not d.buffered:
            for nm, v in (("asks", asks), ("bids", bids)):
                ck.ob(f"{key}:{nm}", length(v) is num(cut), f"{show(length(v))[:60]} levels are given, not {cut}", w)
        ck.ob(key + ":levels", under(d.get("quote_level_cut"), d.g) is num(cut),
              f"the number of levels in use is given as {show(d.get('quote_level_cut'))[:80]}, not {cut}", w)
        for i in range(d.levels if d.buffered else cut):
            base = d.first + i * step
            for s, side in ((0, "ask"), (1, "bid")):
                def at_l(f):
                    return project(project(d.get(side + "_quote_data"), ("idx", num(i))), ("f", f))
                k = f"{key}:{side}{i + 1}"
                if i >= cut:
                    was = project(project(d.before, ("f", side + "_quote_data")), ("idx", num(i)))
                    now = project(d.get(side + "_quote_data"), ("idx", num(i)))
                    ck.ob(k + ":kept", same_under(now, was, d.g), "a level beyond those asked for is changed: " + show(now)[:120], w)
                    continue
                field_price(ck, k + ":price", d, at_l("book_price"), base + s * pr, fmts, w)
                field_count(ck, k + ":quantity", d, at_l("book_quantity"), base + 2 * pr + s * qn, qn, w, d.g)
                x = under(at_l("order_count"), d.g)
                if oc:
                    y = some_of(x)
                    if ck.ob(k + ":count:some", y is not None, "no order count is given", w):
                        field_count(ck, k + ":count", d, y, base + 2 * (pr + qn) + s * oc, oc, w, d.g)
                else:
                    ck.ob(k + ":count", none_always(x), "an order count is given, which the record does not have", w)
                x = under(at_l("lp_quantity"), d.g)
                if lp:
                    y = some_of(x)
                    if ck.ob(k + ":lp:some", y is not None, "no liquidity provider quantity is given", w):
                        field_count(ck, k + ":lp", d, y, base + 2 * (pr + qn + oc) + s * lp, lp, w, d.g)
                else:
                    ck.ob(k + ":lp", none_always(x), "a liquidity provider quantity is given, which the record does not have", w)
    p = Payload(d.payload, d.size)
    far = max((p.farthest(d.get(f)) for f in fields(d)), default=0)
    ck.ob(key + ":end", far <= d.size, f"bytes up to {far} are read of a record of {d.size}", w)
    inside(ck, key + ":within", d.r, d.size, w)


def fields(d):
    out = []
    if d.trade:
        out += ["trade_price", "trade_quantity", "cumulative_trade_quantity"]
    if d.levels:
        out += ["ask_quote_data", "bid_quote_data"]
    return out


def same_under(a, b, g):
    m = differ(a, b, g, ())
    return m is None


def kind(ck, key, t, d, w):
    """the trade's side: '0' undefined, '1' a sale, otherwise a purchase"""
    ty = t.adts[next(k for k, a in t.adts.items() if k.endswith("types::enums::TradeType"))]
    idx = {v["name"]: i for i, v in enumerate(ty["variants"])}
    ch = project(d.payload, ("idx", num(TYPE)))
    x = under(d.get("trade_type"), d.g)
    y = some_of(x)
    if not ck.ob(key + ":some", y is not None, "no side is given: " + show(x)[:100], w):
        return
    rules = ((eq(ch, num(48)), "Undefined"), (eq(ch, num(49)), "Sell"), (b_and(b_not(eq(ch, num(48))), b_not(eq(ch, num(49)))), "Buy"))
    for cond, nm in rules:
        for g, v in cases(y):
            if never(b_and(b_and(g, d.g), cond)):
                continue
            ck.ob(f"{key}:{nm}", v.op == "agg" and v.a[1] == idx[nm], f"the side is {show(v)[:60]} where the record says {nm}", w)


def T09(ck, q, t, meta):
    """Only whole records are decoded, each under the format its code calls for.

    Each decoder is interpreted for the default and the extreme numbers of levels: the condition under which it answers
    must imply the record's exact length and the 0xFF terminator, must follow from those with a readable code and time
    (and, into a buffer, enough levels in it), and no payload at all, of any length or content, may panic it; a payload
    that is refused leaves the buffer as it was.  The limit on the levels asked for, the choice of the number format by
    transaction and instrument code and the table of transaction codes are decided against their oracles."""
    for name, (mod, size, levels, first, widths, trade, fns) in RECORDS.items():
        b = body(ck, t, mod + name + "::with_quote_level_cut") if levels else None
        if b is not None:
            n = arg(Interp(t).arg_names(b)[1])
            r = analyse(t, b)
            g, v = ok_part(r)
            few = b_not(cmp("Gt", n, num(levels)))
            ck.ob(f"{name}:asked", r.g == TRUE and v is not None and never(b_and(g, b_not(few))) and never(b_and(b_not(g), few)),
                  f"the levels that may be asked for are not those up to {levels}: accepted when {b_show(g)[:120]}", loc(b))
            if v is not None:
                cut = project(v, ("f", "quote_level_cut"))
                ck.ob(f"{name}:asked:set", differ(cut, n, g, ()) is None, f"{show(cut)[:80]} levels will be decoded", loc(b))
        for fn in fns:
            for cut in ((0, 3, levels) if levels else (None,)):
                key = f"{name}.{fn}" + (f"[{cut}]" if cut is not None else "")
                try:
                    d = Decoded(ck, t, name, fn, cut, False if trade else None)
                except Blowup as e:
                    ck.fail(key, f"not followed: {e}")
                    continue
                refusals(ck, key, d, cut)
                ck.count("decoders")
    ck.floor("decoders", 32)
    selection(ck, t)
    codes(ck, t)


def opened(g):
    """the readings a decoder depends on beyond the record itself: (condition that they succeed, what they are)"""
    ok, seen = TRUE, []
    for l in b_lits(g):
        if l.op == "is" or (l.a and isinstance(l.a[0], T) and l.a[0].op == "call"):
            x = l.a[0]
            if isinstance(x, T) and x.op == "call" and (call_named(x, "IsinCode::new") or x.a[0].endswith("new") or x.a[0].endswith("parse_hhmmssuuuuuu")):
                ok = b_and(ok, is_v(x, 0))
                seen.append(x)
    return ok, seen


def refusals(ck, key, d, cut):
    if not ck.ob(key + ":decodes", d.out is not None and d.g != FALSE, "the record is never decoded", d.where):
        return
    whole = b_and(eq(length(d.payload), num(d.size)), eq(project(d.payload, ("idx", num(d.size - 1))), num(255)))
    ck.ob(key + ":never stops", never(b_not(d.r.g)), "a payload stops the decoding with a panic when " + b_show(b_not(d.r.g))[:200], d.where)
    n = length(d.payload)
    exact = eq(n, num(d.size))

    def sized(g):
        """the condition, for a payload of the record's length"""
        return b_and(exact, b_of(subst(bool_t(g), lambda y: num(d.size) if y is n else None)))
    answered = b_or(b_and(d.g, b_not(exact)), sized(d.g))
    bad = b_and(answered, b_not(whole))
    ck.ob(key + ":whole", never(bad), "a payload is decoded when " + b_show(bad)[:200], d.where)
    ok, seen = opened(d.g)
    care = b_and(whole, ok)
    if d.buffered and d.levels:
        for side in ("ask", "bid"):
            care = b_and(care, b_not(cmp("Lt", length(project(d.before, ("f", side + "_quote_data"))), num(cut))))
        few = b_and(answered, b_not(care))
        ck.ob(key + ":room", never(few), "a payload is decoded into a buffer without the room, when " + b_show(few)[:200], d.where)
    lost = b_and(care, b_not(answered))
    ck.ob(key + ":accepted", never(lost), "a whole record is refused when " + b_show(lost)[:200], d.where)
    if d.buffered:
        after = d.r.ip.read(d.r.state, d.root, ())
        after = mk_ite([(b_not(exact), after), (exact, subst(after, lambda y: num(d.size) if y is n else None))])
        m = differ(after, d.before, b_not(whole), ())
        ck.ob(key + ":untouched", m is None, f"a refused payload changes the buffer: {m}"[:300], d.where)


def selection(ck, t):
    """which number format a derivative's record is read under"""
    b = body(ck, t, "data::krx::krx_converter::get_krx_derivative_converter")
    names = Interp(t).arg_names(b)
    pay, isin = D(arg(names[0])), F(D(arg(names[1])), "isin")
    r = analyse(t, b)

    def spelled(x, at_, text):
        g = TRUE
        for i, c in enumerate(text):
            g = b_and(g, eq(project(x, ("idx", num(at_ + i))), num(ord(c))))
        return g
    stock = b_or(spelled(pay, 2, "04F"), spelled(pay, 2, "05F"))
    comm = b_and(spelled(pay, 2, "10F"), b_not(stock))
    rest = b_and(b_not(stock), b_not(comm))
    rf = spelled(isin, 0, "KR4169")
    long = b_and(eq(length(isin), num(12)), b_not(cmp("Lt", length(pay), num(5))))
    ck.ob("format:answers", never(b_and(long, b_not(r.g))), "no format is chosen when " + b_show(b_not(r.g))[:200], loc(b))
    for nm, care, want in (("stock", stock, (8, 0, True, 0, 9)), ("commodity", comm, (8, 0, True, 0, 9)),
                           ("risk free", b_and(rest, rf), (4, 4, True, 0, 9)), ("other", b_and(rest, b_not(rf)), (5, 3, True, 0, 9))):
        hit = False
        for g, c in cases(r.ret):
            both = b_and(b_and(g, care), long)
            if never(both):
                continue
            hit = True
            got = shape(under(r.ip.load(r.state, c), both))
            ck.ob(f"format:{nm}", got == want, f"the numbers are read as {got} (digits, decimal part, sign, unused, quantity digits), not {want}", loc(b))
        ck.ob(f"format:{nm}:chosen", hit, "no format is chosen", loc(b))


def shape(c):
    def n(x, f):
        y = project(x, ("f", f))
        return int(y.a[0]) if y.op == "num" else True if y is bool_t(TRUE) else False if y is bool_t(FALSE) else None
    pc, qc = (project(project(c, ("f", m)), ("f", "numcfg")) for m in ("price", "quantity"))
    return n(pc, "digit_length"), n(pc, "decimal_point_length"), n(pc, "is_signed"), n(pc, "unused_length"), n(qc, "digit_length")


def run_of(head, ns, tail):
    return [f"{head}{n:02d}{tail}" for n in ns]


ORDERS = [n for n in range(1, 17) if n not in (4, 5)]
TR_CODES = {
    "IFMSRPD0023": ["B601B", "B601K"], "IFMSRPD0027": ["A301B", "A301M", "A301K"], "IFMSRPD0029": ["G701B", "G701K"],
    "IFMSRPD0002": ["B601S", "B601Q", "B601X"], "IFMSRPD0003": ["B702S", "B703S", "B704S"],
    "IFMSRPD0004": ["A301S", "A302S", "A303S", "A304S", "A301Q", "A301X"],
    "IFMSRPD0036": run_of("A3", range(1, 17), "F"), "IFMSRPD0034": run_of("B6", ORDERS, "F"), "IFMSRPD0035": ["B604F", "B605F"],
    "IFMSRPD0037": run_of("G7", [n for n in ORDERS if n != 14], "F"), "IFMSRPD0038": ["G704F", "G705F"],
}


def codes(ck, t):
    """transaction code -> record"""
    b = body(ck, t, "data::krx::interface_map::KRX_TR_CODE_MAP::{closure#0}")
    r = analyse(t, b)
    where = loc(b)
    table = {}
    for e in r.events:
        if e.kind in ("map_remove", "clear", "extend") or e.kind == "havoc":
            ck.fail("codes:made", f"the table of codes is not only added to ({e.kind})", where)
            return
        if e.kind != "map_insert":
            continue
        for x in unrolled([e.args[1], e.args[2]], e.guard, [l.src for l in e.loops]):
            if x is None or x[2] != TRUE or None in (text(x[0]), text(x[1])):
                ck.fail("codes:made", "an entry of the table of codes is not known: " + show(e.args[1])[:80], where)
                return
            table[text(x[0])] = text(x[1])
    ck.ob("codes:made", bool(table), "the table of codes is empty", where)
    want = {c: n for n, cs in TR_CODES.items() for c in cs}
    for c in sorted(set(want) | set(table)):
        ck.ob(f"code {c}", table.get(c) == want.get(c), f"{c} is sent to {table.get(c)}, not {want.get(c)}", where)
        ck.count("codes")
    ck.floor("codes", 40)


def text(x):
    while isinstance(x, T):
        if x.op == "call" and len(x.a) == 2 and "as_bytes" in x.a[0]:
            x = x.a[1]
        elif x.op in ("ref", "str", "const") and x.a:
            x = x.a[0]
        else:
            return None
    return x


def unrolled(xs, g, srcs):
    """[(terms..., guard)] of an event for every element of the constant arrays it loops over"""
    if not srcs:
        return [tuple(xs) + (g,)]
    src = srcs[0]
    if src is None or src.op != "agg" or src.a[0] != "array":
        return [None]
    out = []
    for i in range(len(src.a[2])):
        def fn(y, i=i):
            if y.op == "ix" and y.a[0] is src:
                return num(i)
            if y.op == "more" and y.a[0] is src:
                return bool_t(TRUE)
            return None
        ys = [subst(x, fn) for x in xs]
        h = b_map(g, lambda l: TRUE if l.op == "more" and l.a[0] is src else lit(l))
        rest = [s if s is None else subst(s, fn) for s in srcs[1:]]
        out += unrolled(ys, h, rest)
    return out
