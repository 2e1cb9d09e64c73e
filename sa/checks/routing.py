"""Order requests: what each request does to which side, order, price and quantity."""
from spec import *
from interp import *
from checks import orderbook as ob
from checks.orderbook import slots, analyse, Ledger, fold, where, short, has
from checks.orderindex import ops_of, uncovered, equal, const_guard, id_facts, more_of
from checks.priority import side_guards

HB = ob.HB + "::"
OB = ob.OB + "::"
HALF = [HB + n for n in ("add_limit_order", "cancel_order", "change_quantity", "change_price", "remove_order", "trade_limit_order",
                         "trade_market_order", "update_l2_snapshot", "decomposed_orders_with_update", "to_level_snapshot",
                         "check_validity_quantity", "eq_level")]
BOOK = mk("obj", mk("arg", "self"))


def tuple_of(*xs):
    return mk("agg", "tuple", 0, tuple((str(i), x) for i, x in enumerate(xs)))


def out(i, c):
    return mk("out", i, c)


def half(name, h, *args):
    return call(HB + name, h, *args)


def g_ite(g, a, b):
    return mk_ite([(g, a), (b_not(g), b)])


def whole(t):
    """orders handed to a side in one form: all their fields spelt out"""
    adt = next(a for a in t.adts.values() if a["path"].endswith("data::order::LimitOrder"))
    names = [f[0] for f in adt["variants"][0]["fields"]]
    takers = (HB + "add_limit_order", HB + "trade_limit_order")
    memo = {}

    def f(z):
        if z.op == "call" and z.a[0] in takers and len(z.a) == 3:
            o = norm(z.a[2])
            if o.op != "ite":
                o = mk("agg", adt["path"], 0, tuple((n, project(o, ("f", n))) for n in names))
            return mk("call", z.a[0], norm(z.a[1]), o)
        return None

    def norm(x):
        return subst(x, f, memo)
    return norm


def norm_guard(norm, g):
    return b_of(norm(bool_t(g)))


class Book:
    def __init__(self, ck, t, name):
        self.ck, self.t, self.name = ck, t, name
        self.r = run(t, OB + name, opaque=tuple(HALF) + ("fmt", "get_unix_nano", "LogLevel::from_usize", "LazyMessage::new"))
        ck.fn(OB + name)
        s = default(BOOK)
        self.asks, self.bids = project(s, ("f", "asks")), project(s, ("f", "bids"))
        self.counter = project(s, ("f", "virtual_id_counter"))
        self.id = project(s, ("f", "id"))
        self.odd = FALSE

    def arg(self, n):
        """the n-th argument after self, by value or behind its reference"""
        b = self.t.fn(OB + self.name)
        a = self.r.ip.args[n]
        ty = self.t.types[b["locals"][n + 1]]
        return mk("deref", a) if ty["k"] == "ref" else a

    def sides(self, asks, bids, when=TRUE):
        r = self.r
        norm = whole(self.t)
        g = norm_guard(norm, b_and(b_and(r.g, when), b_not(self.odd)))
        for nm, want in (("asks", asks), ("bids", bids)):
            m = differ(norm(final(r, mk("arg", "self"), nm)), norm(want), g)
            self.ck.ob(f"OrderBook::{self.name}:{nm}", m is None, f"the {nm} are not what the request makes of them: {m}", OB + self.name)

    def ret(self, want, what="result"):
        norm = whole(self.t)
        m = differ(norm(self.r.ret), norm(want), norm_guard(norm, b_and(self.r.g, b_not(self.odd))))
        self.ck.ob(f"OrderBook::{self.name}:{what}", m is None, f"the answer is not that of the side concerned: {m}", OB + self.name)

    def some(self, g, what="answer"):
        """Some (or Ok... ) exactly under g"""
        ok, bad = FALSE, FALSE
        for c, x in cases(self.r.ret):
            if x.op == "agg":
                if x.a[1] == 1:
                    ok = b_or(ok, c)
                else:
                    bad = b_or(bad, c)
        ok, bad = b_and(ok, self.r.g), b_and(bad, self.r.g)
        wrong = b_or(b_and(ok, b_not(g)), b_and(bad, g))
        self.ck.ob(f"OrderBook::{self.name}:{what}", b_empty(b_valid(wrong)), "found and not found are not told apart: " + b_show(wrong)[:300], OB + self.name)


def book_rules(ck, t, ask):
    n = 0
    # construction
    b = run(t, OB + "initialize_with_id")
    ck.fn(OB + "initialize_with_id")
    for nm, want in (("asks", True), ("bids", False)):
        side = lift(lambda x: project(project(x, ("f", nm)), ("f", "order_side")), b.ret)
        g = ask(side)
        ck.ob(f"OrderBook::initialize_with_id:{nm}", g == (TRUE if want else FALSE), f"the {nm} of a new book are not of their side")
    m = differ(lift(lambda x: project(x, ("f", "id")), b.ret), b.ip.args[0], b.g)
    ck.ob("OrderBook::initialize_with_id:id", m is None, "a new book does not carry the id given")
    # a limit order filed
    k = Book(ck, t, "add_limit_order")
    o = k.arg(1)
    a = ask(project(o, ("f", "order_side")))
    ca, cb = (half("add_limit_order", h, o) for h in (k.asks, k.bids))
    k.sides(g_ite(a, out(0, ca), k.asks), g_ite(a, k.bids, out(0, cb)))
    k.ret(g_ite(a, ca, cb))
    # removal of quantity
    k = Book(ck, t, "remove_order")
    o = k.arg(1)
    a = ask(project(o, ("f", "order_side")))
    ca, cb = (half("remove_order", h, o) for h in (k.asks, k.bids))
    k.sides(g_ite(a, out(0, ca), k.asks), g_ite(a, k.bids, out(0, cb)))
    k.ret(g_ite(a, ca, cb))
    # market order
    k = Book(ck, t, "process_market_order")
    o = k.arg(1)
    a = ask(project(o, ("f", "order_side")))
    ca, cb = (half("trade_market_order", h, o) for h in (k.asks, k.bids))
    k.sides(g_ite(a, k.asks, out(0, ca)), g_ite(a, out(0, cb), k.bids))
    k.ret(g_ite(a, cb, ca))
    # limit order
    k = Book(ck, t, "process_limit_order")
    o = k.arg(1)
    asks, bids, ret, odd = limit(ask, k.asks, k.bids, o)
    k.odd = odd
    k.sides(asks, bids)
    k.ret(ret)
    # cancel
    for nm, args in (("cancel_order", lambda k: (project(k.arg(1), ("f", "order_id")),)), ("change_quantity", lambda k: (k.arg(1), k.arg(2)))):
        k = Book(ck, t, nm)
        xs = args(k)
        ca, cb = half(nm, k.asks, *xs), half(nm, k.bids, *xs)
        k.sides(out(0, ca), g_ite(is_v(ca, 0), out(0, cb), k.bids))
        k.some(b_or(is_v(ca, 1), is_v(cb, 1)))
    # amendment
    k = Book(ck, t, "modify_order")
    o = k.arg(1)
    oid, price, qty = (project(o, ("f", n_)) for n_ in ("order_id", "price", "quantity"))
    asks, bids, ret = [], [], []
    before = TRUE
    for h, me, side in ((k.asks, 0, "Ask"), (k.bids, 1, "Bid")):
        cache = project(h, ("f", "cache"))
        there = b_and(before, has(cache, oid))
        before = b_and(before, b_not(has(cache, oid)))
        same = eq(project(cache, ("key", oid)), price)
        ch = out(0, half("change_quantity", h, oid, qty))
        g = b_and(there, same)
        asks.append((g, ch if me == 0 else k.asks))
        bids.append((g, ch if me == 1 else k.bids))
        ret.append((g, NONE))
        gone = out(0, half("cancel_order", h, oid))
        lo = new_limit(t, price, qty, side, oid)
        g = b_and(there, b_not(same))
        a2, b2, r2, odd = limit(ask, gone if me == 0 else k.asks, gone if me == 1 else k.bids, lo)
        k.odd = b_or(k.odd, b_and(g, odd))
        asks.append((g, a2))
        bids.append((g, b2))
        ret.append((g, r2))
    asks.append((before, k.asks))
    bids.append((before, k.bids))
    ret.append((before, NONE))
    flat = lambda xs: mk_ite([(b_and(g, h), v) for g, x in xs for h, v in cases(x) if b_and(g, h) != FALSE])
    k.sides(flat(asks), flat(bids))
    k.ret(flat(ret))
    # snapshots
    for nm in ("update_from_quote_snapshot", "update_from_trade_quote_snapshot"):
        k = Book(ck, t, nm)
        s = k.arg(1)
        own = same_id(k.id, project(s, ("f", "id")))
        ca = half("update_l2_snapshot", k.asks, project(s, ("f", "ask_quote_data")), k.counter)
        cb = half("update_l2_snapshot", k.bids, project(s, ("f", "bid_quote_data")), out(2, ca))
        good = b_and(own, is_v(ca, 0))
        k.sides(g_ite(own, out(0, ca), k.asks), g_ite(good, out(0, cb), k.bids))
        ok, bad = FALSE, FALSE
        for c, x in cases(k.r.ret):
            c = b_and(c, k.r.g)
            if x.op == "agg" and x.a[1] == 0:
                ok = b_or(ok, c)
            else:
                bad = b_or(bad, c)
        want = b_and(good, is_v(cb, 0))
        ck.ob(f"OrderBook::{nm}:accepted", b_empty(b_valid(b_or(b_and(ok, b_not(want)), b_and(bad, want)))),
              "a snapshot is accepted or refused wrongly")
    # views
    for nm, side in (("ask_level_snapshot", "asks"), ("bid_level_snapshot", "bids")):
        k = Book(ck, t, nm)
        s = project(D(arg("self")), ("f", side))
        m = differ(k.r.ret, half("to_level_snapshot", s), k.r.g)
        ck.ob(f"OrderBook::{nm}:side", m is None, f"the view is not of the {side}: {m}")


def same_id(a, b):
    p = lambda i: mk("deref", project(i, ("f", "id_ptr")))
    return lit(call("std::ptr::eq", p(a), p(b)))


def new_limit(t, price, qty, side, oid):
    adt = next(a for a in t.adts.values() if a["path"].endswith("data::order::LimitOrder"))
    ad2 = next(a for a in t.adts.values() if a["path"].endswith("types::enums::OrderSide"))
    i = [v["name"] for v in ad2["variants"]].index(side)
    vals = {"price": price, "quantity": qty, "order_side": mk("agg", ad2["path"], i, ()), "order_id": oid}
    return mk("agg", adt["path"], 0, tuple((f[0], vals[f[0]]) for f in adt["variants"][0]["fields"]))


def limit(ask, asks, bids, o):
    """(asks, bids, answer) after the limit order o met the book; and when that cannot
    come about: a price within the other side's best, but no trade (T03, T04)"""
    odd = FALSE
    side, price = project(o, ("f", "order_side")), project(o, ("f", "price"))
    a = ask(side)
    A, B, R = [], [], []
    for g, own, opp, mine in ((a, asks, bids, "a"), (b_not(a), bids, asks, "b")):
        if g == FALSE:
            continue
        best = project(opp, ("f", "best_price"))
        away = cmp("Gt", price, best) if mine == "a" else cmp("Lt", price, best)
        filed = out(0, half("add_limit_order", own, o))
        t_ = half("trade_limit_order", opp, o)
        rem = project(V(t_, 1), ("f", "1"))
        met = is_v(t_, 1)
        rest = out(0, half("add_limit_order", own, update(o, (("f", "quantity"),), rem)))
        own2 = mk_ite([(away, filed), (b_and(b_not(away), b_and(met, cmp("Gt", rem, ZERO))), rest),
                       (b_and(b_not(away), b_not(b_and(met, cmp("Gt", rem, ZERO)))), own)])
        opp2 = g_ite(away, opp, out(0, t_))
        for gg, x in cases(own2):
            (A if mine == "a" else B).append((b_and(g, gg), x))
        for gg, x in cases(opp2):
            (B if mine == "a" else A).append((b_and(g, gg), x))
        R.append((b_and(g, b_or(away, b_not(met))), NONE))
        odd = b_or(odd, b_and(g, b_and(b_not(away), b_not(met))))
        R.append((b_and(g, b_and(b_not(away), met)), some(tuple_of(project(V(t_, 1), ("f", "0")), rem))))
    return mk_ite(A), mk_ite(B), mk_ite(R), odd



# ------------------------------------------------------------------ one side
NOT_OPS = ("enter", "leave", "call", "unwrap", "bounds", "map_get", "drop", "index", "clone", "divzero", "overflow", "borrow", "borrow_mut", "lock")


class Half:
    """what one function of a side does to resting orders"""

    def __init__(self, ck, t, name):
        self.ck, self.t, self.name = ck, t, name
        b = t.fn(HB + name)
        self.b = b
        self.r = analyse(t, b)
        ck.fn(b["path"])
        self.led = Ledger(ck, "half", t, b, self.r)
        self.hyp = list(self.led.hyps) + [id_facts(self.r)]
        self.root = mk("obj", mk("arg", "self"))
        s = default(self.root)
        self.side, self.levels, self.cache = (project(s, ("f", n)) for n in ("order_side", "levels", "cache"))
        self.takes, self.puts, self.sets = [], [], []   # (event, guard, price key, id, quantity)
        for e in self.r.events:
            if e.kind in NOT_OPS or not e.args:
                continue
            for g0, sl in slots("half", e.args[0]):
                g = b_and(e.guard, g0)
                if g != FALSE:
                    self.event(e, g, sl)

    def arg(self, n):
        a = self.r.ip.args[n]
        return mk("deref", a) if self.t.types[self.b["locals"][n + 1]]["k"] == "ref" else a

    def event(self, e, g, sl):
        kd = e.kind
        price = sl.key[1] if sl.key is not None and sl.key[0] == "key" else None
        if sl.what == "orders":
            old = e.args[-1]
            n = length(old)
            if kd in ("push", "push_front", "insert_at"):
                it = e.args[-2]
                self.puts.append((e, g, price, project(it, ("f", "0")), project(it, ("f", "1")), kd))
            elif kd in ("pop_front", "pop_back", "remove_at"):
                ix = ZERO if kd == "pop_front" else lift(lambda z: p_sub(z, ONE), n) if kd == "pop_back" else e.args[1]
                g = b_and(g, b_of(compare("Lt", ix, n))) if kd == "remove_at" else b_and(g, b_not(b_of(compare("Eq", n, ZERO))))
                o = lift(lambda q, i: ob.elem(q, i), old, ix)
                self.takes.append((e, g, price, lift(lambda x: project(x, ("f", "0")), o), lift(lambda x: project(x, ("f", "1")), o), kd))
            else:
                self.ck.fail(f"HalfBook::{self.name}:queue", f"{kd} on a queue of orders", where(e))
        elif sl.what == "Q" and kd == "store":
            self.sets.append((e, g, price, sl, e.args[1], e.args[2]))
        elif sl.what == "order" and kd == "store":
            self.sets.append((e, g, price, sl, project(e.args[1], ("f", "1")), project(e.args[2], ("f", "1"))))
        elif sl.what == "levels" and kd == "map_insert":
            for g2, x in cases(lift(lambda v: project(v, ("f", "orders")), e.args[2])):
                from checks.orderindex import seq_items
                for it in seq_items(x) or ():
                    self.puts.append((e, b_and(g, g2), e.args[1], project(it, ("f", "0")), project(it, ("f", "1")), "push"))

    def set_id(self, e, sl):
        mem = e.mem.get(sl.lroot, default(sl.lroot))
        lv = project_path(mem, sl.lpath) if sl.lpath else mem
        return lift(lambda l: project(project(project(l, ("f", "orders")), sl.idx), ("f", "0")), lv)

    def same(self, what, g, a, b, msg, e=None):
        """a equals b wherever g holds"""
        if a is None:
            return self.ck.fail(f"HalfBook::{self.name}:{what}", msg + " (it cannot be followed)", where(e))
        u = uncovered(g, [equal(a, b)], self.hyp)
        return self.ck.ob(f"HalfBook::{self.name}:{what}", u is None, msg + (": " + " & ".join(cube_show(u))[:300] if u else ""), where(e))

    def only(self, what, g, cover, msg, e=None):
        u = uncovered(g, [cover], self.hyp)
        return self.ck.ob(f"HalfBook::{self.name}:{what}", u is None, msg + (": " + " & ".join(cube_show(u))[:300] if u else ""), where(e))

    def answered(self):
        """(guard of Some/Ok-like answers, guard of None)"""
        yes, no = FALSE, FALSE
        for g, x in cases(self.r.ret):
            g = b_and(g, self.r.g)
            if x.op == "agg" and x.a[1] == 0:
                no = b_or(no, g)
            else:
                yes = b_or(yes, g)
        return yes, no

    def resting(self, oid):
        """what holds when the order is resting: indexed, and found in the level it is filed under"""
        at_ = project(self.cache, ("key", oid))
        lv = project(self.levels, ("key", at_))
        orders = project(lv, ("f", "orders"))
        o = project(orders, ("at", mk("ix", orders, 0)))
        there = lit(mk("exists", orders, bool_t(eq(oid, project(o, ("f", "0"))))))
        return b_and(b_and(has(self.cache, oid), has(self.levels, at_)), there)


def half_rules(ck, t, ask):
    n = 0
    # a new order
    h = Half(ck, t, "add_limit_order")
    o = h.arg(1)
    oid, price, qty = (project(o, ("f", f)) for f in ("order_id", "price", "quantity"))
    mine = equal(project(o, ("f", "order_side")), h.side)
    done = const_guard([p[1] for p in h.puts])
    ck.ob("HalfBook::add_limit_order:only-adds", not h.takes and not h.sets, "filing an order changes other orders")
    for e, g, k, i, v, kd in h.puts:
        n += 1
        h.same("id", g, i, oid, "an order rests under another id", e)
        h.same("price", g, k, price, "an order rests at another price", e)
        h.same("quantity", g, v, qty, "an order rests with another quantity", e)
        h.only("side", g, mine, "an order of the other side is filed", e)
    h.only("filed", b_and(h.r.g, mine), done, "an order of this side is not filed")
    ck.ob("HalfBook::add_limit_order:once", all(b_empty(b_and(a[1], b[1])) for a in h.puts for b in h.puts if a is not b), "an order is filed twice")
    # cancel
    h = Half(ck, t, "cancel_order")
    oid = h.arg(1)
    ck.ob("HalfBook::cancel_order:only-removes", not h.puts and not h.sets, "cancelling changes other orders")
    n += removal(h, oid)
    gone = const_guard([x[1] for x in h.takes])
    yes, no = h.answered()
    h.only("found", yes, gone, "an order is reported cancelled and stays")
    h.only("not-found", gone, yes, "a cancelled order is reported as not found")
    h.only("cancelled", b_and(h.r.g, h.resting(oid)), gone, "a resting order is not cancelled")
    # quantity
    h = Half(ck, t, "change_quantity")
    oid, qty = h.arg(1), h.arg(2)
    ck.ob("HalfBook::change_quantity:no-new", not h.puts, "changing a quantity files an order")
    n += removal(h, oid)
    zero = b_of(compare("Eq", qty, ZERO))
    for e, g, *_ in h.takes:
        h.only("kept", g, zero, "an order is removed although a quantity is left", e)
    for e, g, k, sl, v, old in h.sets:
        n += 1
        h.same("id", g, h.set_id(e, sl), oid, "the quantity of another order is changed", e)
        h.same("quantity", g, v, qty, "the order is given another quantity", e)
    acted = const_guard([x[1] for x in h.takes] + [x[1] for x in h.sets])
    yes, no = h.answered()
    h.only("found", yes, acted, "an order is reported changed and is not")
    h.only("not-found", acted, yes, "a changed order is reported as not found")
    h.only("changed", b_and(h.r.g, h.resting(oid)), acted, "a resting order keeps its quantity")
    # price
    h = Half(ck, t, "change_price")
    oid, price = h.arg(1), h.arg(2)
    n += removal(h, oid)
    ck.ob("HalfBook::change_price:moves", not h.sets, "changing a price changes a quantity")
    back = const_guard([x[1] for x in h.puts])
    for e, g, k, i, v, kd in h.puts:
        n += 1
        h.same("id", g, i, oid, "the moved order rests under another id", e)
        h.same("price", g, k, price, "the moved order rests at another price", e)
        for e2, g2, k2, i2, v2, kd2 in h.takes:
            h.same("quantity", b_and(g, g2), v, v2, "the moved order rests with another quantity", e)
    gone = const_guard([x[1] for x in h.takes])
    h.only("moved", b_and(h.r.g, gone), back, "an order taken from its price is not filed at the new one")
    h.only("changed", b_and(h.r.g, h.resting(oid)), gone, "a resting order keeps its price")
    yes, no = h.answered()
    h.only("found", yes, gone, "an order is reported moved and is not")
    h.only("not-found", gone, yes, "a moved order is reported as not found")
    # removal of quantity at a price
    h = Half(ck, t, "remove_order")
    o = h.arg(1)
    price, qty = project(o, ("f", "price")), project(o, ("f", "quantity"))
    mine = equal(project(o, ("f", "order_side")), h.side)
    ck.ob("HalfBook::remove_order:no-new", not h.puts, "removing quantity files an order")
    imb = {}
    for (c, hf, key), xs in h.led.Q.items():
        for g, x in xs:
            imb.setdefault(c, {}).setdefault(("fill",), []).append((g, x))
    some_ = FALSE
    for g, x in cases(h.r.ret):
        if x.op == "agg" and x.a[2]:
            some_ = b_or(some_, g)
            imb.setdefault(None, {}).setdefault(("fill",), []).append((g, lift(lambda v: p_sub(qty, v), project(x, ("f", "0")))))
    bad, choice, hyp2 = fold(h.led, imb)
    ck.ob("HalfBook::remove_order:amount", not bad, "what is taken from the level is not the quantity stated less the remainder: " + "; ".join(m for _, _, m in bad)[:300])
    for e, g, k, *rest in h.takes + h.sets:
        n += 1
        h.same("price", g, k, price, "quantity is removed at another price", e)
        h.only("side", g, mine, "quantity of the other side's price is removed", e)
    for e, g, k, i, v, kd in h.takes:
        ck.ob("HalfBook::remove_order:youngest", kd == "pop_back", "an order other than the youngest of its level is removed", where(e))
    for e, g, k, sl, v, old in h.sets:
        last = sl.idx is not None and sl.idx[0] == "idx" and sl.idx[1].op == "poly" and "len" in str(sl.idx[1])
        ck.ob("HalfBook::remove_order:youngest", last, "an order other than the youngest of its level is reduced", where(e))
    h.only("answered", b_and(h.r.g, mine), some_, "a removal on this side is not answered")
    for (c, key), m in choice.items():
        for tgt, g in c.exits:
            lv = project(current(h, c), ("key", price))
            empty = b_of(compare("Eq", length(lift(lambda x: project(x, ("f", "orders")), lv)), ZERO))
            u = uncovered(g, [b_of(compare("Eq", m, ZERO)), empty], hyp2 + h.hyp)
            ck.ob("HalfBook::remove_order:complete", u is None, "removal stops with quantity to remove and orders left: " + (" & ".join(cube_show(u))[:300] if u else ""))
        kk = next(k for k, mm in c.mus.items() if mm is m)
        q0 = project(project(current(h, c), ("key", price)), ("f", "orders"))
        for pg, mem, tgt in c.passes:
            if tgt is not None:
                continue
            left = project_path(mem.get(kk[0], default(kk[0])), kk[1])
            qs = lift(lambda x: project(project(x, ("key", price)), ("f", "orders")), ob_levels(h, mem))
            shorter = const_guard([g for g, x in cases(qs) if x.op in ("popb", "popf", "removed") and below(x.a[0], q0)])
            shorter = b_and(shorter, b_of(compare("Gt", length(q0), ZERO)))
            u = uncovered(pg, [b_of(compare("Lt", left, m)), shorter], hyp2 + h.hyp)
            ck.ob("HalfBook::remove_order:progress", u is None, "a pass of the removal takes neither quantity nor an order, so it never ends: " + (" & ".join(cube_show(u))[:300] if u else ""))
    if not choice:
        ck.fail("HalfBook::remove_order:complete", "no loop removes quantity")
    # snapshot
    n += snapshot(ck, t)
    ck.count("placings, changes and removals of orders", n)
    ck.floor("placings, changes and removals of orders", 14)


def below(q, q0):
    while q.op == "upd":
        q = q.a[0]
    return q is q0


def current(h, c):
    """the map of levels as the loop sees it"""
    for k, m in c.mus.items():
        if k[0] is h.root and k[1] == (("f", "levels"),):
            return m
    return h.levels


def removal(h, oid):
    n = 0
    for e, g, k, i, v, kd in h.takes:
        n += 1
        h.same("id", g, i, oid, "another order than the one named is taken from its queue", e)
    return n


def snapshot(ck, t):
    h = Half(ck, t, "update_l2_snapshot")
    snap = h.arg(1)
    n = 0
    item = at(snap)
    price, qty = project(item, ("f", "book_price")), project(item, ("f", "book_quantity"))

    def listed(k):
        """the literals that say price k is among those of the snapshot"""
        tabs = tab(snap, price)
        return [lit(mk("call", "contains", tabs, k)), lit(mk("exists", snap, bool_t(eq(price, k)))), lit(mk("exists", snap, bool_t(eq(k, price)))),
                lit(mk("exists", tabs, bool_t(eq(project(tabs, ("at", mk("ix", tabs, 0))), k))))]
    own = mk("mapkey", h.levels, mk("ix", h.levels, 0))
    drops = []
    for e in h.r.events:
        if e.kind not in ("map_remove", "map_insert", "clear", "retain", "store") or not e.args:
            continue
        for g0, sl in slots("half", e.args[0]):
            g = b_and(e.guard, g0)
            if g == FALSE or not (sl.what == "levels" or sl.key is not None):
                continue
            n += 1
            inner = [c.src for c in e.loops]
            if sl.what == "levels" and e.kind == "map_remove":
                k = e.args[1]
                ok_ = any(uncovered(g, [b_not(l)], h.hyp) is None for l in listed(k))
                ck.ob("HalfBook::update_l2_snapshot:dropped", ok_, "a level the snapshot lists is dropped", where(e))
                if k is own and h.levels in inner:
                    drops.append(g)
            else:
                k = e.args[1] if sl.what == "levels" else sl.key[1] if sl.key[0] == "key" else None
                if snap not in inner:
                    ck.fail("HalfBook::update_l2_snapshot:walk", "a level is changed outside the walk over the snapshot", where(e))
                else:
                    h.same("level", g, k, price, "a level other than the one listed is changed", e)
    more = lit(mk("more", h.levels, 0))
    ok_ = any(uncovered(b_and(more, b_not(l)), drops, h.hyp) is None for l in listed(own))
    ck.ob("HalfBook::update_l2_snapshot:gone", ok_, "a level the snapshot does not list stays")
    walks = [c for c in h.r.loops if c.src is snap and any(k[0] is h.root for k in c.mus)]
    ck.ob("HalfBook::update_l2_snapshot:once", len(walks) == 1, "the snapshot is not walked once to set the levels")
    for c in walks:
        if c.passes:
            covered = const_guard([pg for pg, _, _ in c.passes])
            h.only("every", b_and(c.hguard, more_of(c)), covered, "a listed level is passed over")
        for pg, mem, tgt in c.passes:
            if tgt is not None:
                continue
            g = b_and(pg, more_of(c))
            lv = ob_levels(h, mem)
            there = has(lv, price)
            h.only("present", g, there, "a level the snapshot lists is missing")
            tot = lift(lambda x: project(project(x, ("key", price)), ("f", "total_quantity")), lv)
            h.same("quantity", g, tot, qty, "a level is not given the quantity the snapshot lists")
            n += 1
    return n


def ob_levels(h, mem):
    return project_path(mem.get(h.root, default(h.root)), (("f", "levels"),))


def T05(ck, q, t, meta):
    """Two layers over value-flow summaries.  (book) With the operations of a side
    as primitives, the final asks, bids and answer of every operation of the book
    are compared, under every guard, with the composition the request calls for:
    which side is handed which order, in which order, with which quantity left.
    (side) In each operation of a side every placing, change and removal of a
    resting order found in its summary is shown to concern the id, price and
    quantity named; a resting order named is always acted on, found and not found
    are told apart, the quantity removed equals that stated less the remainder, and
    a snapshot pass leaves exactly the listed levels with the listed quantities."""
    ask = side_guards(t)
    book_rules(ck, t, ask)
    half_rules(ck, t, ask)


# ---------------------------------------------------------------------- T06
def enum_of(t, path, name, v):
    adt = next(a for a in t.adts.values() if a["path"].endswith(path))
    i = [x["name"] for x in adt["variants"]].index(name)
    return mk("agg", adt["path"], i, (("0", v),))


def struct_of(t, path, **vals):
    adt = next(a for a in t.adts.values() if a["path"].endswith(path))
    return mk("agg", adt["path"], 0, tuple((f[0], vals[f[0]]) for f in adt["variants"][0]["fields"]))


def own_prices(levels):
    """a level is filed under its own price (T01)"""
    def f(z):
        if z.op == "prj" and z.a[1] == ("f", "book_price") and z.a[0].op == "prj":
            k = z.a[0].a[1]
            if k[0] == "key":
                return k[1]
            if k[0] == "at" and z.a[0].a[0] is levels:
                return mk("mapkey", levels, k[1])
        return None
    return lambda x: subst(x, f)


def T06(ck, q, t, meta):
    """The value each view and each derivation of orders returns is brought to normal
    form and compared, under every guard, with its specification over the state of
    the side: one entry per level in price order; an order found by its id with its
    own quantity, price and side; for each listed level the difference to the book as
    a new order or a removal, for each unlisted level the removal of all of it, every
    new order under the next virtual id.  The derived orders are then applied, each
    once and in order, and are exactly those returned, asks before bids."""
    S = D(arg("self"))
    levels, cache, side = F(S, "levels"), F(S, "cache"), F(S, "order_side")
    own = own_prices(levels)
    n = 0

    def view(name, want, *pre):
        r = run(t, HB + name)
        ck.fn(HB + name)
        m = differ(own(r.ret), own(want(r)), norm_guard(own, r.g))
        ck.ob(f"HalfBook::{name}:value", m is None, f"the view does not show the book: {m}", HB + name)
    lv = project(levels, ("at", mk("ix", levels, 0)))
    view("to_level_snapshot", lambda r: tab(levels, struct_of(
        t, "types::base::LevelSnapshot", book_price=keyat(levels), book_quantity=F(lv, "total_quantity"),
        order_count=some(length(F(lv, "orders"))), lp_quantity=NONE)))

    def at_price(k):
        return project(levels, ("key", k))

    def found(r):
        oid = r.ip.args[1]
        p = project(cache, ("key", oid))
        os_ = F(at_price(p), "orders")
        o = project(os_, ("at", mk("ix", os_, 0)))
        return g_ite(has(cache, oid), some(struct_of(t, "data::order::LimitOrder", price=p, quantity=project(o, ("f", "1")),
                                                     order_side=side, order_id=project(o, ("f", "0")))), NONE)
    view("get_order", found)
    h = Half.__new__(Half)
    r = run(t, HB + "get_order")
    oid = r.ip.args[1]
    h.cache, h.levels = cache, levels
    resting = Half.resting(h, oid)
    miss = b_and(b_or(resting, b_not(has(cache, oid))), b_not(r.g))
    ck.ob("HalfBook::get_order:answers", b_empty(b_valid(miss)), "looking up a resting order fails: " + b_show(miss)[:300])
    view("get_price", lambda r: g_ite(has(cache, r.ip.args[1]), some(project(cache, ("key", r.ip.args[1]))), NONE))
    view("aggregate_quantity_at_price", lambda r: g_ite(has(levels, r.ip.args[1]), F(at_price(r.ip.args[1]), "total_quantity"), ZERO))
    view("aggregate_quantity", lambda r: F(S, "total_quantity"))
    view("get_total_quantity", lambda r: F(S, "total_quantity"))
    view("len", lambda r: length(levels))
    view("is_empty", lambda r: bool_t(eq(length(levels), ZERO)))
    # derived orders of a side
    nm = HB + "decomposed_orders_with_update"
    r = run(t, nm, opaque=(HB + "add_limit_order", HB + "remove_order"))
    ck.fn(nm)
    snap, ctr = D(r.ip.args[1]), F(D(r.ip.args[2]), "order_id")
    item = at(snap)
    price, qty = F(item, "book_price"), F(item, "book_quantity")
    here = has(levels, price)
    was = F(at_price(price), "total_quantity")
    less, more = b_and(here, cmp("Gt", was, qty)), b_or(b_not(here), cmp("Lt", was, qty))
    oid = add(ctr, mk("before", "sum", snap, mk_ite([(more, ONE), (b_not(more), ZERO)]), mk("ix", snap, 0)))
    lim = lambda x: enum_of(t, "data::order::OrderEnum", "LimitOrder", struct_of(
        t, "data::order::LimitOrder", price=price, quantity=x, order_side=side, order_id=oid))
    rem = lambda k, x: enum_of(t, "data::order::OrderEnum", "RemoveAnyOrder", struct_of(
        t, "data::order::RemoveAnyOrder", price=k, quantity=x, order_side=side))
    first = mk("seqof", snap, mk_ite([(b_not(here), lim(qty)), (b_and(here, cmp("Lt", was, qty)), lim(sub(qty, was))),
                                      (less, rem(price, sub(was, qty))), (b_and(here, eq(was, qty)), mk("skip"))]))
    k = keyat(levels)
    tabs = tab(snap, price)
    g, v = ok_part(r)
    if v is None:
        return ck.fail("HalfBook::decomposed_orders_with_update:orders", "no orders are returned")
    msgs = []
    want = None
    for l in (lit(mk("call", "contains", tabs, k)), lit(mk("exists", snap, bool_t(eq(price, k))))):
        second = mk("seqof", levels, mk_ite([(b_not(l), rem(k, F(lv, "total_quantity"))), (l, mk("skip"))]))
        w = mk("extend", first, second)
        m = differ(own(v), own(w), norm_guard(own, g))
        msgs.append(m)
        if m is None:
            want = w
            break
    ck.ob("HalfBook::decomposed_orders_with_update:orders", want is not None, f"the derived orders are not the difference between book and snapshot: {msgs[0]}", nm)
    # applied
    done = {}
    for e in r.events:
        if e.kind == "call" and e.name in (HB + "add_limit_order", HB + "remove_order"):
            short_ = e.name.split("::")[-1]
            ls = [c for c in e.loops if same_list(c.src, v, g)]
            if not ls or len(e.loops) != 1:
                ck.fail(f"HalfBook::decomposed_orders_with_update:{short_}", "an order is applied outside the walk over the derived orders", where(e))
                continue
            c = ls[0]
            x = project(c.src, ("at", c.ix))
            adt = next(a for a in t.adts.values() if a["path"].endswith("data::order::OrderEnum"))
            names = [y["name"] for y in adt["variants"]]
            i = names.index("LimitOrder" if short_ == "add_limit_order" else "RemoveAnyOrder")
            m = differ(e.args[1], V(x, i), e.guard)
            ck.ob(f"HalfBook::decomposed_orders_with_update:{short_}", m is None, f"another order is applied than the one derived: {m}", where(e))
            isv = variant_is(x, i, len(names))
            want_g = b_and(c.hguard, b_and(more_of(c), isv))
            bad = b_or(b_and(want_g, b_not(e.guard)), b_and(e.guard, b_not(want_g)))
            ck.ob(f"HalfBook::decomposed_orders_with_update:{short_}:all", b_empty(b_valid(bad)), "a derived order is not applied: " + b_show(bad)[:300], where(e))
            done[short_] = done.get(short_, 0) + 1
            n += 1
    for s_ in ("add_limit_order", "remove_order"):
        ck.ob(f"HalfBook::decomposed_orders_with_update:{s_}:once", done.get(s_) == 1, "derived orders are not applied exactly once")
    m = differ(final(r, r.ip.args[2], "order_id"),
               add(ctr, mk("sum", snap, mk_ite([(more, ONE), (b_not(more), ZERO)]))), r.g)
    ck.ob("HalfBook::decomposed_orders_with_update:ids", m is None, f"virtual ids are reused or skipped: {m}")
    # both sides
    k_ = Book(ck, t, "decomposed_orders_with_update")
    ca = half("decomposed_orders_with_update", k_.asks, k_.arg(1), k_.counter)
    cb = half("decomposed_orders_with_update", k_.bids, k_.arg(2), out(2, ca))
    okk = is_v(ca, 0)
    k_.sides(out(0, ca), g_ite(okk, out(0, cb), k_.bids))
    ga, gb = V(ca, 0), V(cb, 0)

    def wrap(xs, ix):
        return struct_of(t, "data::order::DecomposedOrder", order=project(xs, ("at", ix)), timestamp=F(S, "timestamp"), id=F(S, "id"))
    g, v = ok_part(k_.r)
    w = mk("extend", tab(ga, wrap(ga, mk("ix", ga, 0))), mk("seqof", gb, wrap(gb, mk("ix", gb, 0))))
    m = differ(unchain(v), w, g) if v is not None else "nothing is returned"
    ck.ob("OrderBook::decomposed_orders_with_update:orders", m is None, f"the derived orders of the two sides are not all returned, with the book's id and time: {m}")
    bad = b_and(b_and(okk, is_v(cb, 0)), b_not(g))
    ck.ob("OrderBook::decomposed_orders_with_update:answers", b_empty(b_valid(bad)), "derived orders are withheld")
    ck.count("derived orders applied", n)
    ck.floor("derived orders applied", 2)


def same_list(src, v, g):
    return src is not None and differ(src, v, g) is None
