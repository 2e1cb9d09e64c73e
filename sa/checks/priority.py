"""Matching: price-time priority, limits, completeness and the trade record."""
from terms import *
from interp import *
from linear import infeasible, nonzero, implied_sign
from checks import orderbook as ob
from checks.orderbook import slots, analyse, mutators, Ledger, fold, where, short, parent
from checks.orderindex import ops_of, Lists, uncovered, equal, const_guard, id_facts, more_of, flat_inflow
from checks.bestprice import at


def traders(t):
    out = []
    for kind, b in mutators(t):
        if kind == "half" and "TradeHistory" in t.types[b["locals"][0]]["s"]:
            out.append((kind, b))
    return out


def side_guards(t):
    adt = next(a for a in t.adts.values() if a["path"].endswith("types::enums::OrderSide"))
    names = [v["name"] for v in adt["variants"]]
    ia = names.index("Ask")

    def ask(side):
        return b_of(lift(lambda x: bool_t(variant_is(x, ia, 2)), side))
    return ask


def order_arg(t, b):
    for i in range(2, b["args"] + 1):
        ty = t.types[b["locals"][i]]
        by_ref = ty["k"] == "ref"
        s = t.types[ty["inner"]]["s"] if by_ref else ty["s"]
        if s.split("::")[-1] in ("LimitOrder", "MarketOrder"):
            return s.split("::")[-1], i, by_ref
    return None


def T04(ck, q, t, meta):
    """Over the value-flow summary of each function of a side that returns a trade
    record: (walk) every resting quantity it takes lies in a loop over the whole
    level map of the side on entry, ascending for asks and descending for bids;
    (fifo) it is taken from the front of that level's queue; (limit) with a limit
    order, under a guard that implies the level's price is not beyond the limit;
    (complete) every pass of that loop ends with nothing left to fill, with the
    level's queue empty, or beyond the limit; (amount) the quantity taken equals
    requested minus returned remainder; (record) each pass appends exactly the
    level's price with the quantity taken there, if any.  None is returned only
    when nothing can trade.  In every mutator, orders enter at the back of a queue
    and leave by id or from the back unless traded."""
    ask_of = side_guards(t)
    n = 0
    fs = traders(t)
    ck.count("matching functions", len(fs))
    ck.floor("matching functions", 2)
    for kind, b in fs:
        r = analyse(t, b)
        ck.fn(b["path"])
        nm = short(b["path"])
        led = Ledger(ck, kind, t, b, r)
        lists = Lists(r)
        hyp = list(led.hyps) + [id_facts(r)]
        root = mk("obj", mk("arg", "self"))
        side0 = project(default(root), ("f", "order_side"))
        levels0 = project(default(root), ("f", "levels"))
        best0 = project(default(root), ("f", "best_price"))
        ask = ask_of(side0)
        oa = order_arg(t, b)
        if oa is None:
            ck.fail(f"{nm}:order", "no order argument")
            continue
        okind, ai, by_ref = oa
        o0 = r.ip.args[ai - 1]
        order = mk("deref", o0) if by_ref else o0
        want = project(order, ("f", "quantity"))
        lim = project(order, ("f", "price")) if okind == "LimitOrder" else None
        oside = project(order, ("f", "order_side"))

        def beyond(price):
            """price is worse than the limit for the incoming order"""
            hi = b_of(compare("Gt", price, lim))
            lo = b_of(compare("Lt", price, lim))
            return b_or(b_and(ask, hi), b_and(b_not(ask), lo))
        taken = []
        for e in r.events:
            if not e.args or e.kind in ("enter", "leave", "call", "unwrap", "bounds", "map_get", "drop", "index", "clone", "divzero", "overflow", "borrow", "borrow_mut", "lock"):
                continue
            for g0, s in slots(kind, e.args[0]):
                g = b_and(e.guard, g0)
                if g == FALSE or s.what not in ("Q", "orders", "order"):
                    continue
                taken.append((e, g, s))
        outers = {}
        for e, g, s in taken:
            n += 1
            el = s.key
            c = next((c for c in e.loops if el is not None and el[0] == "at" and el[1] is getattr(c, "ix", None)), None)
            if c is None:
                ck.fail(f"{nm}:walk", "resting quantity is taken outside a walk over the price levels", where(e))
                continue
            outers.setdefault(c, []).append((e, g, s))
            ok = True
            for gs, src in cases(c.src):
                gg = b_and(g, gs)
                m, rev = src, False
                while m.op == "revsrc":
                    m, rev = m.a[0], not rev
                if m is not levels0:
                    ok = ok and b_empty(gg)
                ok = ok and b_empty(b_and(gg, ask if rev else b_not(ask)))
            ck.ob(f"{nm}:walk", ok, "the levels are not walked from the best price over the whole side", where(e))
            front = e.kind == "pop_front" or (e.kind == "remove_at" and e.args[1] is ZERO) or \
                (e.kind == "store" and s.idx is not None and s.idx[0] == "idx" and s.idx[1] is ZERO)
            if not front and e.kind == "store" and s.idx is not None and s.idx[0] == "at":
                # walking the queue from its front
                lc = next((x for x in e.loops if getattr(x, "ix", None) is s.idx[1]), None)
                front = lc is not None and all(x.op != "revsrc" for _, x in cases(lc.src))
            ck.ob(f"{nm}:fifo", front, "a resting order other than the oldest of its level is traded", where(e))
            if lim is not None:
                price = price_at(c)
                bad = b_and(g, b_of(lift(lambda p: bool_t(beyond(p)), price)))
                ck.ob(f"{nm}:limit", b_empty(b_valid(bad)), "an order trades at a price beyond its limit", where(e))
        # amount: what leaves the queues is requested minus returned
        imb = {}
        for (c, h, key), xs in led.Q.items():
            for g, x in xs:
                imb.setdefault(c, {}).setdefault(("fill",), []).append((g, x))
        some = FALSE
        recs = []
        for g, x in cases(r.ret):
            if x.op == "agg" and x.a[2]:
                v = project(project(x, ("f", "0")), ("f", "1"))
                some = b_or(some, g)
                recs.append((g, lift(lambda z: project(z, ("f", "history")), project(project(x, ("f", "0")), ("f", "0")))))
                imb.setdefault(None, {}).setdefault(("fill",), []).append((g, lift(p_sub, want, v)))
        bad, choice, hyp2 = fold(led, imb)
        ck.ob(f"{nm}:amount", not bad, "the quantity taken from the book is not the quantity requested minus the remainder: " + "; ".join(m for _, _, m in bad)[:400])
        none = b_and(r.g, b_not(some))
        dead = [b_of(lift(lambda x, y: bool_t(eq_bdd(x, y)), oside, side0)), b_of(compare("Eq", length(levels0), ZERO))]
        if lim is not None:
            dead.append(beyond(best0))
        u = uncovered(none, dead, hyp)
        ck.ob(f"{nm}:refused", u is None, "an order that could trade is turned away: " + (" & ".join(cube_show(u))[:300] if u else ""))
        for d in dead[:1]:
            ck.ob(f"{nm}:own-side", b_empty(b_and(some, d)), "an order trades against its own side")
        for c in outers:
            m = choice.get((c, ("fill",)))
            if m is None:
                ck.fail(f"{nm}:complete", "no remaining quantity is carried through the walk over the levels")
                continue
            kk = next(k for k, mm in c.mus.items() if mm is m)
            price = price_at(c)
            allp = const_guard([pg for pg, _, _ in c.passes])
            skipped = b_and(b_and(c.hguard, more_of(c)), b_not(allp))
            for pg, mem, tgt in c.passes + [(skipped, None, None)]:
                g = b_and(pg, more_of(c))
                if lim is not None:
                    g = b_and(g, b_not(b_of(lift(lambda p: bool_t(beyond(p)), price))))
                for lc in r.loops:
                    if lc is not c and inside(r, lc, c):
                        g = b_and(g, b_or(b_not(lc.hguard), const_guard([x for _, x in lc.exits])))
                if b_empty(g):
                    continue
                if mem is None:
                    left, lvs = m, mk_mu_levels(c)
                else:
                    left, lvs = project_path(mem.get(kk[0], default(kk[0])), kk[1]), at(mem, "", "levels")
                cov = [b_of(compare("Eq", left, ZERO))]
                if tgt is None:
                    # the walk goes on: this level is used up
                    lv = lift(lambda x: project(x, ("at", c.ix)), lvs)
                    cov.append(b_of(compare("Eq", length(lift(lambda x: project(x, ("f", "orders")), lv)), ZERO)))
                u = uncovered(g, cov, hyp2)
                ck.ob(f"{nm}:complete", u is None, "the walk leaves a level that still has orders while quantity is left to fill: " + (" & ".join(cube_show(u))[:300] if u else ""))
            # record
            pushes = []
            for g, h in recs:
                for gh, hh in cases(h):
                    if b_empty(b_and(g, gh)):
                        continue
                    fl = lists.inflow(hh)
                    if fl is None:
                        if lists.mu(hh) is None and not (hh is EMPTY):
                            ck.fail(f"{nm}:record", "the trade record cannot be followed")
                        continue
                    pushes += [x for x in flat_inflow(fl) if x[0] is c]
            if not pushes:
                ck.fail(f"{nm}:record", "trades are not recorded")
                continue
            for cc, ga, chain, it, *_ in pushes:
                p, qy = project(it, ("f", "0")), project(it, ("f", "1"))
                same = b_of(lift(lambda a, b_: bool_t(eq_bdd(a, b_)), p, price))
                same = b_or(same, own_price(p, c))
                ck.ob(f"{nm}:record-price", b_empty(b_and(ga, b_not(same))), "a trade is recorded at a price other than the level's")
                terms_ = []
                for gm, v in c.end[m]:
                    gg = b_and(ga, gm)
                    if gg != FALSE:
                        terms_.append((gg, lift(lambda a, b_: p_sub(a, p_sub(m, b_)), qy, v)))
                z = nonzero(terms_, hyp=hyp2)
                ck.ob(f"{nm}:record-quantity", z is None, "the recorded quantity is not the quantity traded at that level")
            cov = const_guard([x[1] for x in pushes])
            for gm, v in c.end[m]:
                g = b_and(gm, more_of(c))
                moved = b_of(lift(lambda x: bool_t(b_not(eq_bdd(x, m))), v))
                u = uncovered(b_and(g, moved), [cov], hyp2)
                ck.ob(f"{nm}:record-all", u is None, "a trade is left out of the record: " + (" & ".join(cube_show(u))[:300] if u else ""))
    ck.count("takings of resting quantity", n)
    ck.floor("takings of resting quantity", 6)
    # queue discipline everywhere
    m = 0
    for kind, b in mutators(t):
        r = analyse(t, b)
        ck.fn(b["path"])
        nm = short(b["path"])
        for e in r.events:
            if not e.args or e.kind not in ("push", "push_front", "insert_at", "swap", "sort", "reverse", "rotate", "pop_front", "extend", "havoc"):
                continue
            for g, s in slots(kind, e.args[0]):
                if s.what != "orders" or b_and(e.guard, g) == FALSE:
                    continue
                m += 1
                if e.kind == "pop_front":
                    trade = any(k.endswith("Level::trade") or "trade" in k.split("::")[-1] for k in list(e.stack) + [b["path"]])
                    ck.ob(f"{nm}:front", trade or kind == "level", "the oldest order of a level leaves without a trade", where(e))
                else:
                    ck.ob(f"{nm}:back", e.kind == "push", "an order enters a queue other than at its back", where(e))
    ck.count("queue entries and front removals", m)
    ck.floor("queue entries and front removals", 15)


def inside(r, lc, c):
    return any(lc in e.loops and c in e.loops and e.loops.index(c) < e.loops.index(lc) for e in r.events)


def own_price(p, c):
    """p is the price field of the level the walk is at, which is filed under its own price (T01)"""
    out = FALSE
    for g, x in cases(p):
        if x.op == "prj" and x.a[1] == ("f", "book_price") and x.a[0].op == "prj" and x.a[0].a[1] == ("at", c.ix):
            m = x.a[0].a[0]
            while m.op == "upd":
                m = m.a[0]
            if m.op == "mu" or m is project(default(mk("obj", mk("arg", "self"))), ("f", "levels")):
                out = b_or(out, g)
    return out


def price_at(c):
    def f(s):
        m = s
        while m.op == "revsrc":
            m = m.a[0]
        return mk("mapkey", m, c.ix)
    return lift(f, c.src)


def mk_mu_levels(c):
    for k, m in c.mus.items():
        if k[1] and k[1][-1] == ("f", "levels"):
            return m
    return project(default(mk("obj", mk("arg", "self"))), ("f", "levels"))
