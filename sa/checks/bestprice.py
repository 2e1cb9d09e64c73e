"""Best price: always the extreme price of the levels that hold orders."""
from terms import *
from interp import *
from linear import infeasible
from checks import orderbook as ob
from checks.orderbook import slots, analyse, mutators, Ledger, snapshot_hyps, where, short, has
from checks.orderindex import ops_of, Lists, removals_by_list, flat_inflow, uncovered, equal, const_guard, top, quantify, consistent, id_facts

I64MAX, I64MIN = (1 << 63) - 1, -(1 << 63)


def at(mem, half, *path):
    root = mk("obj", mk("arg", "self"))
    p = ((("f", half),) if half else ()) + tuple(("f", x) for x in path)
    return project_path((mem or {}).get(root, default(root)), p)


def same_map(a, b, g):
    """do two map terms denote the same map under g (different only in level contents counts as same keys)"""
    for ga, x in cases(a):
        for gb, y in cases(b):
            if b_empty(b_and(g, b_and(ga, gb))):
                continue
            if keys_of(x) is not keys_of(y):
                return False
    return True


def keys_of(m):
    while m.op == "upd":
        m = m.a[0]
    return m


def refresh_guard(e, g, half, val, sides):
    """guard under which storing `val` makes best the extreme price of the levels now in the map"""
    cur = at(e.mem, half, "levels")
    side = at(e.mem, half, "order_side")
    ask = b_of(lift(lambda x: bool_t(variant_is(x, sides[0], 2)), side))
    n0 = b_of(compare("Eq", length(cur), ZERO))
    out = FALSE
    for gc, x in cases(val):
        gg = b_and(g, gc)
        if gg == FALSE:
            continue
        if x.op == "num" and x.a[0] == I64MAX:
            out = b_or(out, b_and(gg, b_and(ask, n0)))
        elif x.op == "num" and x.a[0] == I64MIN:
            out = b_or(out, b_and(gg, b_and(b_not(ask), n0)))
        elif x.op == "mapkey":
            m, i = x.a
            rev = False
            while m.op == "revsrc":
                m = m.a[0]
                rev = not rev
            if not same_map(m, cur, gg):
                continue
            first = i is ZERO
            last = i is not ZERO and all(p_sub(n, j) is ONE for gn, n in cases(length(m)) for gj, j in cases(i)
                                         if not b_empty(b_and(gg, b_and(gn, gj))))
            if not (first or last):
                continue
            low = first != rev
            out = b_or(out, b_and(gg, b_and(ask if low else b_not(ask), b_not(n0))))
    return out


def incremental(e, g, half, val, old, sides):
    """[(guard, key)]: best becomes min (ask) / max (bid) of itself and key"""
    side = at(e.mem, half, "order_side")
    ask = b_of(lift(lambda x: bool_t(variant_is(x, sides[0], 2)), side))
    out = []
    for gc, x in cases(val):
        for go, o in cases(old):
            gg = b_and(g, b_and(gc, go))
            if gg == FALSE:
                continue
            if x.op in ("min", "max"):
                ks = [a for a in x.a if a is not o]
                if len(ks) == 1 and len(x.a) == 2:
                    out.append((b_and(gg, ask if x.op == "min" else b_not(ask)), ks[0]))
            elif x is not o:
                # `if price < best { best = price }`
                better_lo, better_hi = order_bdd(x, o, 0), order_bdd(x, o, 2)
                out.append((b_and(gg, b_or(b_and(ask, better_lo), b_and(b_not(ask), better_hi))), x))
    return out


def changes(kind, r):
    """key-set changes and best-price stores: (event, ctx, guard, half, what, key)"""
    keys, best = [], []
    for e in r.events:
        if e.kind not in ("store", "map_insert", "map_remove", "clear", "swap", "havoc") or not e.args:
            continue
        ctx = e.loops[-1] if e.loops else None
        for g0, s in slots(kind, e.args[0]):
            g = b_and(e.guard, g0)
            if g == FALSE:
                continue
            if s.what == "levels":
                if e.kind == "map_insert":
                    new = b_and(g, b_not(has(e.args[3], e.args[1])))
                    keys.append((e, ctx, new, s.half, "ins", e.args[1]))
                elif e.kind == "map_remove":
                    keys.append((e, ctx, b_and(g, has(e.args[2], e.args[1])), s.half, "rem", e.args[1]))
                else:
                    keys.append((e, ctx, g, s.half, "all", None))
            elif s.what == "best" and e.kind in ("store", "havoc"):
                best.append((e, ctx, g, s.half))
    return keys, best


def T03(ck, q, t, meta):
    """For every function that can change a book: each change of the set of price
    levels is followed on every path by a store that makes the best price the
    lowest (ask) or highest (bid) key of the level map as it is then, or the
    sentinel when it is empty; or is an insertion merged into the best price with
    min/max; or removes a price other than the best.  No other value is stored as
    best price.  A level whose last order leaves is removed, at once or through
    the price list of the trading loops and an unconditional clean-up loop."""
    adt = next(a for a in t.adts.values() if a["path"].endswith("types::enums::OrderSide"))
    names = [v["name"] for v in adt["variants"]]
    sides = (names.index("Ask"), names.index("Bid"))
    nk = nb = nd = 0
    for kind, b in mutators(t):
        if kind == "level":
            continue
        r = analyse(t, b)
        ck.fn(b["path"])
        nm = short(b["path"])
        led = Ledger(ck, kind, t, b, r)
        led.hyps += snapshot_hyps(led)
        hyp = list(led.hyps) + [id_facts(r)]
        keys, best = changes(kind, r)
        nk += len(keys)
        nb += len(best)
        ref = [(e, ctx, refresh_guard(e, g, h, e.args[1], sides), h) for e, ctx, g, h in best]
        inc = [(e, ctx, gi, k, h) for e, ctx, g, h in best for gi, k in incremental(e, g, h, e.args[1], e.args[2], sides)]
        ops, _ = ops_of(kind, r)
        for e, ctx, g, h, what, k in keys:
            kept = not any(o.what == "DEL" and o.half == h for o in ops)
            cover = [rg for e2, c2, rg, h2 in ref if h2 == h and e2.seq > e.seq]
            if what == "ins":
                cover += [b_and(gi, equal(k2, k)) for e2, c2, gi, k2, h2 in inc if h2 == h and c2 is ctx]
                # not better than the best price already: nothing to do
                side = at(e.mem, h, "order_side")
                ask = b_of(lift(lambda x: bool_t(variant_is(x, sides[0], 2)), side))
                for gb, bp in cases(at(e.mem, h, "best_price")):
                    lo = b_of(lift(lambda z, b=bp: bool_t(order_bdd(z, b, 0)), k))
                    hi = b_of(lift(lambda z, b=bp: bool_t(order_bdd(z, b, 2)), k))
                    cover.append(b_and(gb, b_or(b_and(ask, b_not(lo)), b_and(b_not(ask), b_not(hi)))))
            if what == "rem":
                # a price other than the best one; the best one is in the book
                bp = at(e.mem, h, "best_price")
                cover.append(b_not(b_of(lift(lambda x, y: bool_t(eq_bdd(x, y)), bp, k))))
            u = uncovered(g, cover, hyp, kept=kept)
            ck.ob(f"{nm}:{what}:refreshed", u is None,
                  "the set of price levels changes and the best price is not refreshed: " + (" & ".join(cube_show(u))[:500] if u else ""), where(e))
        own = b["path"].endswith("HalfBook::update_best_price")
        for e, ctx, g, h in best:
            okg = [rg for e2, c2, rg, h2 in ref if e2 is e and h2 == h]
            for e2, c2, gi, k, h2 in inc:
                if e2 is e and h2 == h:
                    if own:
                        okg.append(gi)
                        continue
                    for e3, c3, g3, h3, what, k3 in keys:
                        if what == "ins" and h3 == h and c3 is c2:
                            m = e3.args[3]
                            okg.append(b_and(gi, b_and(equal(k, k3), b_or(g3, has(m, k3)))))
                    okg.append(b_and(gi, has(at(e.mem, h, "levels"), k)))
            u = uncovered(g, okg, hyp)
            if u is not None:
                # min/max with a price that is in the book or enters it in the same call
                ck.fail(f"{nm}:best-value", "the best price is set to something else than the extreme price of the levels: " + " & ".join(cube_show(u))[:500], where(e))
            else:
                ck.ob(f"{nm}:best-value", True)
        # levels that lose their last order
        lists = Lists(r)
        for o in ops:
            if o.what != "DEL":
                continue
            nd += 1
            u = emptied(o, ops, led, lists, hyp, r)
            ck.ob(f"{nm}:emptied-level", u is None, "a level that lost its last order stays in the book: " + (u or "")[:500], where(o.e))
    ck.count("level-set changes", nk)
    ck.count("best price stores", nb)
    ck.count("order removals", nd)
    ck.floor("level-set changes", 25)
    ck.floor("best price stores", 60)
    ck.floor("order removals", 20)


def emptied(o, ops, led, lists, hyp, r):
    """None if the level order `o` left is dropped whenever it is left empty"""
    el = None
    for g, s in slots(led.kind, o.e.args[0]):
        if s.what == "orders" and s.half == o.half:
            el = s.key
    if el is None:
        return "the level cannot be identified"
    why = "no removal of the level follows"
    for p in ops:
        if p.what != "DELLEVEL" or p.half != o.half or p.seq < o.seq:
            continue
        if el[0] == "key" and not b_empty(equal(p.key, el[1])):
            m = p.m
            og = o.g
            for c in o.e.loops:
                if c not in p.e.loops:
                    og = quantify(c, og)  # what a pass of the loop decided is no longer known after it
            for f in ("total", "len"):
                lv = lift(lambda x: project(x, ("key", p.key)), m)
                z = lift(lambda x: project(x, ("f", "total_quantity")), lv) if f == "total" else length(lift(lambda x: project(x, ("f", "orders")), lv))
                u = uncovered(b_and(b_and(og, has(m, p.key)), b_of(compare("Eq", z, ZERO))), [b_and(p.g, equal(p.key, el[1]))], hyp)
                if u is None:
                    return None
                why = " & ".join(cube_show(u))
        if el[0] == "at":
            w = via_list(o, p, el, led, lists, hyp, r)
            if w is None:
                return None
            why = w
    return why


def via_list(o, p, el, led, lists, hyp, r):
    """trading loop: emptied levels are put on a list whose every price is removed afterwards"""
    class K:
        pass
    k = K()
    k.ctx, k.g, k.oid = p.ctx, p.e.guard, p.key
    x = removals_by_list(r, k, lists)
    if x is None:
        return "the clean-up does not walk a list of prices"
    fl, miss = x
    if not b_empty(miss):
        return "the clean-up does not remove every listed price"
    outer = None
    for c in r.loops:
        if c in o.e.loops and el[1] is getattr(c, "ix", None):
            outer = c
    if outer is None:
        return "no loop over the levels"
    mine = [y for y in fl if y[0] is outer]
    if not mine:
        return "the loop over the levels lists no emptied level"
    entry = b_and(p.ctx.hguard, const_guard([y[4] for y in mine]))
    if not b_empty(b_and(top(r, outer).hguard, b_not(entry))):
        return "the clean-up is skipped on some way out of the trading loop"
    inner = o.ctx
    for pg, mem, tgt in outer.passes:
        tot = at(mem, o.half, "levels")
        lv = lift(lambda m: project(m, el), tot)
        z = lift(lambda v: project(v, ("f", "total_quantity")), lv)
        n = length(lift(lambda v: project(v, ("f", "orders")), lv))
        ent = inner.hguard if inner is not outer else o.g
        region = b_and(pg, ent)
        lists_ = [b_and(ga, equal(it, mk("mapkey", m_of(outer, it), outer.ix))) for cc, ga, chain, it, gc in mine]
        okk = False
        for zz in (z, n):
            u = uncovered(b_and(region, b_of(compare("Eq", zz, ZERO))), lists_, hyp)
            if u is None:
                okk = True
                break
        if not okk:
            return " & ".join(cube_show(u))
    return None


def m_of(outer, it):
    for _, x in cases(it):
        if x.op == "mapkey" and x.a[1] is outer.ix:
            return x.a[0]
    return outer.src

