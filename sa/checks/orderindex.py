"""Order index: the ids in the index are exactly the ids resting in the queues,
each filed under the price of its level."""
from terms import *
from interp import *
import terms
from linear import infeasible
from checks import orderbook as ob
from checks.orderbook import slots, analyse, mutators, Ledger, snapshot_hyps, where, short, has, elem, invariants


class Op:
    def __init__(self, what, e, ctx, g, half, oid=None, key=None, m=None):
        self.what, self.e, self.ctx, self.g, self.half, self.oid, self.key, self.m = what, e, ctx, g, half, oid, key, m
        self.seq = e.seq

    def __repr__(self):
        return f"{self.what}@{self.seq}"


def keyterm(el):
    """price term of a path element of the level map"""
    if el[0] == "key":
        return el[1]
    return mk("keyat", el)


def id_of(o):
    return lift(lambda x: project(x, ("f", "0")), o)


def ops_of(kind, r):
    out = []
    bad = []
    for e in r.events:
        if e.kind in ("enter", "leave", "call", "unwrap", "bounds", "map_get", "drop", "index", "clone", "divzero",
                      "overflow", "borrow", "borrow_mut", "lock") or not e.args:
            continue
        ctx = e.loops[-1] if e.loops else None
        for g0, s in slots(kind, e.args[0]):
            g = b_and(e.guard, g0)
            if g == FALSE:
                continue
            h = s.half
            kd = e.kind

            def put(what, g=g, **kw):
                if g != FALSE:
                    out.append(Op(what, e, ctx, g, h, **kw))
            if s.what == "orders":
                old = e.args[-1]
                n = length(old)
                if kd in ("push", "push_front"):
                    put("ADD", oid=id_of(e.args[1]), key=keyterm(s.key))
                elif kd in ("pop_front", "pop_back"):
                    ne = b_and(g, b_not(b_of(compare("Eq", n, ZERO))))
                    ix = ZERO if kd == "pop_front" else lift(lambda z: p_sub(z, ONE), n)
                    put("DEL", g=ne, oid=lift(lambda o, i: project(project(o, ("idx", i)), ("f", "0")), old, ix))
                elif kd == "remove_at":
                    ins = b_and(g, b_of(compare("Lt", e.args[1], n)))
                    put("DEL", g=ins, oid=lift(lambda o, i: project(elem(o, i), ("f", "0")), old, e.args[1]))
                else:
                    bad.append((f"{kd} on an order queue", e))
            elif s.what == "oid" and kd == "store":
                bad.append(("a resting order's id is overwritten", e))
            elif s.what == "order" and kd == "store":
                if b_and(g, b_not(b_of(lift(lambda a, b: bool_t(eq_bdd(project(a, ("f", "0")), project(b, ("f", "0")))), e.args[1], e.args[2])))) != FALSE:
                    bad.append(("a resting order is overwritten by another", e))
            elif s.what == "levels":
                if kd == "map_insert":
                    q = lift(lambda v: project(v, ("f", "orders")), e.args[2])
                    for g2, x in cases(q):
                        items = seq_items(x)
                        if items is None:
                            bad.append(("a level of unknown content is inserted", e))
                        else:
                            for it in items:
                                put("ADD", g=b_and(g, g2), oid=id_of(it), key=e.args[1])
                    hs = b_and(g, has(e.args[3], e.args[1]))
                    if hs != FALSE:
                        put("DELLEVEL", g=hs, key=e.args[1], m=e.args[3])
                elif kd == "map_remove":
                    put("DELLEVEL", g=b_and(g, has(e.args[2], e.args[1])), key=e.args[1], m=e.args[2])
                elif kd == "clear":
                    put("CLRL")
                else:
                    bad.append((f"{kd} on the level map", e))
            elif s.what == "cache":
                if kd == "map_insert":
                    put("IDX+", oid=e.args[1], key=e.args[2])
                elif kd == "map_remove":
                    put("IDX-", oid=e.args[1])
                elif kd == "store" and len(s.rest) == 1 and s.rest[0][0] == "key":
                    put("IDX+", oid=s.rest[0][1], key=e.args[1])
                elif kd == "clear":
                    put("CLRC")
                else:
                    bad.append((f"{kd} on the index", e))
            elif s.what in ("half", "book", "level") and kd == "store":
                bad.append((f"a {s.what} is overwritten", e))
    return out, bad


def seq_items(x):
    if x.op == "agg" and x.a[0] == "array":
        return [v for _, v in x.a[2]]
    if x.op == "push":
        b = seq_items(x.a[0])
        return None if b is None else b + [x.a[1]]
    if x is EMPTY:
        return []
    return None


def equal(x, y):
    return b_of(lift(lambda p, q: bool_t(eq_bdd(p, q)), x, y))


def const_guard(fs):
    r = FALSE
    for f in fs:
        r = b_or(r, f)
    return r


def consistent(r, g):
    """conjoin what a consistent book implies: an indexed id rests in the level it is filed under"""
    out = g
    vs = list(b_lits(g))
    ex = [v for v in vs if v.op == "isv" and v.a[0].op == "exists" or v.op == "exists"]
    atoms = {}
    for v in vs:
        for s in v.a:
            if isinstance(s, T):
                for w in walk(s):
                    if w.op == "has":
                        atoms[w] = 1
        if v.op == "has":
            atoms[v] = 1
    for w in atoms:
        m, k = w.a[0], w.a[1]
        if m.op == "prj" and m.a[1] == ("f", "cache"):
            book = m.a[0]
            price = project(m, ("key", k))
            lv = project(book, ("f", "levels"))
            imp = has(lv, price)
            q = project(project(lv, ("key", price)), ("f", "orders"))
            e = exists_id(vs, q, k)
            if e is not None:
                imp = b_and(imp, e)
            out = b_and(out, b_or(b_not(b_of(w)), imp))
    return out


def nonempty(g, levels_kept=False):
    """a map that has a key is not empty; with `levels_kept`, every level in the book holds an order"""
    lits_ = list(b_lits(g))
    out = g
    hasm = {}
    for l in lits_:
        if l.op == "has":
            hasm.setdefault(l.a[0], []).append(l)
    for l in lits_:
        if l.op == "isz" and l.a[0].op == "len":
            m = l.a[0].a[0]
            for h in hasm.get(m, ()):
                out = b_and(out, b_not(b_and(lit(h), lit(l))))
            if m.op == "rem":
                # removing one key of a map that has another leaves it non-empty: nothing to add here
                pass
            if levels_kept and m.op == "prj" and m.a[1] == ("f", "orders"):
                out = b_and(out, b_not(lit(l)))
        if levels_kept and l.op == "exists" and l.a[1].op == "b":
            p = l.a[1].a[0]
            if b_empty(nonempty(p, True)):
                out = b_and(out, b_not(lit(l)))
    return out


def exists_id(vs, q, k):
    """the guard 'some order of queue q has id k' if the code asks it"""
    r = TRUE
    hit = False
    for v in vs:
        for s in ([v] + [z for z in v.a if isinstance(z, T)]):
            for w in walk(s):
                if w.op == "exists" and w.a[0] is q:
                    el = project(project(q, ("at", mk("ix", q, 0))), ("f", "0")) if False else None
                    if pred_is_id(w, k):
                        r = b_and(r, b_of(w))
                        hit = True
    return r if hit else None


def pred_is_id(w, k):
    """does the search predicate of `exists` say exactly: the order's id equals k"""
    p = w.a[1]
    g = p.a[0] if p.op in ("b", "B") else None
    if g is None:
        return False
    for ix in {x for x in walk(p) if x.op == "ix" and x.a and x.a[0] is w.a[0]}:
        idt = project(project(w.a[0], ("at", ix)), ("f", "0"))
        if b_not(b_ite(g, b_not(eq_bdd(idt, k)), eq_bdd(idt, k))) == TRUE:
            return True
    for m in {x for x in walk(p) if x.op == "prj" and x.a[1] == ("f", "0")}:
        e = eq_bdd(m, k)
        if g == e:
            return True
    return False


def id_facts(r):
    """linear facts from a successful search by id: the order found has that id"""
    def f(vs, cube):
        out = []
        for l, b in cube.items():
            if not b:
                continue
            for w in ([l] + [z for z in l.a if isinstance(z, T)]):
                if w.op == "exists" and w.a[1].op in ("b", "B"):
                    g = w.a[1].a[0]
                    for c2 in list(b_cubes(g, 4)):
                        from linear import facts_of
                        out += facts_of(c2)
        return out
    return f


def uncovered(g, covers, hyp, limit=3000, kept=False):
    """a cube of g outside every cover, or None"""
    left = b_and(g, b_not(const_guard(covers)))
    if b_empty(left):
        return None
    left = b_valid(nonempty(consistent(None, left), kept))
    if left == FALSE:
        return None
    for cube in b_cubes(left, limit):
        if not infeasible(cube, hyp):
            return cube
    return None


class Lists:
    """lists built by the loops of one function and what flows into them"""

    def __init__(self, r):
        self.r = r
        self.owner = {}
        for c in r.loops:
            for k, m in c.mus.items():
                self.owner[m] = (c, k)
            for m, cf in c.closedform.items():
                self.owner.setdefault(cf, (c, next(k for k, mm in c.mus.items() if mm is m)))

    def mu(self, v):
        while v.op in ("push", "extend") and v not in self.owner:
            v = v.a[0]  # appended on the pass that leaves the loop
        if v in self.owner:
            c, k = self.owner[v]
            return c, c.mus[k]
        return None

    def inflow(self, v, depth=0):
        """[(loop, guard, item)] of everything appended to list v, or None"""
        m = self.mu(v)
        if m is None:
            return None
        c, m = m
        if any(x is not EMPTY and not (x.op == "agg" and not x.a[2]) for _, x in cases(c.init[m])):
            return None
        out = []
        for g, val in c.end[m]:
            for g2, x in cases(val):
                gg = b_and(g, g2)
                if gg == FALSE:
                    continue
                while x is not m:
                    if x.op == "push":
                        out.append((c, gg, x.a[1]))
                        x = x.a[0]
                    elif x.op == "extend" and depth < 4:
                        for g3, sq in cases(x.a[1]):
                            if b_and(gg, g3) == FALSE or sq is EMPTY or (sq.op == "agg" and not sq.a[2]):
                                continue
                            sub = self.inflow(sq, depth + 1)
                            if sub is None:
                                return None
                            c2 = self.mu(sq)[0]
                            out += [(cc, ("via", gg, g3, c2, g1, sq), it) for cc, g1, it in sub]
                        x = x.a[0]
                    else:
                        return None
        return out


def flat_inflow(fl):
    """resolve the guards of nested appends: [(loop, guard of the append, [(loop entered, guard it is handed on under)], item)]"""
    out = []
    for c, g, it in fl:
        chain = []
        while isinstance(g, tuple) and g and g[0] == "via":
            hg = b_and(g[1], g[2])
            # an empty list need not be handed on
            chain.append((g[3], b_or(hg, b_of(compare("Eq", length(g[5]), ZERO)))))
            g = g[4]
        out.append((c, g, chain, it))
    return out


def removals_by_list(r, op, lists):
    """what an index removal inside `for id in list` removes, or None"""
    c = op.ctx
    if c is None or c.src is None:
        return None
    full = b_and(c.hguard, more_of(c))
    part = FALSE
    out = []
    for g, x in cases(op.oid):
        if b_and(op.g, g) == FALSE:
            continue
        if x.op != "prj" or x.a[1] != ("at", c.ix):
            return None
        for gs, sl in cases(c.src):
            if b_empty(b_and(b_and(g, gs), full)):
                continue
            while sl.op == "revsrc":
                sl = sl.a[0]
            if sl is not x.a[0]:
                part = b_or(part, b_and(g, gs))  # only some of the list is walked
        fl = lists.inflow(x.a[0])
        if fl is None:
            return None
        for cc, ga, chain, it in flat_inflow(fl):
            out.append((cc, ga, chain, it, g))
    miss = b_or(b_and(full, b_not(op.g)), part)
    return out, miss


def more_of(c):
    m = c.more
    return m if not isinstance(m, T) else b_of(m)


def entry_guard(c):
    return c.hguard


def quantify(c, g):
    """g with everything decided inside loop c (its loop variables, its element) projected away"""
    mus = set(c.mus.values())
    return b_exists(g, lambda l: any(w in mus for a in ([l] + [z for z in l.a if isinstance(z, T)]) for w in walk(a)))


def top(r, c):
    """the outermost loop around c"""
    for e in r.events:
        if c in e.loops:
            return e.loops[0]
    return c


def T02(ck, q, t, meta):
    """Typestate pairing over the value-flow summary of every function that can
    change a book: each order put into a queue is put into the index under the
    same guard with the same id and the price of that level; each order leaving a
    queue leaves the index (directly, by a later re-insertion of the same id, or
    through the id list of the trading loops and an unconditional clean-up loop);
    each index change has its queue change; a level is dropped only when empty or
    after all its ids were removed."""
    n = 0
    fns = 0
    for kind, b in mutators(t):
        if kind == "level":
            continue
        fns += 1
        r = analyse(t, b)
        ck.fn(b["path"])
        nm = short(b["path"])
        ops, bad = ops_of(kind, r)
        n += len(ops)
        for msg, e in bad:
            ck.fail(f"{nm}:index:{msg}", msg, where(e))
        led = Ledger(ck, kind, t, b, r)
        led.hyps += snapshot_hyps(led)
        hyp = list(led.hyps) + [id_facts(r)]
        lists = Lists(r)
        dl = {}
        for o in ops:
            if o.what == "IDX-":
                x = removals_by_list(r, o, lists)
                if x is not None:
                    dl[o] = x
        probs = []

        def same(o, what, need_key=False, after=False):
            cs = []
            for p in ops:
                if p.what == what and p.ctx is o.ctx and p.half == o.half and (not after or p.seq > o.seq):
                    c = b_and(p.g, equal(p.oid, o.oid))
                    if need_key:
                        c = b_and(c, equal(p.key, o.key))
                    if c != FALSE:
                        cs.append(c)
                    elif p.g != FALSE:
                        # equality may only follow from the search predicate
                        if weak_equal(p.oid, o.oid, o.g, hyp) and (not need_key or equal(p.key, o.key) == TRUE):
                            cs.append(p.g)
            return cs
        for o in ops:
            if o.what == "ADD":
                cv = same(o, "IDX+", True)
                u = uncovered(o.g, cv, hyp)
                if u is not None:
                    probs.append(("added-unindexed", "an order enters a queue without its id and level price entering the index", o, u))
                for p in ops:
                    if p.what == "IDX-" and p.ctx is o.ctx and p.half == o.half:
                        ixs = [x.seq for x in ops if x.what == "IDX+" and x.ctx is o.ctx and equal(x.oid, o.oid) != FALSE and x.half == o.half]
                        if ixs and p.seq > max(ixs) and b_and(b_and(p.g, o.g), equal(p.oid, o.oid)) != FALSE:
                            probs.append(("index-lost", "the index entry of an order that rests is removed again", o, None))
            elif o.what == "IDX+":
                cv = same(o, "ADD", True)
                # a later entry for the same id overrides this one
                cv += [c for c in same(o, "IDX+", False, True)]
                u = uncovered(o.g, cv, hyp)
                if u is not None:
                    probs.append(("indexed-unadded", "an id enters the index without an order entering that level", o, u))
            elif o.what == "DEL":
                cv = same(o, "IDX-") + same(o, "ADD", False, True)
                for d, (fl, miss) in dl.items():
                    if d.half != o.half:
                        continue
                    mine = [x for x in fl if x[0] is o.ctx]
                    if not mine or not b_empty(miss):
                        continue
                    # the list reaches the clean-up loop on every way out of the trading loop
                    tc = top(r, o.ctx)
                    entry = b_and(d.ctx.hguard, const_guard([x[4] for x in mine]))
                    okc = b_empty(b_and(tc.hguard, b_not(entry)))
                    # and every inner list is handed on by the loop around it
                    hand = {}
                    for cc, ga, chain, it, gcase in mine:
                        for lc, hg in chain:
                            hand.setdefault(lc, []).append(hg)
                    for lc, hgs in hand.items():
                        okc = okc and uncovered(entry_guard(lc), hgs, hyp) is None
                    if okc:
                        cv += [b_and(ga, equal(it, o.oid)) for cc, ga, chain, it, gcase in mine]
                u = uncovered(o.g, cv, hyp)
                if u is not None:
                    probs.append(("removed-indexed", "an order leaves a queue and its id stays in the index", o, u))
            elif o.what == "IDX-":
                if o in dl:
                    fl, miss = dl[o]
                    for cc, ga, chain, it, gcase in fl:
                        ds = [p for p in ops if p.what == "DEL" and p.ctx is cc and p.half == o.half]
                        cs = [b_and(p.g, equal(p.oid, it)) for p in ds]
                        u = uncovered(ga, cs, hyp)
                        if u is not None:
                            probs.append(("unindexed-resting", "an id is listed for removal from the index while its order rests", o, u))
                    continue
                if by_level(o, ops, r):
                    continue
                cv = same(o, "DEL") + same(o, "IDX+", False, True)
                u = uncovered(o.g, cv, hyp)
                if u is not None:
                    probs.append(("unindexed-resting", "an id leaves the index while its order rests", o, u))
            elif o.what == "DELLEVEL":
                u = level_drop(o, ops, led, hyp, r)
                if u is not None:
                    probs.append(("level-dropped", "a level that may hold orders is dropped while their ids stay in the index", o, u))
            elif o.what in ("CLRL", "CLRC"):
                other = "CLRC" if o.what == "CLRL" else "CLRL"
                u = uncovered(o.g, [p.g for p in ops if p.what == other and p.half == o.half and p.ctx is o.ctx], hyp)
                if u is not None:
                    probs.append(("half-cleared", "levels and index are not cleared together", o, u))
        seen = set()
        for key, msg, o, u in probs:
            if key not in seen:
                seen.add(key)
                ck.fail(f"{nm}:{key}", msg + (": " + " & ".join(cube_show(u))[:400] if u else ""), where(o.e))
        ck.ob(f"{nm}:index", not probs, "index and queues change differently")
    ck.count("functions", fns)
    ck.count("index and queue changes", n)
    ck.floor("functions", 15)
    ck.floor("index and queue changes", 60)


def weak_equal(a, b, g, hyp):
    from linear import nonzero
    try:
        return nonzero([(g, lift(p_sub, a, b))], hyp=hyp) is None
    except OverflowError:
        return False


def by_level(o, ops, r):
    """index removal in a loop over the whole queue of a level that is dropped"""
    c = o.ctx
    if c is None or c.src is None:
        return False
    lv = queue_of(c.src)
    if lv is None:
        return False
    return any(p.what == "DELLEVEL" and p.half == o.half and drains(o, p) for p in ops)


def queue_of(src):
    """(map, key element) if src is the whole queue of one level"""
    s = src
    while s.op in ("revsrc",):
        s = s.a[0]
    if s.op == "prj" and s.a[1] == ("f", "orders") and s.a[0].op == "prj":
        return s.a[0].a[0], s.a[0].a[1]
    return None


def drains(o, p):
    """does index removal `o` cover every order of the level dropped by `p`"""
    c = o.ctx
    lv = queue_of(c.src)
    if lv is None:
        return False
    m, el = lv
    if el[0] != "key" or equal(el[1], p.key) != TRUE:
        return False
    if any(x is not m for _, x in cases(p.m)) and not all(x.op in ("upd",) and x.a[0] is m for _, x in cases(p.m)):
        return False
    idt = project(project(c.src, ("at", c.ix)), ("f", "0"))
    if equal(idt, o.oid) != TRUE:
        return False
    if not b_empty(b_and(b_and(c.hguard, more_of(c)), b_not(o.g))):
        return False
    return b_empty(b_and(p.g, b_not(c.hguard)))


def level_drop(p, ops, led, hyp, r):
    for e, ctx, hs, h, k, m, why in led.keys.get("removed", []):
        if e is p.e and h == p.half and why is True:
            return None
    for o in ops:
        if o.what == "IDX-" and o.half == p.half and o.ctx is not None and o.ctx.src is not None and drains(o, p):
            return None
    lv = lift(lambda x: project(x, ("key", p.key)), p.m)
    tot = lift(lambda x: project(x, ("f", "total_quantity")), lv)
    n = length(lift(lambda x: project(x, ("f", "orders")), lv))
    z = b_of(compare("Eq", n, ZERO))
    if not zero_orders(led, p):
        # every resting order has a quantity, so a level total of zero means an empty queue
        z = b_or(z, b_of(compare("Eq", tot, ZERO)))
    return uncovered(p.g, [z], hyp)


def zero_orders(led, p):
    """may this function leave an order of quantity zero resting in the half before `p`"""
    from linear import implied_sign
    for e in led.r.events:
        if e.kind != "store" or e.seq > p.seq:
            continue
        for g, s in slots(led.kind, e.args[0]):
            if s.half == p.half and s.what in ("Q", "order"):
                q = e.args[1] if s.what == "Q" else lift(ob.qty_of, e.args[1])
                if not implied_sign(q, ">", b_and(e.guard, g), led.hyps):
                    return True
    return False
