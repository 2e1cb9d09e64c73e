"""Limit order book (trading-engine/src/orderbook): conservation, index
integrity, best price, priority and routing."""
from terms import *
from interp import *
import linear
from linear import nonzero, implied_sign, infeasible

HB = "orderbook::half_book::HalfBook"
OB = "orderbook::OrderBook"
LV = "orderbook::level::Level"


def opaque(body):
    p = body["path"]
    return p.startswith("logger::") or p.startswith("<logger::") or p.startswith("utils::timer") or "fmt" in p.split("::")[-1:]


def short(p):
    return p.split("::")[-2] + "::" + p.split("::")[-1] if "::" in p else p


def mutators(t):
    """every public function that can reach the book mutably: (kind, body)"""
    out = []
    for kind, ty in (("half", HB), ("book", OB), ("level", LV)):
        n = 0
        for b in t.bodies.values():
            if b["path"].startswith(ty + "::") and b["args"] >= 1 and "self_ty" in b and b["pub"]:
                ty1 = t.types[b["locals"][1]]
                if ty1["k"] == "ref" and ty1.get("mut") and t.tystr(b["self_ty"]).endswith(ty.split("::")[-1]):
                    if t.types[ty1["inner"]]["s"].endswith(ty.split("::")[-1]):
                        out.append((kind, b))
                        n += 1
    return out


def constructors(t):
    out = []
    for b in t.bodies.values():
        for ty in (HB, OB, LV):
            if b["path"].startswith(ty + "::") and "self_ty" in b:
                rt = t.tystr(b["locals"][0])
                if rt.split("<")[0] == t.tystr(b["self_ty"]):
                    out.append(b)
    return out


CAP = 300
_memo = {}


def analyse(t, body):
    r = _memo.get(body["key"])
    if r is None:
        ip = Interp(t, opaque=opaque)
        ip.snap = ("push", "map_insert", "map_remove", "store", "clear")
        r = ip.analyze(body)
        r.ip = ip
        _memo[body["key"]] = r
    return r


# -------------------------------------------------------------- classification
class Slot:
    """what a reference inside the book denotes"""
    def __init__(self, half, what, key=None, idx=None, rest=(), lroot=None, lpath=()):
        self.half, self.what, self.key, self.idx, self.rest = half, what, key, idx, rest
        self.lroot, self.lpath = lroot, lpath  # where the level lives

    def __repr__(self):
        return f"Slot({self.half},{self.what},{self.key})"


def keyterm(el, levels=None):
    """price key denoted by a path element into `levels`"""
    return el[1]


def classify(kind, root, path):
    if root.op != "obj" or root.a[0].op != "arg" or root.a[0].a[0] != "self":
        return None
    base = ()
    p = list(path)
    half = ""
    if kind == "book":
        if not p:
            return Slot(None, "book")
        if p[0] not in (("f", "asks"), ("f", "bids")):
            return None
        half = p[0][1]
        base = (p[0],)
        p = p[1:]
    if kind == "level":
        return level_slot("", None, p, root, ())
    if not p:
        return Slot(half, "half")
    if p[0] == ("f", "total_quantity"):
        return Slot(half, "H")
    if p[0] == ("f", "best_price"):
        return Slot(half, "best")
    if p[0] == ("f", "order_side"):
        return Slot(half, "side")
    if p[0] == ("f", "cache"):
        return Slot(half, "cache", rest=tuple(p[1:]))
    if p[0] == ("f", "levels"):
        if len(p) == 1:
            return Slot(half, "levels")
        lp = base + tuple(p[:2])
        return level_slot(half, p[1], p[2:], root, lp)
    return Slot(half, "other", rest=tuple(p))


def level_slot(half, key, p, root, lp):
    if not p:
        return Slot(half, "level", key, lroot=root, lpath=lp)
    if p[0] == ("f", "total_quantity"):
        return Slot(half, "L", key, lroot=root, lpath=lp)
    if p[0] == ("f", "book_price"):
        return Slot(half, "price", key, lroot=root, lpath=lp)
    if p[0] == ("f", "orders"):
        if len(p) == 1:
            return Slot(half, "orders", key, lroot=root, lpath=lp)
        if len(p) == 3 and p[2] == ("f", "1"):
            return Slot(half, "Q", key, idx=p[1], lroot=root, lpath=lp)
        if len(p) == 3 and p[2] == ("f", "0"):
            return Slot(half, "oid", key, idx=p[1], lroot=root, lpath=lp)
        return Slot(half, "order", key, idx=p[1], rest=tuple(p[2:]), lroot=root, lpath=lp)
    return Slot(half, "lother", key, rest=tuple(p))


def slots(kind, ptr):
    """[(guard, Slot)] a pointer argument may denote (non-book targets dropped)"""
    out = []
    for g, x in cases(ptr):
        if x.op == "ref":
            s = classify(kind, x.a[0], x.a[1])
            if s is not None:
                out.append((g, s))
        elif x.op == "arg" and x.a[0] == "self":
            s = classify(kind, mk("obj", x), ())
            if s is not None:
                out.append((g, s))
    return out


def qty_of(order):
    return project(order, ("f", "1"))


def sum_orders(seq):
    """sum of quantities of a structurally known queue, or None"""
    def f(x):
        if x.op == "agg" and x.a[0] == "array":
            r = ZERO
            for _, o in x.a[2]:
                r = p_add(r, qty_of(o))
            return r
        if x.op == "push":
            b = f(x.a[0])
            return None if b is None else p_add(b, qty_of(x.a[1]))
        return None
    rs = [(g, f(x)) for g, x in cases(seq)]
    if any(r is None for _, r in rs):
        return None
    return mk_ite(rs)


class Ledger:
    """amount changes of one function, grouped by innermost loop"""

    def __init__(self, ck, kind, t, body, r):
        self.ck, self.kind, self.t, self.body, self.r = ck, kind, t, body, r
        self.name = short(body["path"])
        self.H = {}     # (ctx, half) -> [(guard, delta)]
        self.L = {}     # (ctx, half, key) -> [(guard, delta)]
        self.Q = {}
        self.drop = {}  # (ctx, half) -> [(guard, amount removed with a level)]
        self.problems = []
        self.keys = {}
        self.hyps = [invariants]
        self.build()

    def prob(self, what, msg, e=None):
        self.problems.append((what, msg, e))

    def add(self, d, k, g, x):
        d.setdefault(k, []).append((g, x))

    def build(self):
        for e in self.r.events:
            if e.kind in ("enter", "leave", "call", "unwrap", "bounds", "map_get", "drop", "index", "clone", "divzero", "overflow",
                          "borrow", "borrow_mut", "lock"):
                continue
            if not e.args:
                continue
            ctx = e.loops[-1] if e.loops else None
            for g, s in slots(self.kind, e.args[0]):
                self.event(e, ctx, b_and(e.guard, g), s)

    def event(self, e, ctx, g, s):
        h = s.half
        kd = e.kind
        if s.what == "book":
            self.prob("book-overwrite", "the whole book is overwritten", e)
            return
        if s.what == "half":
            if kd in ("store", "havoc"):
                self.prob("half-overwrite", "a half book is overwritten wholesale", e)
            return
        if s.what == "H":
            if kd == "store":
                self.add(self.H, (ctx, h), g, lift(p_sub, e.args[1], e.args[2]))
            else:
                self.prob("H", f"unexpected {kd} on the half-book total", e)
        elif s.what == "L":
            if kd == "store":
                self.add(self.L, (ctx, h, s.key), g, lift(p_sub, e.args[1], e.args[2]))
            else:
                self.prob("L", f"unexpected {kd} on a level total", e)
        elif s.what == "Q":
            if kd == "store":
                self.add(self.Q, (ctx, h, s.key), g, lift(p_sub, e.args[1], e.args[2]))
            else:
                self.prob("Q", f"unexpected {kd} on an order quantity", e)
        elif s.what == "order":
            if kd == "store":
                self.add(self.Q, (ctx, h, s.key), g, lift(p_sub, lift(qty_of, e.args[1]), lift(qty_of, e.args[2])))
        elif s.what == "orders":
            old = e.args[-1]
            n = length(old)
            if kd in ("push", "push_front"):
                self.add(self.Q, (ctx, h, s.key), g, lift(qty_of, e.args[1]))
            elif kd in ("pop_front", "pop_back"):
                ne = b_and(g, b_not(b_of(compare("Eq", n, ZERO))))
                ix = ZERO if kd == "pop_front" else lift(lambda z: p_sub(z, ONE), n)
                it = lift(lambda o, i: qty_of(project(o, ("idx", i))), old, ix)
                self.add(self.Q, (ctx, h, s.key), ne, lift(p_neg, it))
            elif kd == "remove_at":
                ins = b_and(g, b_of(compare("Lt", e.args[1], n)))
                it = lift(lambda o, i: qty_of(elem(o, i)), old, e.args[1])
                self.add(self.Q, (ctx, h, s.key), ins, lift(p_neg, it))
            elif kd == "clear":
                # sum of the queue = level total before any unmatched change
                tot = self.level_total(e, s)
                self.add(self.Q, (ctx, h, s.key), g, lift(p_neg, tot))
            elif kd == "store":
                nw, ol = sum_orders(e.args[1]), sum_orders(e.args[2])
                if nw is None:
                    self.prob("orders-overwrite", "an order queue is overwritten", e)
                else:
                    tot = ol if ol is not None else self.level_total(e, s)
                    self.add(self.Q, (ctx, h, s.key), g, lift(p_sub, nw, tot))
            else:
                self.prob("orders", f"unexpected {kd} on an order queue", e)
        elif s.what == "levels":
            if kd == "map_insert":
                k, v, m = e.args[1], e.args[2], e.args[3]
                self.inserted(e, ctx, g, h, k, v, m)
            elif kd == "map_remove":
                self.removed(e, ctx, g, h, e.args[1], e.args[2])
            elif kd == "clear":
                m = e.args[1]
                tot = mk("sumtotal", h)
                self.add(self.drop, (ctx, h), g, tot)
            elif kd == "store":
                self.prob("levels-overwrite", "the level map is overwritten", e)
            else:
                self.prob("levels", f"unexpected {kd} on the level map", e)
        elif s.what == "level" and kd == "store":
            nw, ol = e.args[1], e.args[2]
            so = sum_orders(lift(lambda v: project(v, ("f", "orders")), nw))
            if so is None:
                self.prob("level-overwrite", "a level is overwritten", e)
            else:
                pr = ("f", "total_quantity")
                tn = lift(lambda v: project(v, pr), nw)
                to = lift(lambda v: project(v, pr), ol)
                self.add(self.L, (ctx, h, s.key), g, lift(p_sub, tn, to))
                self.add(self.Q, (ctx, h, s.key), g, lift(p_sub, so, to))

    def drop_hyps(self):
        out = []
        for (c, h), xs in self.drop.items():
            root = mk("obj", mk("arg", "self"))
            p = ((("f", h),) if h else ()) + (("f", "total_quantity"),)
            h0 = project_path(default(root), p)
            out.append((c, h, (to_poly(p_sub(mk("sumtotal", h), h0)), "==")))
        return out

    def level_total(self, e, s):
        v = (e.mem or {}).get(s.lroot)
        if v is None:
            v = default(s.lroot)
        return lift(lambda x: project_path(x, s.lpath + (("f", "total_quantity"),)), v)

    def inserted(self, e, ctx, g, h, k, v, m):
        so = sum_orders(lift(lambda x: project(x, ("f", "orders")), v))
        tot = lift(lambda x: project(x, ("f", "total_quantity")), v)
        key = ("key", k)
        if so is None:
            self.prob("insert-level", "a level of unknown content is inserted", e)
        else:
            self.add(self.L, (ctx, h, key), g, tot)
            self.add(self.Q, (ctx, h, key), g, so)
        hs = has(m, k)
        if b_and(g, hs) != FALSE:
            # an existing level is replaced: its quantity disappears
            old = lift(lambda x: project(project(x, key), ("f", "total_quantity")), m)
            self.add(self.L, (ctx, h, key), b_and(g, hs), lift(p_neg, old))
            self.add(self.Q, (ctx, h, key), b_and(g, hs), lift(p_neg, old))
            self.keys.setdefault("replace", []).append((e, b_and(g, hs)))
        bp = lift(lambda x: project(x, ("f", "book_price")), v)
        self.keys.setdefault("price", []).append((e, g, bp, k))

    def removed(self, e, ctx, g, h, k, m):
        hs = b_and(g, has(m, k))
        why = self.deferred(e, ctx, h, k)
        self.keys.setdefault("removed", []).append((e, ctx, hs, h, k, m, why))
        if why is True:
            return
        if isinstance(why, str):
            self.prob("deferred-removal", why, e)
            return
        key = ("key", k)
        lv = lift(lambda x: project(x, key), m)
        tot = lift(lambda x: project(x, ("f", "total_quantity")), lv)
        n = length(lift(lambda x: project(x, ("f", "orders")), lv))
        empty_q = b_of(compare("Eq", n, ZERO))
        for g2, x in cases(tot):
            # queue and total of a level agree, so an empty queue means a zero total
            self.hyps.append((b_and(g2, empty_q), to_poly(x), "=="))
        self.add(self.L, (ctx, h, key), hs, lift(p_neg, tot))
        self.add(self.Q, (ctx, h, key), hs, lift(p_neg, tot))

    # -- removal of levels collected in a list while trading
    def deferred(self, e, ctx, h, k):
        """True: every key in the list belongs to a level whose total is zero;
        a string: such a list, but not so; None: not a list built by a loop"""
        if ctx is None or ctx.src is None:
            return None
        srcs = []
        for g, x in cases(k):
            if x.op != "prj" or x.a[1] != ("at", ctx.ix):
                return None
            v = x.a[0]
            while v.op == "push":  # appended on the pass that leaves the loop
                v = v.a[0]
            c1 = next((c for c in self.r.loops if v in c.next), None)
            if c1 is None:
                for c in self.r.loops:
                    for m, cf in c.closedform.items():
                        if cf is v:
                            c1, v = c, m
                if c1 is None:
                    return None
            srcs.append((g, v, c1))
        if not srcs:
            return None
        self.keys.setdefault("lists", [])
        for g, v, c1 in srcs:
            if any(x is not EMPTY for _, x in cases(c1.init[v])):
                return "the list of levels to drop does not start empty"
            root, path = next(kk for kk, mm in c1.mus.items() if mm is v)
            self.keys["lists"].append((c1, v, h))
            for pg, mem, _t in c1.passes:
                for gg, x in cases(project_path(mem.get(root, default(root)), path)):
                    gg = b_and(gg, pg)
                    if gg == FALSE or x is v:
                        continue
                    while x.op == "push":
                        lt = self.list_level_total(mem, h, x.a[1])
                        if not implied_sign(lt, "==", gg):
                            return None
                        x = x.a[0]
                    if x is not v:
                        return "the list of levels to drop is not built by appending"
        return True

    def list_level_total(self, mem, h, key):
        path = ((("f", h),) if h else ()) + (("f", "levels"),)
        root = mk("obj", mk("arg", "self"))
        lv = project_path(mem.get(root, default(root)), path)

        def f(kk):
            if kk.op == "mapkey":
                el = ("at", kk.a[1]) if kk.a[1].op == "ix" else ("nth", kk.a[1])
            else:
                el = ("key", kk)
            return lift(lambda x: project(project(x, el), ("f", "total_quantity")), lv)
        return lift(f, key)

def elem(o, i):
    if i.op == "ix":
        return project(o, ("at", i))
    return project(o, ("idx", i))


def has(m, k):
    return b_of(lift(lambda x: bool_t(mhas(x, k)), m))


def mhas(m, k):
    from models import map_has
    return map_has(m, k)


# --------------------------------------------------------------- T01 accounting
def invariants(vs, cube):
    """what holds of every level of a consistent book: it is filed under its own
    price, and no order is larger than the total of its level"""
    out = []
    for m in vs:
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "prj":
            continue
        a = m[0][0]
        b, k = a.a
        if k == ("f", "book_price") and b.op == "prj" and b.a[1][0] == "key":
            for g, kk in cases(b.a[1][1]):
                if g == TRUE:
                    out.append((to_poly(p_sub(a, kk)), "=="))
        if k == ("f", "1") and b.op == "prj" and b.a[1][0] in ("at", "idx", "nth"):
            o = b.a[0]
            if o.op == "prj" and o.a[1] == ("f", "orders"):
                t0 = project(o.a[0], ("f", "total_quantity"))
                out.append((to_poly(p_sub(t0, a)), ">="))
    return out


def imbalance(led):
    """ctx -> {(rule, half, key): [(guard, amount)]}"""
    out = {}

    def put(ctx, k, g, x):
        out.setdefault(ctx, {}).setdefault(k, []).append((g, x))
    for (c, h), xs in led.H.items():
        for g, x in xs:
            put(c, ("HL", h, None), g, x)
    for (c, h, key), xs in led.L.items():
        for g, x in xs:
            if led.kind != "level":
                put(c, ("HL", h, None), g, lift(p_neg, x))
            put(c, ("LQ", h, key), g, x)
    for (c, h, key), xs in led.Q.items():
        for g, x in xs:
            put(c, ("LQ", h, key), g, lift(p_neg, x))
    for (c, h), xs in led.drop.items():
        for g, x in xs:
            put(c, ("HL", h, None), g, x)
    return out


def monotone(c, m):
    """hypothesis init >= m when no pass increases m"""
    for g, v in c.end[m]:
        if not implied_sign(lift(lambda x: p_sub(m, x), v), ">=", g):
            return None
    return [(to_poly(p_sub(i, m)), ">=") for _, i in cases(c.init[m])][:1] if c.init[m].op != "ite" else []


def parent(led, c):
    for e in led.r.events:
        if c in e.loops:
            i = e.loops.index(c)
            return e.loops[i - 1] if i else None
    return None


def balance(led):
    """[(rule, half, key, ctx, message)] of unbalanced groups"""
    return fold(led, imbalance(led))[0]


def fold(led, imb):
    """sum guarded amounts per group from the inner loops outwards; a loop's share is
    expressed by the loop variable that changes by the same amount on every pass.
    -> (unbalanced groups, {(loop, group): that variable}, hypotheses)"""
    out = []
    choice = {}
    order = sorted([c for c in imb if c is not None], key=lambda c: -c.depth) + [None]
    hyp = list(led.hyps)
    done = set()
    while order:
        c = order.pop(0)
        if c in done:
            continue
        done.add(c)
        for name, terms_ in list(imb.get(c, {}).items()):
            try:
                bad = nonzero(terms_, hyp=hyp)
            except OverflowError:
                bad = ({}, mk("toomany"))
            if bad is None:
                continue
            ok_ = False
            if c is not None:
                for m in c.end:
                    for sgn in (1, -1):
                        delta = [(g, lift(lambda x: p_mul(num(-sgn), p_sub(x, m)), v)) for g, v in c.end[m]]
                        try:
                            if nonzero(terms_ + delta, hyp=hyp) is None:
                                par = parent(led, c)
                                tot = [(g, lift(lambda a, b: p_mul(num(sgn), p_sub(a, b)), v, c.init[m])) for g, v in c.after[m]]
                                imb.setdefault(par, {}).setdefault(name, [])
                                imb[par][name] += tot
                                if par is not None and par not in order and par not in done:
                                    order.insert(0, par)
                                    order.sort(key=lambda z: -(z.depth if z else -1))
                                mono = monotone(c, m)
                                if mono:
                                    hyp += mono
                                ok_ = True
                                choice[c, name] = m
                        except OverflowError:
                            pass
                        if ok_:
                            break
                    if ok_:
                        break
            if not ok_:
                cube, s = bad
                out.append((name, c, f"under {' & '.join(cube_show(cube))[:CAP]} the books differ by {show(s)[:200]}"))
    return out, choice, hyp


def snapshot_hyps(led):
    """level-snapshot books hold one order per level: there the order's quantity is the level's total"""
    out = []
    for e in led.r.events:
        if e.kind == "store" and any(k.endswith("::update_l2_snapshot") for k in e.stack):
            for g, s in slots(led.kind, e.args[0]):
                if s.what == "Q":
                    tot = led.level_total(e, s)
                    mem = e.mem.get(s.lroot, default(s.lroot))
                    lv0 = e.args[2]
                    for _, o in cases(lv0):
                        base = o
                        while base.op == "prj" and not (base.a[1] == ("f", "orders")):
                            base = base.a[0]
                        if base.op == "prj":
                            t0 = project(base.a[0], ("f", "total_quantity"))
                            out.append((to_poly(p_sub(o, t0)), "=="))
    return out


def T01(ck, q, t, meta):
    """Ghost accounting over the value-flow summary of every function that can
    change a book: within each loop pass and each straight-line region the guarded
    sum of changes to the half-book total minus changes to level totals, and of
    changes to a level total minus changes to its queued quantities, normalises to
    zero; loops are summarised by the loop variable their changes add up to."""
    ms = mutators(t)
    ck.count("mutating functions", len(ms))
    ck.floor("mutating functions", 22)
    changes = 0
    for kind, b in ms:
        r = analyse(t, b)
        ck.fn(b["path"])
        nm = short(b["path"])
        led = Ledger(ck, kind, t, b, r)
        led.hyps += snapshot_hyps(led)
        for what, msg, e in led.problems:
            ck.fail(f"{nm}:{what}", msg, where(e))
        for (c, h, k) in led.drop_hyps():
            led.hyps.append(k)
        n = sum(len(v) for d in (led.H, led.L, led.Q, led.drop) for v in d.values())
        changes += n
        bad = balance(led)
        ck.ob(f"{nm}:balance", not bad, "; ".join(f"{n_[0]} {m}" for n_, c, m in bad)[:900])
        for e, g, bp, k in led.keys.get("price", []):
            z = nonzero([(g, lift(p_sub, bp, k))])
            ck.ob(f"{nm}:level-price", z is None, "a level is filed under a price other than its own", where(e))
    ck.count("quantity changes", changes)
    ck.floor("quantity changes", 60)


def where(e):
    return f"{e.fn} line {e.span[1] if isinstance(e.span, (list, tuple)) and len(e.span) > 1 else e.span}" if e is not None else ""
