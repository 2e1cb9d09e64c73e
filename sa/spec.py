"""Value-flow specifications: run a function, describe what it must return as
terms over the same primitives, and compare the guarded normal forms."""
from fractions import Fraction
from terms import *
from interp import *
from linear import nonzero, infeasible
from terms import b_cubes
import facts


def arg(n):
    return mk("arg", n)


def D(x):
    """*x"""
    return lift(lambda y: project_path(default(y.a[0]), y.a[1]) if y.op == "ref" else default(mk("obj", y)), x)


def F(x, *names):
    for n in names:
        x = lift(lambda y, n=n: project(y, ("f", n)), x)
    return x


def V(x, i, name="0"):
    """payload of variant i"""
    return lift(lambda y: project(project(y, ("v", i)), ("f", name)), x)


def cell(x):
    """the value inside Rc<RefCell<..>> x"""
    return lift(lambda y: project(default(mk("obj", y)), ("cell",)), x)


def call(name, *args):
    return mk("call", name, *args)


def is_v(x, i, dom=2):
    return b_of(lift(lambda y: bool_t(variant_is(y, i, dom)), x))


SOME = lambda x: is_v(x, 1, 2)


def cmp(op, a, b):
    return b_of(compare(op, a, b))


def eq(a, b):
    return b_of(lift(lambda x, y: bool_t(eq_bdd(x, y)), a, b))


def ite(*cs):
    return mk_ite(list(cs))


def add(*xs):
    r = ZERO
    for x in xs:
        r = lift(p_add, r, x)
    return r


def mul(*xs):
    r = ONE
    for x in xs:
        r = lift(p_mul, r, x)
    return r


def sub(a, b):
    return lift(p_sub, a, b)


def div(a, b):
    return lift(p_div, a, b)


def run(t, body, total=(), opaque=(), args=None, closers=(), **kw):
    """analyse `body` (path or body); functions whose path ends with one of
    `total` are primitives assumed to succeed, `opaque` ones are primitives"""
    if isinstance(body, str):
        body = t.fn(body)
    key = (t.name, body["key"], tuple(total), tuple(opaque), tuple(args or ()), tuple(kw.get("models") or ()))
    r = _memo.get(key)
    if r is None:
        ends = tuple(total) + tuple(opaque)
        ip = Interp(t, opaque=lambda b: b["path"].endswith(ends) if ends else False, **kw)
        ip.total = tuple(total)
        ip.closers = tuple(closers)
        r = ip.analyze(body, args=args)
        r.ip = ip
        _memo[key] = r
    return r


_memo = {}
DEBUG = False
MSG = 300


def final(r, root, *fields):
    """value of a place after the function returned"""
    return r.ip.read(r.state, mk("obj", root), tuple(f if isinstance(f, tuple) else ("f", f) for f in fields))


def seqof(src, g, v):
    """the list of v over the elements of src for which g holds"""
    return mk("seqof", src, mk_ite([(g, v), (b_not(g), mk("skip"))]))


def prod(src, g, v):
    return mk("prod", src, mk_ite([(g, v), (b_not(g), ONE)]))


def total(src, g, v):
    return mk("sum", src, mk_ite([(g, v), (b_not(g), ZERO)]))


def tab(src, v):
    """the array with v (an expression over ix(src,0)) at each position of src"""
    return mk_tab(src, subst_ix(v, mk("ix", src, 0), pos(src)))


def unchain(x):
    """lists built over one sequence after another, as one list after the other"""
    def over(src, part, body, ix):
        def f(z):
            if z.op == "prj" and z.a[0] is src and z.a[1] == ("at", ix):
                return project(part, ("at", mk("ix", part, 0)))
            return None
        return subst(body, f)

    def f(z):
        if z.op in ("tab", "seqof") and z.a[0].op == "chainsrc":
            src = z.a[0]
            ix = pos(src) if z.op == "tab" else mk("ix", src, 0)
            ps = [over(src, p, z.a[1], ix) for p in src.a]
            if any(contains(p, lambda y: y is ix) for p in ps):
                return None
            a, b = src.a
            first = tab(a, ps[0]) if z.op == "tab" else mk("seqof", a, ps[0])
            return mk("extend", subst(first, f), mk("seqof", b, ps[1]))
        return None
    return subst(x, f)


def el(arr, src, depth=0):
    """element of arr at the position of the walk over src"""
    return lift(lambda a: project(a, ("at", mk("ix", src, depth))), arr)


def bounded(x, pred, lo, hi):
    """x with comparisons of a single bounded quantity against constants beyond its bounds decided"""
    def f(z):
        if z.op == "cmp" and z.a[0].op == "poly":
            c, at_ = Fraction(0), None
            for m, k in z.a[0].a[0]:
                if not m:
                    c = k
                elif at_ is None and len(m) == 1 and m[0][1] == 1 and pred(m[0][0]):
                    at_ = k
                else:
                    return None
            if at_ is None:
                return None
            a, b = sorted((c + at_ * lo, c + at_ * hi))
            if b < 0 or a > 0:
                return mk("cmp", num(-1 if b < 0 else 1))
        return None
    return subst(x, f)


def samelen(x, arrays):
    """arrays known to have one length: positions of any of them are positions of the first"""
    rep, rest = arrays[0], set(arrays)

    def cl(s):
        return s in rest and s is not rep or s.op == "zipsrc" and all(y in rest for y in s.a)

    def f(z):
        if z.op in ("sum", "prod", "exists", "seqof", "tab", "ix", "more", "len", "ext", "repeat", "before", "ovr"):
            i = 1 if z.op in ("before", "ext") else 0
            if z.op == "ovr" and (cl(z.a[0]) or z.a[0] is rep) and (cl(base_src(z.a[2])) or base_src(z.a[2]) is rep):
                return subst(mk("tab", z.a[0], z.a[1]), f, memo)
            if isinstance(z.a[i], T) and cl(z.a[i]):
                a = list(z.a)
                a[i] = rep
                y = subst(mk(z.op, *a), f, memo)
                return mk_tab(*y.a) if y.op == "tab" else y
        return None
    memo = {}
    return subst(x, f, memo)


def leaves(x):
    return cases(x)


def flatten(x, path=()):
    """leaf values of nested aggregates: [(guard, {path: leaf})]"""
    out = []
    for g, y in cases(x):
        if y.op == "agg":
            combos = [(g, {path + ("#",): mk("num", y.a[1]) if isinstance(y.a[1], int) else mk("name", str(y.a[1]))})]
            for k, v in y.a[2]:
                nxt = []
                for g1, d in combos:
                    for g2, d2 in flatten(v, path + (k,)):
                        gg = b_and(g1, g2)
                        if gg != FALSE:
                            nxt.append((gg, {**d, **d2}))
                combos = nxt
            out += combos
        else:
            out.append((g, {path: y}))
    return out


def split_sum(x):
    """sums distributed over the monomials of their body"""
    def f(z):
        if z.op != "sum":
            return None
        src, body = z.a
        acc = {}
        for g, v in cases(body):
            for m, c in to_poly(v).items():
                acc.setdefault(m, []).append((g, c))
        if len(acc) <= 1 and all(c == 1 for xs in acc.values() for _, c in xs):
            return None
        tot = ZERO
        for m, xs in acc.items():
            by = {}
            for g, c in xs:
                by[c] = b_or(by.get(c, FALSE), g)
            for c, g in by.items():
                tot = p_add(tot, p_mul(num(c), mk("sum", src, mk_ite([(g, from_poly({m: 1})), (b_not(g), ZERO)]))))
        return tot
    return subst(x, f)


def Sum(src, fn, g=TRUE):
    """sum over the elements of src of fn(index) where the index is canonical"""
    return mk("sum", src, fn(src))


def at(src, depth=0):
    ix = mk("ix", src, depth)
    return project(src, ("at", ix))


def keyat(src, depth=0):
    return mk("mapkey", src, mk("ix", src, depth))


def unify_sums(x, y):
    """y with its sums replaced by equal sums of x"""
    xs = [z for z in walk(x) if z.op in ("sum", "prod")]
    if not xs:
        return y

    def f(z):
        if z.op not in ("sum", "prod") or z in xs:
            return None
        for u in xs:
            if u.op == z.op and u.a[0] is z.a[0] and differ(u.a[1], z.a[1], lit(mk("more", z.a[0], 0)) if False else TRUE) is None:
                return u
        return None
    return subst(y, f)


BINDERS = ("sum", "prod", "exists", "seqof", "loopx", "foldx")


def inner_ite(x, seen=None):
    seen = set() if seen is None else seen
    if x in seen or not isinstance(x, T):
        return None
    seen.add(x)
    if x.op == "ite":
        return x
    if x.op in BINDERS or x.op == "agg":
        return None
    if x.op == "poly":
        for m in x.a[0]:
            for a, _ in m[0]:
                r = inner_ite(a, seen)
                if r is not None:
                    return r
        return None
    for a in x.a:
        if isinstance(a, T):
            r = inner_ite(a, seen)
            if r is not None:
                return r
    return None


def special(x, g):
    return subst(x, lambda z: (lambda u: u if u is not z else None)(under(z, g)) if z.op == "ite" else None)


def split_ites(x, y, g, budget=64):
    """[(guard, x, y)] with conditional sub-terms of x and y resolved"""
    work, out = [(g, x, y)], []
    while work:
        g, x, y = work.pop()
        x, y = special(x, g), special(y, g)
        z = inner_ite(x) or inner_ite(y)
        if z is None or len(out) + len(work) > budget:
            out.append((g, x, y))
            continue
        for c, v in cases(z):
            gg = b_and(g, c)
            if gg != FALSE and b_valid(gg) != FALSE:
                f = lambda w: v if w is z else None
                work.append((gg, subst(x, f), subst(y, f)))
    return out


def differ(got, want, care=TRUE, hyp=()):
    """None if the two guarded values agree on `care`; else a message"""
    for g, x in cases(got):
        if b_and(g, care) == FALSE:
            continue
        for h, y in cases(want):
            gg = b_and(b_and(g, h), care)
            if gg == FALSE or x is y:
                continue
            gg = b_valid(gg)
            if gg == FALSE:
                continue
            if x.op == "agg" and y.op == "agg":
                if x.a[1] != y.a[1]:
                    m = "another variant"
                else:
                    dx, dy = dict(x.a[2]), dict(y.a[2])
                    m = None
                    for k in dy:
                        m = differ(dx.get(k, mk("missing")), dy[k], gg, hyp)
                        if m:
                            break
            elif x.op == "b" or y.op == "b":
                bad = b_and(gg, b_not(b_ite(b_of(x), b_of(y), b_not(b_of(y)))))
                m = None if b_empty(b_valid(bad)) else "truth values differ"
            elif x.op == "str" or y.op == "str":
                m = "text differs"
            elif alike(x, y, gg, hyp):
                m = None
            else:
                m = None
                for g3, x3, y3 in split_ites(x, y, gg):
                    if x3 is y3:
                        continue
                    sx = split_sum(x3)
                    d = p_sub(sx, unify_sums(sx, split_sum(y3)))
                    if not (d.op == "num" and d.a[0] == 0) and nonzero([(g3, d)], hyp=hyp) is not None:
                        m = "value differs"
                        if DEBUG:
                            for u in to_poly(d):
                                print("    MONO", [str(show(a))[:700] for a, _ in u])
                        break
            if m:
                return f"{m}: found {show(x)[:MSG]}, required {show(y)[:MSG]} when {b_show(gg)[:200]}"
    return None


def alike(x, y, g, hyp):
    """same construction over arguments that agree"""
    if x.op != y.op or x.op not in ("call", "seqof", "sum", "prod", "tab", "before", "extend", "push", "repeat", "idx", "ext", "prj") or len(x.a) != len(y.a):
        return False
    for a, b in zip(x.a, y.a):
        if a is b or not isinstance(a, T) and a == b:
            continue
        if not isinstance(a, T) or not isinstance(b, T) or differ(a, b, g, hyp) is not None:
            return False
    return True


def abs_facts(vs, cube):
    out = []
    for m in vs:
        for a, _ in m:
            if a.op == "call" and a.a[0] == "abs":
                u = mk_mono(a)
                for y in (a.a[1], p_neg(a.a[1])):
                    out.append((to_poly(p_sub(u, y)), ">="))
                for h, c in ((order_bdd(a.a[1], ZERO, 0), p_neg(a.a[1])), (b_not(order_bdd(a.a[1], ZERO, 0)), a.a[1])):
                    if b_and(cube_of(cube), b_not(h)) == FALSE:
                        out.append((to_poly(p_sub(u, c)), "=="))
    return out


def mk_mono(a):
    return a


def cube_of(cube):
    from linear import cube_bdd
    return cube_bdd(cube)


def never(g, hyp=(), limit=3000):
    """the guard cannot hold: no cube of it has a solution (linear arithmetic)"""
    g = b_valid(g)
    if g == FALSE:
        return True
    return all(infeasible(c, tuple(hyp) + (abs_facts,)) for c in b_cubes(g, limit))


def ok_part(r):
    """(guard of Ok returns, value)"""
    cs = []
    g0 = FALSE
    for g, x in cases(r.ret):
        g = b_and(g, r.g)
        if g != FALSE and x.op == "agg" and x.a[0] == RESULT and x.a[1] == 0:
            cs.append((g, project(x, ("f", "0"))))
            g0 = b_or(g0, g)
    return g0, (mk_ite(cs) if cs else None)


def returns(ck, key, r, want, when=TRUE, hyp=(), result=True, must=None):
    """the function returns `want` (Ok(want) if result); it does so at least under `must`"""
    if result:
        g, v = ok_part(r)
    else:
        g, v = r.g, r.ret
    if v is None:
        return ck.fail(key, "no value is returned")
    m = differ(v, want, b_and(g, when), hyp)
    ok_ = ck.ob(key, m is None, m or "")
    if must is not None:
        miss = b_valid(b_and(must, b_not(g)))
        ok_ = ck.ob(key + ":answers", never(miss, hyp), "no value is returned when " + b_show(miss)[:300]) and ok_
    return ok_
