"""Linear-inequality facts read off guards (a small polyhedra domain with
Fourier-Motzkin emptiness), used to compare amounts under a guard."""
from fractions import Fraction
from terms import *


def facts_of(cube):
    """linear facts (poly-dict, kind) with kind in '>=','>','==' from a BDD cube"""
    out = []
    grp = {}
    for l, b in cube.items():
        if l.op == "isz":
            out.append((to_poly(l.a[0]), "==" if b else ">"))
        elif l.op == "isv" and l.a[0].op == "cmp":
            grp.setdefault(l.a[0], {})[l.a[1]] = b
        elif l.op == "isv" and b and isinstance(l.a[1], T) and l.a[1].op == "num":
            out.append((to_poly(p_sub(l.a[0], l.a[1])), "=="))
    for s, d in grp.items():
        p = to_poly(s.a[0])
        n = {m: -c for m, c in p.items()}
        if d.get(0):
            out.append((n, ">"))
        elif d.get(1):
            out.append((p, "=="))
        elif d.get(0) is False and d.get(1) is False:
            out.append((p, ">"))
        elif d.get(0) is False:
            out.append((p, ">="))
    return out


def _vars_of(fs):
    return {m for p, _ in fs for m in p if m != ()}


def empty(fs):
    """True if the conjunction of linear facts has no rational solution"""
    ineq = []
    eqs = []
    for p, k in fs:
        p = {m: Fraction(c) for m, c in p.items() if c != 0}
        (eqs if k == "==" else ineq).append((p, k))
    # Gaussian elimination of equalities
    while eqs:
        p, _ = eqs.pop()
        vs = [m for m in p if m != ()]
        if not vs:
            if p.get((), 0) != 0:
                return True
            continue
        v = vs[0]
        c = p[v]

        def sub(q):
            if v not in q:
                return q
            f = q[v] / c
            r = dict(q)
            for m, x in p.items():
                r[m] = r.get(m, 0) - f * x
                if r[m] == 0:
                    del r[m]
            return r
        eqs = [(sub(q), k) for q, k in eqs]
        ineq = [(sub(q), k) for q, k in ineq]
    cur = ineq
    while True:
        nxt = []
        for p, k in cur:
            if not [m for m in p if m != ()]:
                c = p.get((), Fraction(0))
                if c < 0 or (c == 0 and k == ">"):
                    return True
            else:
                nxt.append((p, k))
        cur = nxt
        if not cur:
            return False
        vs = _vars_of(cur)
        best = min(vs, key=lambda v: (sum(1 for p, _ in cur if p.get(v, 0) > 0) * sum(1 for p, _ in cur if p.get(v, 0) < 0)))
        pos = [(p, k) for p, k in cur if p.get(best, 0) > 0]
        neg = [(p, k) for p, k in cur if p.get(best, 0) < 0]
        rest = [(p, k) for p, k in cur if p.get(best, 0) == 0]
        for p, k in pos:
            for q, j in neg:
                r = {}
                a, b = p[best], -q[best]
                for m, x in p.items():
                    r[m] = r.get(m, 0) + x * b
                for m, x in q.items():
                    r[m] = r.get(m, 0) + x * a
                r = {m: x for m, x in r.items() if x != 0}
                rest.append((r, ">" if ">" in (k, j) else ">="))
        seen = {}
        for p, k in rest:
            if p:
                lead = abs(next(iter(sorted(p.items(), key=lambda z: repr(z[0]) if z[0] else "")))[1]) if False else 1
            key = (frozenset(p.items()), k)
            seen[key] = (p, k)
        cur = list(seen.values())
        if len(cur) > 400:
            return False


def relevant(fs, p):
    """facts transitively sharing an atom with p"""
    vs = {m for m in p if m != ()}
    if not vs:
        return [], vs
    left = list(fs)
    out = []
    ch = True
    while ch:
        ch = False
        for f in list(left):
            ms = {m for m in f[0] if m != ()}
            if ms & vs:
                vs |= ms
                out.append(f)
                left.remove(f)
                ch = True
    return out, vs


def with_nonneg(fs, vs):
    fs = list(fs)
    for m in vs:
        if len(m) == 1 and m[0][1] == 1 and (m[0][0] in NONNEG or m[0][0].op in ("len", "ix")):
            fs.append(({m: Fraction(1)}, ">="))
    return fs


def infeasible(cube, hyp=()):
    fs = extra(facts_of(cube), cube, hyp)
    vs = _vars_of(fs)
    return empty(with_nonneg(fs, vs))


def split_minmax(t):
    """[(guard, poly)] with min/max atoms resolved by the order of their operands"""
    out = []
    for g, x in cases(t):
        mm = None
        for m in to_poly(x):
            for a, _ in m:
                if a.op in ("max", "min"):
                    mm = a
        if mm is None:
            out.append((g, x))
            continue
        u, v = mm.a[0], mm.a[1]
        for g1, lo, hi in ((order_bdd(u, v, 0), u, v), (b_not(order_bdd(u, v, 0)), v, u)):
            if b_and(g, g1) == FALSE:
                continue
            y = subst(x, lambda z: (lo if mm.op == "min" else hi) if z is mm else None)
            for g2, z in split_minmax(y):
                gg = b_and(b_and(g, g1), g2)
                if gg != FALSE:
                    out.append((gg, z))
    return out


def total(terms_):
    """sum of guarded amounts: [(guard, sum)]; terms_ = [(guard, term)]"""
    acc = [(TRUE, ZERO)]
    for g, t in terms_:
        new = {}

        def add(gg, x):
            if gg != FALSE:
                new[x] = b_or(new.get(x, FALSE), gg)
        sp = split_minmax(t)
        for ga, s in acc:
            add(b_and(ga, b_not(g)), s)
            for g2, x in sp:
                add(b_and(ga, b_and(g, g2)), p_add(s, x))
        acc = [(gg, x) for x, gg in new.items()]
        if len(acc) > 4000:
            raise OverflowError("too many cases")
    return acc


def extra(fs, cube, hyp, more=()):
    """instantiate hypotheses: plain facts, guarded facts and generators"""
    out = list(fs)
    vs = _vars_of(out) | set(more)
    cb = None
    for h in hyp:
        if callable(h):
            out += h(vs, cube)
        elif len(h) == 3:
            if cb is None:
                cb = cube_bdd(cube)
            if b_and(cb, b_not(h[0])) == FALSE:
                out.append((h[1], h[2]))
        else:
            out.append(h)
    return out


def cube_bdd(cube):
    r = TRUE
    for l, b in cube.items():
        x = relit1(l)
        r = b_and(r, x if b else b_not(x))
    return r


def relit1(l):
    import terms
    return terms._node(terms._varix[l], FALSE, TRUE)


def nonzero(terms_, care=TRUE, hyp=(), limit=3000):
    """None if the guarded sum is zero on `care`; else (cube, remainder)"""
    for g, s in total(terms_):
        if s.op == "num" and s.a[0] == 0:
            continue
        g = b_valid(b_and(g, care))
        if g == FALSE or (s.op == "num" and s.a[0] == 0):
            continue
        p = to_poly(s)
        for cube in b_cubes(g, limit):
            fs = extra(facts_of(cube), cube, hyp, [m for m in p if m != ()])
            if empty(with_nonneg(fs, _vars_of(fs))):
                continue
            rel, vs = relevant(fs, p)
            rel = with_nonneg(rel, vs)
            if empty(rel + [(p, ">")]) and empty(rel + [({m: -c for m, c in p.items()}, ">")]):
                continue
            return cube, s
    return None


def implied_sign(t, kind, g=TRUE, hyp=(), limit=3000):
    """does g imply  t kind 0  (kind '>=','>','==')"""
    for g1, x in split_minmax(t):
        gg = b_valid(b_and(g, g1))
        if gg == FALSE:
            continue
        p = to_poly(x)
        n = {m: -c for m, c in p.items()}
        for cube in b_cubes(gg, limit):
            fs = extra(facts_of(cube), cube, hyp, [m for m in p if m != ()])
            rel = with_nonneg(fs, _vars_of(fs) | {m for m in p if m != ()})
            if kind == ">=":
                okk = empty(rel + [(n, ">")])
            elif kind == ">":
                okk = empty(rel + [(n, ">=")])
            else:
                okk = empty(rel + [(n, ">")]) and empty(rel + [(p, ">")])
            if not okk:
                return False
    return True


def linear_in(d, m):
    """integer coefficient of m in d if d is linear in it, else None"""
    c = None
    for mono, k in to_poly(d).items():
        for a, e in mono:
            if a is m:
                if len(mono) != 1 or e != 1:
                    return None
                c = k
            elif contains(a, lambda y: y is m):
                return None
    return c
