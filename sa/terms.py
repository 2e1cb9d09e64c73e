"""Hash-consed value terms, polynomial normal forms and guard BDDs.

A term is an interned node; equal values get the same node, so structural
equality is identity.  Guards are reduced ordered BDDs over atomic boolean
facts; boolean-valued terms are wrapped BDDs, so data and control conditions
share one canonical form.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "id", "_h")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        if op in CANON and isinstance(a[1], T) and a[1].op in ("ite", "b"):
            body = canon_body(a[1])
            if body is not a[1]:
                t = _tab[k] = mk(op, a[0], body, *a[2:])
                return t
        t = T()
        t.op = op
        t.a = a
        t.id = _n[0]
        _n[0] += 1
        _tab[k] = t
    return t


CANON = ("sum", "prod", "seqof", "tab", "exists")


def canon_body(b):
    """conditions of a body that ranges over a sequence, in a form that does not depend on how they were written"""
    if b.op == "b":
        return bool_t(b_valid(b.a[0]))
    return mk_ite([(b_valid(g), v) for g, v in b.a[0]])


UNIT = mk("unit")
UNINIT = mk("uninit")


def num(x):
    return mk("num", Fraction(x))


ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.op == "num"


# ----------------------------------------------------------------- polynomials
# monomial: tuple of (atom, exponent) sorted by atom id ; poly: dict mono->Fraction


def to_poly(t):
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((x.id, e) for x, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))))


def p_add(a, b, s=1):
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + s * c
    return from_poly(d)


def _mmul(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


def p_mul(a, b):
    if len(to_poly(a)) > 200 or len(to_poly(b)) > 200:
        return mk("mulbig", *sorted((a, b), key=lambda t: t.id))
    # cancel P * P^-1 for a multi-term P
    for x, y in ((a, b), (b, a)):
        if x.op == "poly" and len(x.a[0]) > 1:
            n, c = _normlead(x)
            if all(any(at is n and e < 0 for at, e in m) for m in to_poly(y)) and to_poly(y):
                d = {}
                for m, k in to_poly(y).items():
                    m2 = _mmul(m, ((n, 1),))
                    d[m2] = d.get(m2, 0) + k * c
                return from_poly(d)
    d = {}
    for m1, c1 in to_poly(a).items():
        for m2, c2 in to_poly(b).items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def _normlead(p):
    """scale a poly term so that its first coefficient is 1; returns (term, scale)"""
    items = p.a[0]
    c = items[0][1]
    return from_poly({m: k / c for m, k in items}), c


def p_inv(b):
    d = to_poly(b)
    if len(d) == 0:
        return mk("inf")
    if len(d) == 1:
        (m, c), = d.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    n, c = _normlead(b)
    return from_poly({((n, -1),): 1 / c})


def p_neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def p_sub(a, b):
    return p_add(a, b, -1)


def p_div(a, b):
    return p_mul(a, p_inv(b))


# ------------------------------------------------------------------------ BDDs
FALSE, TRUE = 0, 1
_nodes = [None, None]  # (var, lo, hi)
_uniq = {}
_vars = []  # var index -> literal term
_varix = {}
_group = {}  # var index -> (group key, domain size or None, value)
_groups_present = [False]


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _uniq[k] = n
    return n


def _newvar(lit, group=None):
    i = len(_vars)
    _vars.append(lit)
    _varix[lit] = i
    if group is not None:
        _group[i] = group
    return i


def lit(t):
    """positive literal of an atomic boolean fact"""
    if t.op == "exists" and t.a[1].op == "b" and t.a[1].a[0] < 2:
        return FALSE if t.a[1].a[0] == FALSE else order_bdd(LENGTH[0](t.a[0]), ZERO, 2)
    i = _varix.get(t)
    if i is None:
        i = _newvar(t)
    return _node(i, FALSE, TRUE)


def isv(subject, val, dom):
    """fact: `subject` (an enum-like value with `dom` variants, or None) is variant val"""
    if dom is not None:
        if dom == 1:
            return TRUE
        for k in range(dom - 1):
            l = mk("isv", subject, k)
            if l not in _varix:
                _newvar(l, (subject, dom, k))
        if val == dom - 1:
            r = TRUE
            for k in range(dom - 1):
                r = b_and(r, b_not(_node(_varix[mk("isv", subject, k)], FALSE, TRUE)))
            return r
        # positive literal: all the other group members are false (canonical form)
        r = TRUE
        for k in range(dom - 1):
            n = _node(_varix[mk("isv", subject, k)], FALSE, TRUE)
            r = b_and(r, n if k == val else b_not(n))
        return r
    l = mk("isv", subject, val)
    if l not in _varix:
        _newvar(l, (subject, None, val))
    return _node(_varix[l], FALSE, TRUE)


_ite_memo = {}


def b_ite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = min(_nodes[x][0] for x in (f, g, h) if x > 1)

    def co(x, b):
        if x > 1 and _nodes[x][0] == v:
            return _nodes[x][2 if b else 1]
        return x

    r = _node(v, b_ite(co(f, 0), co(g, 0), co(h, 0)), b_ite(co(f, 1), co(g, 1), co(h, 1)))
    _ite_memo[k] = r
    return r


def b_not(f):
    return b_ite(f, FALSE, TRUE)


_prune_memo = {}


def b_vars(f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [f]
    while st:
        x = st.pop()
        if x < 2 or x in seen:
            continue
        seen.add(x)
        v, lo, hi = _nodes[x]
        acc.add(v)
        st.append(lo)
        st.append(hi)
    return acc


def _prune(f):
    """drop assignments in which an open group has two true members"""
    if f < 2:
        return f
    r = _prune_memo.get(f)
    if r is not None:
        return r
    groups = {}
    for v in b_vars(f):
        g = _group.get(v)
        if g is not None and g[1] is None:
            groups.setdefault(g[0], []).append(v)
    if all(len(x) < 2 for x in groups.values()):
        _prune_memo[f] = f
        return f
    memo = {}

    def go(x, on):
        if x < 2:
            return x
        k = (x, on)
        if k in memo:
            return memo[k]
        v, lo, hi = _nodes[x]
        g = _group.get(v)
        if g is not None and g[1] is None and len(groups.get(g[0], ())) > 1:
            if g[0] in on:
                r = go(lo, on)
            else:
                r = _node(v, go(lo, on), go(hi, on | {g[0]}))
        else:
            r = _node(v, go(lo, on), go(hi, on))
        memo[k] = r
        return r

    r = go(f, frozenset())
    _prune_memo[f] = r
    _prune_memo[r] = r
    return r


_valid_memo = {}


def b_valid(f):
    """f restricted to assignments in which every group has at most one true member
    (closed groups included): for emptiness tests, not for building guards"""
    if f < 2:
        return f
    r = _valid_memo.get(f)
    if r is not None:
        return r
    memo = {}

    def go(x, on):
        if x < 2:
            return x
        k = (x, on)
        if k in memo:
            return memo[k]
        v, lo, hi = _nodes[x]
        g = _group.get(v)
        if g is not None:
            r = go(lo, on) if g[0] in on else _node(v, go(lo, on), go(hi, on | {g[0]}))
        else:
            r = _node(v, go(lo, on), go(hi, on))
        memo[k] = r
        return r
    r = _valid_memo[f] = go(f, frozenset())
    return r


def b_empty(f):
    return f == FALSE or b_valid(f) == FALSE


def b_and(f, g):
    return _prune(b_ite(f, g, FALSE))


def b_any(fs):
    """disjunction of many, in a balanced order"""
    if not fs:
        return FALSE
    while len(fs) > 1:
        fs = [b_or(fs[k], fs[k + 1]) if k + 1 < len(fs) else fs[k] for k in range(0, len(fs), 2)]
    return fs[0]


def b_or(f, g):
    return b_ite(f, TRUE, g)


def b_implies(f, g):
    return b_empty(b_and(f, b_not(g)))


_cons_memo = {}


def b_simplify(f, c):
    """f simplified using care set c (Coudert-Madre restrict)"""
    if c == TRUE or f < 2 or c == FALSE:
        return f
    k = (f, c)
    r = _cons_memo.get(k)
    if r is not None:
        return r
    vf, vc = _nodes[f][0], _nodes[c][0]
    if vc < vf:
        r = b_simplify(f, b_or(_nodes[c][1], _nodes[c][2]))
    else:
        v = vf
        flo, fhi = _nodes[f][1], _nodes[f][2]
        clo, chi = (_nodes[c][1], _nodes[c][2]) if vc == v else (c, c)
        if clo == FALSE:
            r = b_simplify(fhi, chi)
        elif chi == FALSE:
            r = b_simplify(flo, clo)
        else:
            r = _node(v, b_simplify(flo, clo), b_simplify(fhi, chi))
    _cons_memo[k] = r
    return r


def b_exists(f, pred, memo=None):
    """existentially quantify every variable whose literal satisfies pred"""
    memo = {} if memo is None else memo
    if f < 2:
        return f
    if f in memo:
        return memo[f]
    v, lo, hi = _nodes[f]
    l, h = b_exists(lo, pred, memo), b_exists(hi, pred, memo)
    r = b_or(l, h) if pred(_vars[v]) else b_ite(_node(v, FALSE, TRUE), h, l)
    memo[f] = r
    return r


def b_map(f, fn, memo=None):
    """rebuild f with each literal term replaced by BDD fn(lit)"""
    memo = {} if memo is None else memo
    if f < 2:
        return f
    if f in memo:
        return memo[f]
    v, lo, hi = _nodes[f]
    r = b_ite(fn(_vars[v]), b_map(hi, fn, memo), b_map(lo, fn, memo))
    r = _prune(r)
    memo[f] = r
    return r


def b_lits(f):
    return [_vars[v] for v in sorted(b_vars(f))]


def b_cubes(f, limit=64):
    """list of {literal: bool} cubes"""
    out = []

    def go(x, cube):
        if len(out) > limit:
            return
        if x == FALSE:
            return
        if x == TRUE:
            out.append(dict(cube))
            return
        v, lo, hi = _nodes[x]
        go(hi, cube + [(_vars[v], True)])
        go(lo, cube + [(_vars[v], False)])

    go(f, [])
    return out


def b_show(f, limit=6):
    if f == TRUE:
        return "true"
    if f == FALSE:
        return "false"
    cs = b_cubes(f, limit)
    return " | ".join(" & ".join(cube_show(c)) for c in cs[:limit]) + (" | ..." if len(cs) > limit else "")


_REL = {(0,): "<", (1,): "==", (2,): ">", (0, 1): "<=", (0, 2): "!=", (1, 2): ">="}


def cube_show(c):
    out = []
    grp = {}
    for l, b in c.items():
        if l.op == "isv":
            grp.setdefault(l.a[0], []).append((l.a[1], b))
        elif l.op == "isz":
            out.append(show(l.a[0]) + (" == 0" if b else " > 0"))
        else:
            out.append(("" if b else "!") + show(l))
    for s, ks in grp.items():
        pos = [k for k, b in ks if b]
        if s.op == "cmp":
            left = tuple(pos) if pos else tuple(k for k in (0, 1, 2) if k not in [x for x, _ in ks])
            out.append(f"{show(s.a[0])} {_REL.get(left, '?')} 0")
        elif pos:
            out.append(f"{show(s)} is {pos[0] if not isinstance(pos[0], T) else show(pos[0])}")
        else:
            out.append(f"{show(s)} is not " + ",".join(str(k) for k, _ in ks))
    return out


def bool_t(b):
    return mk("b", b)


BT, BF = bool_t(TRUE), bool_t(FALSE)

# ------------------------------------------------------------------------- ite
ITE_LIMIT = 40


def mk_ite(cases):
    """cases: list of (guard, term); guards disjoint.  Canonical merged value."""
    flat = []
    for g, t in cases:
        if g == FALSE:
            continue
        if t.op == "ite":
            for g2, t2 in t.a[0]:
                gg = b_and(g, g2)
                if gg != FALSE:
                    flat.append((gg, t2))
        else:
            flat.append((g, t))
    if not flat:
        return UNINIT
    ts = {}
    for g, t in flat:
        ts.setdefault(t, []).append(g)
    ts = {t: b_any(gs) for t, gs in ts.items()}
    if len(ts) > 1 and UNINIT in ts:
        ts.pop(UNINIT)
    if len(ts) == 1:
        return next(iter(ts))
    care = b_any(list(ts.values()))
    if all(t.op == "b" for t in ts):
        r = b_any([b_and(g, t.a[0]) for t, g in ts.items()])
        return bool_t(b_simplify(r, care))
    # product-shaped aggregates merge field-wise
    its = list(ts.items())
    t0 = its[0][0]
    if t0.op == "agg" and all(t.op == "agg" and t.a[0] == t0.a[0] and t.a[1] == t0.a[1]
                              and tuple(k for k, _ in t.a[2]) == tuple(k for k, _ in t0.a[2]) for t in ts):
        fs = []
        for i, (k, _) in enumerate(t0.a[2]):
            fs.append((k, mk_ite([(g, t.a[2][i][1]) for t, g in its])))
        return mk("agg", t0.a[0], t0.a[1], tuple(fs))
    bases = set(t.a[0] if t.op == "upd" else t for t in ts)
    if len(bases) == 1:
        base = next(iter(bases))
        keys = []
        for t in ts:
            if t.op == "upd":
                for k, _ in t.a[1]:
                    if k not in keys:
                        keys.append(k)
        ov = []
        for k in keys:
            ov.append((k, mk_ite([(g, project(t, k)) for t, g in its])))
        return mk_upd(base, ov)
    if len(ts) > ITE_LIMIT:
        return mk("phi", frozenset(ts))
    cs = [(b_simplify(g, care), t) for t, g in ts.items()]
    cs.sort(key=lambda p: p[1].id)
    r = mk("ite", tuple(cs))
    return r


def cases(t, g=TRUE):
    """[(guard, leaf)] of a possibly conditional term"""
    if t.op == "ite":
        out = []
        for g2, x in t.a[0]:
            gg = b_and(g, g2)
            if gg != FALSE:
                out.append((gg, x))
        return out
    return [(g, t)]


def under(t, g):
    """t specialised to the context guard g"""
    if t.op == "ite":
        cs = [(c, x) for c, x in t.a[0] if b_and(c, g) != FALSE]
        if len(cs) == 1:
            return cs[0][1]
        if len(cs) < len(t.a[0]) and cs:
            return mk_ite([(b_and(c, g), x) for c, x in cs])
        return t
    if t.op == "b" and t.a[0] > 1:
        if b_and(t.a[0], g) == FALSE:
            return BF
        if b_and(b_not(t.a[0]), g) == FALSE:
            return BT
    return t


def lift(fn, *ts):
    """apply fn to the leaves of conditional arguments"""
    if not any(t.op == "ite" for t in ts):
        return fn(*ts)
    combos = [(TRUE, ())]
    for t in ts:
        nc = []
        for g, xs in combos:
            for g2, x in cases(t):
                gg = b_and(g, g2)
                if gg != FALSE:
                    nc.append((gg, xs + (x,)))
        combos = nc
        if len(combos) > 4 * ITE_LIMIT:
            return fn(*[mk("opq", t) if t.op == "ite" else t for t in ts])
    return mk_ite([(g, fn(*xs)) for g, xs in combos])


# ------------------------------------------------------- aggregates / projection
# path elements: ('f', name)  field;  ('v', idx) enum downcast;  ('idx', T);
# ('at', T) iterated element;  ('key', T) map entry;  ('cell',) ('box',) ('deref',)


def mk_agg(ty, variant, fields):
    """fields: list of (name, T)"""
    return mk("agg", ty, variant, tuple(fields))


def mk_upd(base, ov):
    d = {}
    if base.op == "upd":
        d.update(dict(base.a[1]))
        base = base.a[0]
    for k, v in ov:
        d[k] = v
    d = {k: v for k, v in d.items() if project(base, k) is not v}
    if not d:
        return base
    items = tuple(sorted(d.items(), key=lambda kv: repr(_pk(kv[0]))))
    return mk("upd", base, items)


def _pk(k):
    return tuple(x.id if isinstance(x, T) else x for x in k)


def distinct(a, b):
    """provably different keys"""
    if a is b:
        return False
    if a.op in ("num", "str") and b.op in ("num", "str"):
        return True
    d = p_sub(a, b) if a.op in ("num", "poly") or b.op in ("num", "poly") else None
    if d is not None and d.op == "num" and d.a[0] != 0:
        return True
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return True
    return False


POSITIONAL = ("revsrc", "skipsrc", "takesrc", "step_bysrc", "zipsrc", "chainsrc", "src")


def ix_el(v):
    """path element for indexing by v; a running position is the element at it"""
    if v.op == "ix" and v.a[0].op not in POSITIONAL:
        return ("at", v)
    return ("idx", v)


def project(t, k):
    op = t.op
    if op == "ite":
        return mk_ite([(g, project(x, k)) for g, x in t.a[0]])
    if op == "agg":
        if k[0] == "f":
            for n, v in t.a[2]:
                if n == k[1]:
                    return v
            return UNINIT
        if k[0] == "v":
            if t.a[1] == k[1]:
                return t
            return UNINIT  # impossible branch
        if k[0] == "idx" and t.a[0] == "array" and k[1].op == "num":
            i = int(k[1].a[0])
            if 0 <= i < len(t.a[2]):
                return t.a[2][i][1]
    if op == "upd":
        for kk, v in t.a[1]:
            if kk == k:
                return v
        if k[0] in ("idx", "key", "at"):
            for kk, v in t.a[1]:
                if kk[0] in ("idx", "key", "at") and not (kk[0] == k[0] and distinct(kk[1], k[1])):
                    return mk("prj", t, k)
        if k[0] == "rng":
            return mk("prj", t, k)
        return project(t.a[0], k)
    if op == "boxed" and k[0] == "box":
        return t.a[0]
    if op == "closure" and k[0] == "f" and str(k[1]).isdigit() and int(k[1]) < len(t.a[1]):
        return t.a[1][int(k[1])]
    if op == "some_of" and k[0] in ("v",):
        return t
    if op == "ins" and k[0] == "key":
        if t.a[1] is k[1]:
            return t.a[2]
        if distinct(t.a[1], k[1]):
            return project(t.a[0], k)
    if op == "rem" and k[0] == "key" and distinct(t.a[1], k[1]):
        return project(t.a[0], k)
    if op == "repeat" and k[0] in ("idx", "at"):
        return t.a[0]
    if op == "ovr" and k[0] == "at" and k[1].op == "ix" and k[1].a[0] is t.a[0]:
        return subst_ix(t.a[1], pos(t.a[0]), k[1])
    if op == "tab" and k[0] in ("idx", "at"):
        return subst_ix(t.a[1], pos(t.a[0]), k[1])
    if op == "prj" and t.a[1][0] == "v" and k[0] == "v" and False:
        return t
    if op == "uninit":
        return UNINIT
    if k[0] == "idx" and k[1].op == "ix":
        return project(t, ("at", k[1]))
    if k[0] == "at" and k[1].op != "ix":
        return project(t, ("idx", k[1]))
    if op == "prj" and t.a[1][0] == "rng" and k[0] == "rng":
        base, (_, lo, _hi) = t.a
        return project(base, ("rng", p_add(lo, k[1]), p_add(lo, k[2])))
    if op == "prj" and t.a[1][0] == "rng" and k[0] == "idx":
        base, (_, lo, _hi) = t.a
        return project(base, ("idx", p_add(lo, k[1])))
    return mk("prj", t, k)


def project_path(t, path):
    for k in path:
        t = project(t, k)
    return t


def update(t, path, v):
    if not path:
        return v
    k = path[0]
    if t.op == "ite" and len(t.a[0]) <= 8:
        return mk_ite([(g, update(x, path, v)) for g, x in t.a[0]])
    if k[0] == "v" and t.op == "agg":
        if t.a[1] == k[1]:
            return update(t, path[1:], v)
    sub = update(project(t, k), path[1:], v) if len(path) > 1 else v
    if t.op == "agg" and k[0] == "f":
        fs = list(t.a[2])
        for i, (n, _) in enumerate(fs):
            if n == k[1]:
                fs[i] = (n, sub)
                return mk("agg", t.a[0], t.a[1], tuple(fs))
        fs.append((k[1], sub))
        return mk("agg", t.a[0], t.a[1], tuple(fs))
    if t.op == "agg" and t.a[0] == "array" and k[0] == "idx" and k[1].op == "num":
        i = int(k[1].a[0])
        fs = list(t.a[2])
        if 0 <= i < len(fs):
            fs[i] = (fs[i][0], sub)
            return mk("agg", t.a[0], t.a[1], tuple(fs))
    if t.op == "boxed" and k[0] == "box":
        return mk("boxed", sub)
    if t.op == "ins" and k[0] == "key" and t.a[1] is k[1]:
        return mk("ins", t.a[0], t.a[1], sub)
    if t.op == "uninit" and k[0] == "f":
        return mk("agg", "?", 0, ((k[1], sub),))
    return mk_upd(t, [(k, sub)])


# ------------------------------------------------------------------ traversal
def walk(t, seen=None):
    """all sub-terms (including literals inside guards)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "b":
                st.extend(b_lits(x.a[0]))
            elif x.op == "ite":
                for g, y in x.a[0]:
                    st.append(y)
                    st.extend(b_lits(g))
            else:
                st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return seen


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def subst(t, fn, memo=None):
    """bottom-up rewriting; fn(term)->term or None is tried first (top-down)"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is not None:
                return r
            r = fn(x)
            if r is None:
                r = rebuild(x)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x

    def glit(l):
        if l.op == "isv":
            if l.a[0].op == "cmp" and not isinstance(l.a[1], T) and fn(l.a[0]) is None:
                r = FALSE
                for g, d in cases(go(l.a[0].a[0])):
                    r = b_or(r, b_and(g, order_bdd(d, ZERO, l.a[1])))
                return r
            s = go(l.a[0])
            return relit(l, s)
        if l.op == "isz":
            r = FALSE
            for g, x in cases(go(l.a[0])):
                nonneg(x)
                r = b_or(r, b_and(g, order_bdd(x, ZERO, 1)))
            return r
        n = go(l)
        if n.op == "b":
            return n.a[0]
        return lit(n)

    def gb(g):
        return b_map(g, glit)

    def rebuild(x):
        if x.op == "b":
            return bool_t(gb(x.a[0]))
        if x.op == "ite":
            return mk_ite([(gb(g), go(y)) for g, y in x.a[0]])
        if x.op == "poly":
            r = ZERO
            for m, c in x.a[0]:
                p = num(c)
                for at, e in m:
                    y = go(at)
                    for _ in range(abs(e)):
                        p = lift(p_mul, p, y) if e > 0 else lift(p_div, p, y)
                r = lift(p_add, r, p)
            return r
        if x.op == "prj":
            return project(go(x.a[0]), go(x.a[1]))
        if x.op == "upd":
            b = go(x.a[0])
            for k, v in x.a[1]:
                b = update(b, (go(k),), go(v))
            return b
        na = go(x.a)
        if na == x.a:
            return x
        if x.op == "cmp":
            return cmp_term(na[0])[0]
        return mk(x.op, *na)

    if not isinstance(t, T):
        return gb(t) if isinstance(t, int) else go(t)
    return go(t)


# ------------------------------------------------------------- computed arrays
# tab(src, body): the array with one element per position of the sequence src;
# body gives the element at position pos(src).
BIND = ("sum", "prod", "exists", "seqof", "tab", "ovr")


def pos(src):
    return mk("ix", src, "t")


def subst_ix(x, old, new):
    """x with position `old` replaced by `new`, leaving what binds the same position alone"""
    if new is old:
        return x
    memo = {}

    def f(z):
        if z is old:
            return new
        if z.op in BIND and z.a[0] is old.a[0]:
            if z.op in ("tab", "ovr") if old.a[1] == "t" else z.op != "tab":
                return z
        if z.op == "before" and z.a[1] is old.a[0]:
            return mk("before", z.a[0], z.a[1], z.a[2], subst(z.a[3], f, memo))
        return None
    return subst(x, f, memo)


def base_src(v):
    """the sequence whose positions the elements of array v have"""
    if v.op == "tab":
        return v.a[0]
    if v.op == "upd":
        return base_src(v.a[0])
    if v.op == "ovr":
        return base_src(v.a[2])
    if v.op == "repeat":
        return v.a[1].a[0] if v.a[1].op == "len" else mk("range", ZERO, v.a[1])
    return v


def mk_tab(src, body):
    p = pos(src)
    if body.op == "prj" and body.a[1] == ("at", p) and body.a[0] is src:
        return src
    if not contains(body, lambda y: y is p) and src.op != "range":
        return mk("repeat", body, LENGTH[0](src))
    return mk("tab", src, body)


def length_is(v, n):
    k = LENGTH[0](v)
    return k.op == "num" and k.a[0] == n


def mk_ovr(src, body, old):
    """`old` with the elements at the positions of the sequence src replaced"""
    if base_src(old) is src or src.op == "agg" and length_is(old, len(src.a[2])):
        return mk_tab(src, body)
    return mk("ovr", src, body, old)


def subst_guard(g, fn):
    return subst(g, fn)


def relit(l, s):
    """re-evaluate literal isv(old, k) for a rewritten subject s"""
    k = l.a[1]
    if s is l.a[0]:
        return _node(_varix[l], FALSE, TRUE)
    dom = _group[_varix[l]][1]
    r = FALSE
    for g, x in cases(s):
        r = b_or(r, b_and(g, variant_is(x, k, dom)))
    return r


def variant_is(x, k, dom):
    if x.op == "agg" and x.a[1] is not None and x.a[0] != "array":
        return TRUE if x.a[1] == k else FALSE
    if x.op == "num" and not isinstance(k, T):
        return TRUE if x.a[0] == k else FALSE
    if x.op == "cmp" and x.a[0].op == "num":
        return TRUE if cmp_const(x.a[0].a[0]) == k else FALSE
    return isv(x, k, dom)


# ----------------------------------------------------------------- comparisons
def cmp_const(c):
    return 0 if c < 0 else (1 if c == 0 else 2)


def cmp_term(d):
    """canonical three-way comparison of d against 0 -> (cmp term, flipped)"""
    if d.op == "num":
        return mk("cmp", d), False
    if d.op == "poly":
        c = d.a[0][-1][1]
        # scale so that the leading (highest id) coefficient is +1
        n = from_poly({m: k / c for m, k in d.a[0]})
        return mk("cmp", n), c < 0
    return mk("cmp", d), False


def order_bdd(a, b, which):
    """which: 0 a<b, 1 a==b, 2 a>b  (numeric / totally ordered values)"""
    d = p_sub(a, b)
    if d.op == "num":
        return TRUE if cmp_const(d.a[0]) == which else FALSE
    k = ix_bound(d)
    if k is not None:
        if INDUCT:
            x = induct_test(d)
            if x is not None:
                more, up = x
                # the test that ends a counting loop: below the bound while elements remain, then equal to it
                return (more if up else FALSE, b_not(more), FALSE if up else more)[which]
        return TRUE if which == k else FALSE
    if INDUCT and d.op == "poly":
        for c in (1, -1):
            x = induct_test(p_sub(d, num(c)))
            if x is not None and x[1] == (c == 1):
                # one above that test: at most the bound while elements remain, then one above it
                more = x[0]
                z = lit(mk("isz", d))
                inner = b_and(more, b_not(z))
                return ((inner, b_and(more, z), b_not(more)) if c == 1 else (b_not(more), b_and(more, z), inner))[which]
    mm = minmax_atom(d)
    if mm is not None:
        u, v = mm.a[0], mm.a[1]
        le = b_not(order_bdd(u, v, 2))
        lo, hi = (u, v) if mm.op == "min" else (v, u)
        x = subst(d, lambda z: lo if z is mm else None)
        y = subst(d, lambda z: hi if z is mm else None)
        f = lambda z: b_of(lift(lambda w: bool_t(order_bdd(w, ZERO, which)), z))
        return b_or(b_and(le, f(x)), b_and(b_not(le), f(y)))
    cn = counted(d)
    if cn is not None:
        e = lit(mk("exists", cn[0], bool_t(cn[1])))
        return ((FALSE, b_not(e), e) if cn[2] > 0 else (e, b_not(e), FALSE))[which]
    if d in NONNEG or d.op in ("len", "ix"):
        z = lit(mk("isz", d))
        return (FALSE, z, b_not(z))[which]
    if d.op == "poly" and len(d.a[0]) == 1 and (p_neg(d) in NONNEG or p_neg(d).op == "len"):
        z = lit(mk("isz", p_neg(d)))
        return (b_not(z), z, FALSE)[which]
    c, fl = cmp_term(d)
    return isv(c, 2 - which if fl else which, 3)


def counted(d):
    """d = +-(number of elements of a sequence that meet a condition): (sequence, condition, sign)"""
    sg = 1
    if d.op == "poly" and len(d.a[0]) == 1:
        m, c = d.a[0][0]
        if c >= 0 or len(m) != 1 or m[0][1] != 1:
            return None
        d, sg = m[0][0], -1
    if d.op != "sum":
        return None
    g = FALSE
    for h, v in cases(d.a[1]):
        if v.op != "num" or v.a[0] not in (0, 1):
            return None
        if v.a[0] == 1:
            g = b_or(g, h)
    return d.a[0], g, sg


def ix_bound(d):
    """sign of a difference between a loop index and the length of what it walks"""
    if d.op != "poly":
        return None
    for m, c in d.a[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ix" and c in (1, -1):
            ix = m[0][0]
            for _, n in cases(LENGTH[0](ix.a[0])):
                r = p_sub(d, p_mul(num(c), p_sub(ix, n)))
                if r.op == "num":
                    if c == 1 and r.a[0] <= 0:
                        return 0
                    if c == -1 and r.a[0] >= 0:
                        return 2
    return None


INDUCT = {}  # index term of a counting loop under analysis -> its "more elements" literal


def induct_test(d):
    for m, c in d.a[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in INDUCT and c in (1, -1):
            ix = m[0][0]
            for _, n in cases(LENGTH[0](ix.a[0])):
                if p_sub(d, p_mul(num(c), p_sub(ix, n))) is ZERO:
                    return INDUCT[ix], c == 1
    return None


def minmax_atom(d):
    if d.op in ("min", "max"):
        return d
    if d.op == "poly":
        for m, _ in d.a[0]:
            for x, _e in m:
                if x.op in ("min", "max"):
                    return x
    return None


LENGTH = [None]
NONNEG = set()


def nonneg(t):
    """record that a value is unsigned (never below zero)"""
    for _, x in cases(t):
        if x.op not in ("num", "poly", "uninit"):
            NONNEG.add(x)


def b_of(t):
    if t.op == "b":
        return t.a[0]
    if t.op == "ite":
        r = FALSE
        for g, x in t.a[0]:
            r = b_or(r, b_and(g, b_of(x)))
        return r
    if t.op == "num":
        return TRUE if t.a[0] != 0 else FALSE
    return lit(t)


def compare(op, a, b):
    def f(x, y):
        if op == "Lt":
            return bool_t(order_bdd(x, y, 0))
        if op == "Gt":
            return bool_t(order_bdd(x, y, 2))
        if op == "Le":
            return bool_t(b_not(order_bdd(x, y, 2)))
        if op == "Ge":
            return bool_t(b_not(order_bdd(x, y, 0)))
        if op == "Eq":
            return bool_t(eq_bdd(x, y))
        if op == "Ne":
            return bool_t(b_not(eq_bdd(x, y)))
        raise KeyError(op)

    return lift(f, a, b)


NUMERIC_OPS = {"num", "poly"}


ENUM_DOM = {}  # fieldless-capable enum name -> number of variants


def eq_bdd(x, y):
    if x is y:
        return TRUE
    if x.op == "b" or y.op == "b":
        return b_not(b_ite(b_of(x), b_not(b_of(y)), b_of(y)))
    if x.op == "str" and y.op == "str":
        return FALSE
    if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]:
            return FALSE
        if tuple(k for k, _ in x.a[2]) == tuple(k for k, _ in y.a[2]):
            r = TRUE
            for (k, v), (_, w) in zip(x.a[2], y.a[2]):
                rr = lift(lambda p, q: bool_t(eq_bdd(p, q)), v, w)
                r = b_and(r, b_of(rr))
            return r
    if x.op in NUMERIC_OPS or y.op in NUMERIC_OPS:
        return order_bdd(x, y, 1)
    for p, q in ((x, y), (y, x)):
        # a slice against an array of known elements: element by element
        if q.op == "agg" and q.a[0] == "array" and 0 < len(q.a[2]) <= 32 and p.op == "prj" and p.a[1][0] == "rng" and p.a[1][2] is not None:
            n = p_sub(p.a[1][2], p.a[1][1])
            if n is num(len(q.a[2])):
                r = TRUE
                for k, v in q.a[2]:
                    r = b_and(r, b_of(lift(lambda a, b: bool_t(eq_bdd(a, b)), project(p, ("idx", num(int(k)))), v)))
                return r
    for p, q in ((x, y), (y, x)):
        if q.op in ("str",):
            return isv(p, q, None)
        if q.op == "agg" and not q.a[2] and q.a[1] is not None:
            dom = ENUM_DOM.get(q.a[0])
            if dom is not None and isinstance(q.a[1], int):
                return variant_is(p, q.a[1], dom)
            return isv(p, q, None)
    # unknown kinds: numeric comparison and equality of opaque values coincide
    return order_bdd(x, y, 1)


def minmax(which, a, b):
    def f(x, y):
        d = p_sub(x, y)
        if d.op == "num":
            less = d.a[0] < 0
            return (x if less else y) if which == "min" else (y if less else x)
        xs = sorted({x, y}, key=lambda t: t.id)
        return mk(which, *xs)
    return lift(f, a, b)


def norm_minmax(t):
    """ite(a<b: a, else b) -> min(a,b)"""
    if t.op != "ite" or len(t.a[0]) != 2:
        return t
    (g1, x), (g2, y) = t.a[0]
    lt = order_bdd(x, y, 0)
    gt = order_bdd(x, y, 2)
    if lt < 2:
        return t
    eq = order_bdd(x, y, 1)
    if b_not(g1) == g2:
        if g1 in (lt, b_or(lt, eq)):
            return minmax("min", x, y)
        if g1 in (gt, b_or(gt, eq)):
            return minmax("max", x, y)
    return t


# -------------------------------------------------------------------- display
def _short(s):
    if isinstance(s, str):
        import re
        s = re.sub(r"<[^<>]*>", "", s)
        s = re.sub(r"<[^<>]*>", "", s)
        return s.split("::")[-1] if "::" in s else s
    return str(s)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ",".join(sorted(show(x, d + 1) for x in t)) + "}"
        return str(t)
    if d > 12:
        return "…"
    o = t.op
    if o == "num":
        return str(t.a[0]) if t.a[0].denominator < 10**6 else repr(float(t.a[0]))
    if o == "str":
        return repr(t.a[0])
    if o == "arg":
        return t.a[-1]
    if o == "poly":
        out = []
        for m, c in t.a[0]:
            fs = [] if c == 1 and m else [str(c)]
            for x, e in m:
                s = show(x, d + 1)
                fs.append(s if e == 1 else f"{s}^{e}")
            out.append("*".join(fs))
        return "[" + " + ".join(out) + "]"
    if o == "b":
        return "B(" + b_show(t.a[0]) + ")"
    if o == "ite":
        return "ITE{" + "; ".join(b_show(g) + " -> " + show(x, d + 1) for g, x in t.a[0]) + "}"
    if o == "prj":
        k = t.a[1]
        if k[0] == "f":
            return show(t.a[0], d + 1) + "." + str(k[1])
        if k[0] == "v":
            return show(t.a[0], d + 1) + "#" + str(k[1])
        if k[0] in ("cell", "box"):
            return show(t.a[0], d + 1)
        return show(t.a[0], d + 1) + "[" + ",".join((k[0] if i == 0 else show(x, d + 1)) for i, x in enumerate(k)) + "]"
    if o == "deref":
        return "*" + show(t.a[0], d + 1)
    if o == "ref":
        p = "".join("." + str(k[1]) if k[0] == "f" else "<" + ",".join(show(x, d + 1) for x in k) + ">" for k in t.a[1])
        return "&" + show(t.a[0], d + 1) + p
    if o == "agg":
        return _short(t.a[0]) + (f"#{t.a[1]}" if t.a[1] else "") + "{" + ", ".join(f"{k}:{show(v, d+1)}" for k, v in t.a[2]) + "}"
    if o == "upd":
        return show(t.a[0], d + 1) + "{" + ", ".join(show(k, d + 1) + ":=" + show(v, d + 1) for k, v in t.a[1]) + "}"
    if o == "call":
        return _short(t.a[0]) + "(" + ", ".join(show(x, d + 1) for x in t.a[1:]) + ")"
    if o == "isv":
        return f"is({show(t.a[0], d+1)},{show(t.a[1], d+1)})"
    return o + "(" + ", ".join(show(x, d + 1) if isinstance(x, (T, tuple, frozenset)) else _short(x) for x in t.a) + ")"
