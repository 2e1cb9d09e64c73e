"""Interpolators: scalar and vector readings, refusals, and the index searches under them."""
from spec import *
from search import Search

S = arg("self")
M = "math::interpolators::"
LI = M + "linear_interpolator::LinearInterpolator1D"
ST = M + "stepwise_interpolatior::StepwiseInterpolator1D"
CI = M + "stepwise_interpolatior::ConstantInterpolator1D"
BI = M + "bilinear_interpolator::BilinearInterpolator"
SEARCH, SEARCHES = "binary_search_index_ndarray", "vectorized_search_index_for_sorted_ndarray"
SORTED = "util::is_ndarray_sorted"
ROW = LI + " as math::interpolator::InterpolatorReal1D>::interpolate"
NONE_, FLAT, LINEAR = 0, 1, 2


def at_(arr, i):
    return project(arr, ("idx", i))


def lens(x):
    """nodes and values come in equal number (see the constructors)"""
    d, v = mk("len", F(D(S), "domain")), mk("len", F(D(S), "value"))
    return subst(x, lambda z: d if z is v else None)


def ok_(r):
    g, v = ok_part(r)
    if v is None:
        return g, v
    n = mk("len", F(D(S), "value"))
    return b_map(g, lambda l: b_of(lens(l)) if any(z is n for z in walk(l)) else lit(l)), lens(v)


def found(g, name):
    for x in walk(g):
        if x.op == "call" and x.a[0].split("::")[-1] == name:
            yield x


def iff(g, a, b):
    return ite((g, a), (b_not(g), b))


def linear_at(x, index, dom=None, val=None, der=None):
    """(guard where a value is due, value) of the piecewise linear function at x"""
    d, v, s = F(D(S), "domain"), F(D(S), "value"), F(D(S), "derivatives")
    n = mk("len", d)
    last, last2 = add(n, num(-1)), add(n, num(-2))
    ty, allow = F(D(S), "extrapolation_type"), b_of(F(D(S), "allow_extrapolation"))
    below, above = cmp("Lt", x, at_(d, num(0))), cmp("Ge", x, at_(d, last))
    line = lambda i, j: add(at_(v, i), mul(at_(s, j), sub(x, at_(d, i))))
    left = iff(is_v(ty, LINEAR, 3), line(num(0), num(0)), at_(v, num(0)))
    right = iff(is_v(ty, LINEAR, 3), line(last, last2), at_(v, last))
    outside = b_or(below, above)
    due = b_or(b_not(outside), b_and(allow, b_not(is_v(ty, NONE_, 3))))
    return due, iff(below, left, iff(above, right, line(index, index)))


def step_at(x, index):
    d, v = F(D(S), "domain"), F(D(S), "value")
    last = add(mk("len", d), num(-1))
    allow = b_of(F(D(S), "allow_extrapolation"))
    below, above = cmp("Lt", x, at_(d, num(0))), cmp("Gt", x, at_(d, last))
    le, re = F(D(S), "left_extrapolation_value"), F(D(S), "right_extrapolation_value")
    left = iff(is_v(le, 1), V(le, 1), at_(v, num(0)))
    right = iff(is_v(re, 1), V(re, 1), at_(v, last))
    return b_or(b_not(b_or(below, above)), allow), iff(below, left, iff(above, right, at_(v, index)))


def answers(ck, key, r, due, want, care=TRUE, hyp=()):
    """Ok(want) exactly where a value is due, up to where the property leaves it open"""
    g, v = ok_(r)
    if v is None:
        return ck.fail(key, "no value is returned")
    m = differ(v, want, b_and(care, b_and(g, due)), hyp)
    ck.ob(key + ":value", m is None, m or "")
    miss = b_and(care, b_and(due, b_not(g)))
    ck.ob(key + ":answers", never(miss, hyp), "refused although it can be answered, when " + b_show(b_valid(miss))[:300])
    more_ = b_and(care, b_and(g, b_not(due)))
    ck.ob(key + ":refuses", never(more_, hyp), "answered although it lies outside and must not be extrapolated, when " + b_show(b_valid(more_))[:300])


def scalar(ck, q, path, model, what):
    ck.fn(path)
    r = run(q, path, opaque=(SEARCH,))
    x = arg("x")
    idx = mk("call", "utils::find_index_ndarray::" + SEARCH, F(D(S), "domain"), x)
    for y in found(mk("tuple", *[z for _, z in cases(r.ret)]), SEARCH):
        idx = y
        ck.ob(what + ":search", y.a[1] is F(D(S), "domain") and y.a[2] is x, "searched in something else than the domain: " + str(show(y))[:200])
    due, want = model(x, idx)
    sane = cmp("Le", at_(F(D(S), "domain"), num(0)), at_(F(D(S), "domain"), add(mk("len", F(D(S), "domain")), num(-1))))
    answers(ck, what, r, due, want, sane)


def refusals(g):
    """the element-wise conditions under which a walk is abandoned, as found in the guard of success"""
    out = []
    for l in b_lits(g):
        y = l.a[0] if l.op in ("isv", "isz") else l
        if y.op == "exists":
            out.append((l, y.a[0], b_of(y.a[1])))
        elif y.op == "loopx":
            out.append((l, y.a[0], any_of(b_of(c) for c in y.a[1])))
    return out


def any_of(gs):
    out = FALSE
    for g in gs:
        out = b_or(out, g)
    return out


def vector(ck, q, path, model, what):
    """element i of the answer is the scalar reading of element i; refused iff one of them is"""
    ck.fn(path)
    r = run(q, path, opaque=(SEARCH, SEARCHES))
    xs, d = D(arg("x")), F(D(S), "domain")
    sane = cmp("Le", at_(d, num(0)), at_(d, add(mk("len", d), num(-1))))
    g, v = ok_(r)
    if not ck.ob(what + ":any", v is not None, "no value is returned"):
        return
    place = mk("call", "place")

    def index(x, xi, t):
        """look-ups of element t of xs among the nodes, whichever search found them"""
        def f(z):
            if z.op == "call" and z.a[0].endswith(SEARCH) and z.a[1] is d and z.a[2] is xi:
                return place
            if z.op == "prj" and z.a[0].op == "call" and z.a[0].a[0].endswith(SEARCHES) and z.a[0].a[1:] == (d, xs) and z.a[1] == ("at", t):
                return place
            return None
        return subst(x, f)

    n = 0
    for h, y in cases(v):
        h = b_and(h, g)
        if b_valid(h) == FALSE:
            continue
        n += 1
        if not ck.ob(what + ":walk", y.op == "tab" and y.a[0] is xs, "the answer is not one value per element: " + str(show(y))[:200]):
            continue
        t = mk("ix", xs, "t")
        xi = project(xs, ("at", t))
        due, want = model(xi, place)
        m = differ(index(y.a[1], xi, t), want, b_and(due, sane))
        ck.ob(what + ":value", m is None, m or "")
    ck.ob(what + ":some", n > 0, "no value is returned")
    t = mk("ix", xs, 0)
    due, _ = model(project(xs, ("at", t)), place)
    gone = g
    for l, src, bad in refusals(g):
        if not ck.ob(what + ":refused-by", src is xs, "refused for something else than an element: " + str(show(src))[:200]):
            continue
        x = b_and(sane, b_and(bad, due))
        ck.ob(what + ":answers", never(x), "refused although it can be answered, when " + b_show(b_valid(x))[:300])
        x = b_and(sane, b_and(b_not(bad), b_not(due)))
        ck.ob(what + ":refuses", never(x), "answered although it lies outside and must not be extrapolated, when " + b_show(b_valid(x))[:300])
        gone = b_map(gone, lambda z, l=l: TRUE if z is l else lit(z))
    ck.ob(what + ":checked", b_valid(gone) == FALSE, "elements are not looked at before they are answered, when " + b_show(b_valid(gone))[:300])


def built(ck, q, path, what, due, fields, total=(), opaque=()):
    """Ok of a value with these fields, exactly where due"""
    ck.fn(path)
    r = run(q, path, total, tuple(opaque) + (SORTED,))
    g, v = ok_part(r)
    if not ck.ob(what + ":any", v is not None, "nothing is built"):
        return
    for f, w in fields.items():
        m = differ(F(v, f), w, b_and(g, due))
        ck.ob(f"{what}:{f}", m is None, f"{f}: {m}")
    miss, more_ = b_and(due, b_not(g)), b_and(g, b_not(due))
    ck.ob(what + ":accepts", never(miss), "sound data is refused, when " + b_show(b_valid(miss))[:300])
    ck.ob(what + ":refuses", never(more_), "unsound data is accepted, when " + b_show(b_valid(more_))[:300])


def constructors(ck, q):
    srt = lambda x: b_of(mk("call", SORTED, x))
    d, v = arg("domain"), arg("value")
    n = mk("len", d)
    same = eq(n, mk("len", v))
    src = mk("range", ZERO, sub(n, num(1)))
    ix = mk("ix", src, "t")
    at1 = lambda a: project(a, ("idx", add(ix, num(1))))
    at0 = lambda a: project(a, ("at", ix))
    slope = tab(src, div(sub(at1(v), at0(v)), sub(at1(d), at0(d))))
    built(ck, q, LI + "::new", "linear-new", b_and(same, srt(d)),
          {"domain": d, "value": v, "derivatives": slope, "extrapolation_type": arg("extrapolation_type"), "allow_extrapolation": arg("allow_extrapolation")})
    own = {k: arg(k) for k in ("domain", "value", "allow_extrapolation", "left_extrapolation_value", "right_extrapolation_value")}
    built(ck, q, ST + "::<T>::new", "step-new", b_and(b_and(same, srt(d)), cmp("Gt", n, ZERO)), own)
    td, xi = arg("t_domain"), arg("x_interpolator")
    own = {k: arg(k) for k in ("t_domain_allow_extrapolation", "t_domain_extrapolation_type")}
    built(ck, q, BI + "::new", "bilinear-new", b_and(eq(mk("len", td), mk("len", xi)), srt(td)), {"t_domain": td, "x_interpolator": xi, **own})
    xd, vs = arg("x_domain"), arg("values")
    shape = mk("call", "ndarray::impl_methods::shape", vs)
    side = lambda k: project(D(shape), ("idx", num(k)))
    due = b_and(b_and(cmp("Ge", mk("len", td), num(2)), cmp("Ge", mk("len", xd), num(2))), b_and(eq(mk("len", td), side(0)), eq(mk("len", xd), side(1))))
    it = mk("ix", td, "t")
    x = mk("tuple", *[z for _, z in cases(run(q, BI + "::new_from_rectangle_data", ("LinearInterpolator1D::new",), (SORTED,)).ret)])
    of = lambda tail, dflt: next((z.a[0] for z in walk(x) if z.op == "call" and z.a[0].endswith(tail)), dflt)
    new, row = of("LinearInterpolator1D::new", LI + "::new"), of("::row", None)
    line = mk("call", row, vs, it) if row else mk("row", vs, it)
    rows = tab(td, mk("call", new, xd, line, arg("x_domain_extrapolation_type"), arg("x_domain_allow_extrapolation")))
    built(ck, q, BI + "::new_from_rectangle_data", "bilinear-table", b_and(due, srt(td)), {"t_domain": td, "x_interpolator": rows, **own}, total=("LinearInterpolator1D::new",))
    # sortedness itself
    ck.fn(SORTED)
    r = run(q, SORTED)
    a = D(arg("arr"))
    src = mk("range", ZERO, sub(mk("len", a), num(1)))
    ix = mk("ix", src, 0)
    down = cmp("Gt", project(a, ("at", ix)), project(a, ("idx", add(ix, num(1)))))
    w = b_not(lit(mk("exists", src, bool_t(down))))
    m = differ(r.ret, bool_t(w), r.g)
    ck.ob("sorted", m is None, f"order is judged otherwise: {m} {str(show(r.ret))[:200]}")


def bilinear(ck, q):
    p = BI + "::interpolate"
    ck.fn(p)
    r = run(q, p, total=(ROW,), opaque=(SEARCH,))
    d, rows = F(D(S), "t_domain"), F(D(S), "x_interpolator")
    ty, allow = F(D(S), "t_domain_extrapolation_type"), b_of(F(D(S), "t_domain_allow_extrapolation"))
    x, y = arg("t"), arg("x")
    n = mk("len", d)
    idx = mk("call", "utils::find_index_ndarray::" + SEARCH, d, x)
    for z in found(mk("tuple", *[z for _, z in cases(r.ret)]), SEARCH):
        idx = z
        ck.ob("bilinear:search", z.a[1] is d and z.a[2] is x, "searched in something else than the times: " + str(show(z))[:200])
    name = next((z.a[0] for _, v in cases(r.ret) for z in walk(v) if z.op == "call" and z.a[0].endswith("::interpolate")), ROW)
    row = lambda i: mk("call", name, project(rows, ("idx", i)), y)
    line = lambda i, j: add(row(i), div(mul(sub(x, at_(d, i)), sub(row(j), row(i))), sub(at_(d, j), at_(d, i))))
    last, last2 = add(n, num(-1)), add(n, num(-2))
    below, above = cmp("Lt", x, at_(d, num(0))), cmp("Ge", x, at_(d, last))
    left = iff(is_v(ty, LINEAR, 3), line(num(0), num(1)), row(num(0)))
    right = iff(is_v(ty, LINEAR, 3), line(last, last2), row(last))
    want = iff(below, left, iff(above, right, line(idx, add(idx, num(1)))))
    due = b_or(b_not(b_or(below, above)), b_and(allow, b_not(is_v(ty, NONE_, 3))))
    sane = cmp("Le", at_(d, num(0)), at_(d, last))
    answers(ck, "bilinear", r, due, want, sane)


def constant(ck, q):
    T_ = f"<{CI} as math::interpolator::Interpolator1D<T>>::"
    for fn in ("interpolate", "vectorized_interpolate_for_sorted_ndarray"):
        ck.fn(T_ + fn)
    v = F(D(S), "value")
    returns(ck, "constant", run(q, T_ + "interpolate"), v, must=TRUE)
    r = run(q, T_ + "vectorized_interpolate_for_sorted_ndarray")
    g, x = ok_part(r)
    xs = D(arg("x"))
    okk = g == TRUE and all((y.op == "repeat" and y.a[0] is v and y.a[1] is mk("len", xs)) or (y.op == "tab" and y.a[0] is xs and y.a[1] is v) for _, y in cases(x))
    ck.ob("constant-vector", okk, "not the constant for every element: " + str(show(x))[:200])


def spread(ck, q):
    """a value spread on a grid: all of it, on the two nodes around it in proportion, or on the end node outside"""
    p = "utils::distribute_value::distribute_value_on_vector"
    ck.fn(p)
    r = run(q, p, opaque=("::binary_search_index",))
    vec, loc, val, at = D(arg("vector")), D(arg("vector_location")), arg("value"), arg("value_location")
    n = mk("len", vec)
    due = eq(n, mk("len", loc))
    g, _ = ok_part(r)
    ck.ob("spread:accepts", never(b_and(due, b_not(g))), "a grid of as many nodes is refused")
    ck.ob("spread:refuses", never(b_and(g, b_not(due))), "a grid of another size is accepted")
    last = sub(n, num(1))
    low, high = cmp("Le", at, at_(loc, num(0))), cmp("Ge", at, at_(loc, last))
    inside = b_and(b_not(low), b_not(high))
    due = b_and(due, cmp("Gt", n, ZERO))
    idx = None
    stores = [e for e in r.events if e.kind == "store"]
    for e in stores:
        for y in walk(mk("tuple", *e.args)):
            if y.op == "call" and y.a[0].endswith("::binary_search_index"):
                idx = y
                ck.ob("spread:search", y.a[1] is loc and y.a[2] is at, "searched elsewhere: " + str(show(y))[:200])
    if not ck.ob("spread:inside", idx is not None, "values between nodes are not placed"):
        return
    nxt = add(idx, num(1))
    right = div(sub(at, at_(loc, idx)), sub(at_(loc, nxt), at_(loc, idx)))
    want = [(b_and(due, low), num(0), val), (b_and(due, b_and(b_not(low), high)), last, val),
            (b_and(due, inside), idx, mul(sub(num(1), right), val)), (b_and(due, inside), nxt, mul(right, val))]
    left = [w[0] for w in want]
    for e in stores:
        ref = e.args[0]
        t = ref.a[1][-1][1] if ref.op == "ref" and ref.a[0] is mk("obj", arg("vector")) and len(ref.a[1]) == 1 else None
        hit = False
        for k, (w, i, x) in enumerate(want):
            if t is i and b_valid(b_and(e.guard, w)) != FALSE:
                m = differ(sub(e.args[1], e.args[2]), x, b_and(e.guard, w))
                ck.ob("spread:amount", m is None, f"another share: {m}")
                hit = True
                left[k] = b_and(left[k], b_not(e.guard))
        out = e.guard
        for w, i, _ in want:
            if t is i:
                out = b_and(out, b_not(w))
        ck.ob("spread:place", hit and never(out), "something is added elsewhere: " + str(show(ref))[:200])
    ck.ob("spread:all", all(never(x) for x in left), "a share is not added")


def searches(ck, q):
    """both searches, for slices and for arrays, answer the last node not above the value (the first node before the first)"""
    U = "utils::find_index"
    for mod, a1, a2, one, many in (("", "vec", "search_vec", "binary_search_index", "vectorized_search_index_for_sorted_vector"),
                                   ("_ndarray", "arr", "search_arr", SEARCH, SEARCHES)):
        p = f"{U}{mod}::{one}"
        ck.fn(p)
        A = D(arg(a1))
        r = run(q, p)
        s = Search(r, A, [arg("value")])
        P = s.P[arg("value")]
        s.induct(P)
        ck.ob(one + ":answer", s.is_target(r.g, r.ret, P), "for some value the answer is not the last node not above it (the first node before the first)")
        ck.ob(one + ":ends", not s.ends(), "some pass brings the search no closer to its end")
        p = f"{U}{mod}::{many}"
        ck.fn(p)
        X = D(arg(a2))
        r = run(q, p, opaque=("::" + one,))
        ix = mk("ix", X, 0)
        i = lambda t: project(X, ("idx", t))
        vals = [i(num(0)), project(X, ("at", ix)), i(add(ix, num(1))), i(add(mk("len", X), num(-1)))]
        s = Search(r, A, vals, one)
        P = s.P[vals[1]]
        s.induct(P, s.P[vals[2]])
        n = 0
        for g, x in cases(r.ret):
            if not ck.ob(many + ":walk", x.op == "tab" and x.a[0] is X, "not one answer per value: " + str(show(x))[:200]):
                continue
            n += 1
            body = subst(x.a[1], lambda z: ix if z is mk("ix", X, "t") else None)
            for h, y in cases(body):
                ck.ob(many + ":answer", s.is_target(b_and(g, h), y, P), f"{str(show(y))[:100]} is not always the last node not above the value")
        ck.ob(many + ":any", n > 0, "nothing is answered")
        ck.ob(many + ":ends", not s.ends(), "some pass brings the search no closer to its end")


def Q23(ck, q, t, meta):
    """Scalar readings (linear, step, constant, bilinear) compared as guarded normal forms with the piecewise function: node value plus slope
    times distance inside, flat / linear / given values outside iff extrapolation is allowed, refused otherwise.  Vector readings: one value per
    element, equal to the scalar reading of that element, refused iff an element is.  Constructors: fields, slopes, and exactly sound data
    accepted.  Index searches: loop invariants found by elimination of candidates over linear facts (place of the value in a strictly
    increasing array), the answer is the last node not above the value, and every pass shortens the search."""
    scalar(ck, q, f"<{LI} as math::interpolator::InterpolatorReal1D>::interpolate", linear_at, "linear")
    scalar(ck, q, f"<{ST}<T> as math::interpolator::Interpolator1D<T>>::interpolate", step_at, "step")
    vector(ck, q, f"<{LI} as math::interpolator::InterpolatorReal1D>::vectorized_interpolate_for_sorted_ndarray", linear_at, "linear-vector")
    vector(ck, q, f"<{ST}<T> as math::interpolator::Interpolator1D<T>>::vectorized_interpolate_for_sorted_ndarray", step_at, "step-vector")
    constant(ck, q)
    bilinear(ck, q)
    constructors(ck, q)
    spread(ck, q)
    searches(ck, q)
