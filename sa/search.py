"""Index searches in sorted arrays: loop invariants relating carried indices to the
place of the value looked for, found by elimination of candidates (Houdini) over
linear facts.  P(v) is the number of elements <= v of the array, so that for a
strictly increasing array  a[t] > v <=> t >= P  and  a[t] <= v <=> t <= P - 1."""
from itertools import product
from fractions import Fraction
from linear import *
from spec import *


def integer(fs):
    """strict integer facts made sharp"""
    return [({**p, (): p.get((), 0) - 1}, ">=") if k == ">" else (p, k) for p, k in fs]


class Search:
    def __init__(self, r, arr, values, finder=None):
        """values: terms looked for, in increasing order; finder: name of an opaque search in arr"""
        self.r, self.arr, self.values, self.finder = r, arr, list(values), finder
        self.P = {v: mk("name", "place", i) for i, v in enumerate(self.values)}
        self.n = mk("len", arr)
        self.ctxs = []
        for e in r.events:
            for c in e.loops:
                if not any(c is d for d in self.ctxs):
                    self.ctxs.append(c)
        self.ctxs += [c for c in getattr(r, "loops", []) if not any(c is d for d in self.ctxs)]
        self.inv = {}
        for c in self.ctxs:
            for m in c.init:
                if m.op == "mu":
                    self.inv[m] = self.candidates()

    # linear terms --------------------------------------------------------
    def poly(self, x):
        return {m: Fraction(c) for m, c in to_poly(x).items()}

    def candidates(self):
        """(coefficient of x, of P, of n, constant) with value >= 0"""
        out = [(1, 0, 0, 0)]
        for c in (-1, 0, 1):
            out += [(1, -1, 0, c), (-1, 1, 0, c), (-1, 0, 1, c)]
        return out + ["<=", ">="]

    def fact(self, cand, x, P, zero=None):
        """the candidate as a linear term >= 0; "<=", ">=": against the index answered for P"""
        if isinstance(cand, str):
            T_ = ZERO if zero is not None and zero[P] else sub(P, num(1))
            return sub(T_, x) if cand == "<=" else sub(x, T_)
        a, b, d, c = cand
        return add(mul(num(a), x), mul(num(b), P), mul(num(d), self.n), num(c))

    # facts of a path ------------------------------------------------------
    def reads(self, p):
        """(index, value, sign) if the polynomial compares an element of the array with a value looked for"""
        el, v = [], []
        for m, c in p.items():
            if m == ():
                if c:
                    return None
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            a = m[0][0]
            if a.op == "prj" and a.a[0] is self.arr and a.a[1][0] in ("idx", "at"):
                el.append((a.a[1][1], c))
            elif a in self.P:
                v.append((a, c))
            else:
                return None
        if len(el) == 1 and len(v) == 1 and el[0][1] == -v[0][1]:
            return el[0][0], v[0][0], (1 if el[0][1] > 0 else -1)
        return None

    def facts(self, cube):
        out, plain = [], {}
        grp = {}
        for l, b in cube.items():
            if l.op == "isv" and l.a[0].op == "cmp":
                grp.setdefault(l.a[0], {})[l.a[1]] = b
        for s, d in grp.items():
            p = self.poly(s.a[0])
            hit = self.reads(p)
            if hit is None:
                for k, b in d.items():
                    plain[next(l for l in cube if l.op == "isv" and l.a[0] is s and l.a[1] == k)] = b
                continue
            t, v, sg = hit
            pos = [k for k, b in d.items() if b]
            signs = set(pos) if pos else {k for k in (0, 1, 2) if d.get(k) is not False}
            if sg < 0:
                signs = {2 - k for k in signs}
            P = self.P[v]
            if signs == {1}:
                out.append((self.poly(sub(sub(P, num(1)), t)), "=="))
            elif signs <= {0, 1}:
                out.append((self.poly(sub(sub(P, num(1)), t)), ">="))
            elif signs == {2}:
                out.append((self.poly(sub(t, P)), ">="))
            elif signs == {1, 2}:
                out.append((self.poly(add(t, num(1), mul(num(-1), P))), ">="))
        plain.update({l: b for l, b in cube.items() if l.op == "isz"})
        return out + integer(facts_of(plain))

    def background(self, fs):
        """what holds of the atoms that occur"""
        out = [(self.poly(sub(self.n, num(1))), ">=")]
        ps = [self.P[v] for v in self.values]
        for a, b in zip(ps, ps[1:]):
            out.append((self.poly(sub(b, a)), ">="))
        for a in ps:
            out.append((self.poly(a), ">="))
            out.append((self.poly(sub(self.n, a)), ">="))
        seen = set()
        todo = list(fs)
        while todo:
            p, _ = todo.pop()
            for m in p:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    new = []
                    if a.op == "idiv":
                        u, w = a.a[0], a.a[1]
                        new = [(self.poly(sub(u, mul(w, a))), ">="), (self.poly(add(mul(w, a), w, num(-1), mul(num(-1), u))), ">=")]
                    if a in self.inv:
                        for c in self.inv[a]:
                            if isinstance(c, str):
                                continue
                            new.append((self.poly(self.fact(c, a, self.current)), ">="))
                    if a.op == "len" or a.op == "ix":
                        new.append((self.poly(a), ">="))
                    out += new
                    todo += new
        return out

    def splits(self, fs):
        """the places known to be at or past the first element; searches give one less"""
        calls = {a for p, _ in fs for m in p for a, _ in m if a.op == "call" and self.finder and a.a[0].split("::")[-1] == self.finder}
        ps = [self.P[v] for v in self.values]
        for zero in product((True, False), repeat=len(ps)):
            more = []
            for z, P in zip(zero, ps):
                more.append((self.poly(P), "==") if z else (self.poly(sub(P, num(1))), ">="))
            for a in calls:
                if a.a[1] is self.arr and a.a[2] in self.P:
                    P = self.P[a.a[2]]
                    z = zero[ps.index(P)]
                    more.append((self.poly(a if z else sub(a, sub(P, num(1)))), "=="))
            zero = dict(zip(ps, zero))
            for a in {a for p, _ in fs for m in p for a, _ in m if a in self.inv}:
                more += [(self.poly(self.fact(c, a, self.current, zero)), ">=") for c in self.inv[a] if isinstance(c, str)]
            yield zero, more

    def cubes(self, g):
        """cubes of a guard, with the exit of a loop spelled out"""
        out = []
        for c in b_cubes(b_valid(g), 2000):
            alts = [TRUE]
            loops = {}
            for l, b in c.items():
                if l.op == "isv" and l.a[0].op == "loopx":
                    loops.setdefault(l.a[0], {})[l.a[1]] = b
            x = TRUE
            for y, d in loops.items():
                conds = [b_of(z) for z in y.a[1]]
                yes = [k for k, b in d.items() if b]
                no = {k for k, b in d.items() if not b}
                some = FALSE
                for k, z in enumerate(conds):
                    if (yes and k in yes) or (not yes and k not in no):
                        some = b_or(some, z)
                x = b_and(x, some)
            base = {l: b for l, b in c.items() if not (l.op == "isv" and l.a[0].op == "loopx")}
            if x == TRUE:
                out.append(base)
            else:
                h = x
                for l, b in base.items():
                    h = b_and(h, lit(l) if b else b_not(lit(l)))
                out += b_cubes(b_valid(h), 2000)
        return out

    def left(self, g, x, ctx):
        """what holds of the loops already left whose carried values are used"""
        used = {z for z in list(walk(bool_t(g))) + list(walk(x)) if z.op == "mu"}
        for d in self.ctxs:
            if d is ctx or d.src is not None or (ctx is not None and d.depth < ctx.depth) or not used & set(d.init):
                continue
            out = FALSE
            for _, e in d.exits:
                out = b_or(out, e)
            g = b_and(g, out)
        return g

    def alts(self, x):
        for h, y in cases(x):
            if y.op in ("max", "min"):
                a, b = y.a
                up = cmp("Ge", a, b) if y.op == "max" else cmp("Le", a, b)
                yield b_and(h, up), a
                yield b_and(h, b_not(up)), b
            else:
                yield h, y

    def holds(self, g, x, goal, ctx=None):
        """goal(value, zero) >= 0 (linear) for every case of x under g"""
        g = self.left(g, x, ctx)
        for h, y in self.alts(x):
            for c in self.cubes(b_and(g, h)):
                fs = self.facts(c)
                ask = [(self.poly(goal(y, None)), ">="), (self.poly(y), ">=")]
                base = fs + self.background(fs + ask)
                for zero, more in self.splits(base + ask):
                    w = self.poly(goal(y, zero))
                    w = {m: -k for m, k in w.items()}
                    w[()] = w.get((), 0) - 1
                    if not empty(base + more + [(w, ">=")]):
                        return False
        return True

    def induct(self, current, after=None):
        """drop the candidates that do not hold initially or are not kept; `after`: place of the value of the next pass"""
        self.current = current
        while True:
            drop = []
            for c in self.ctxs:
                for m in [m for m in c.init if m in self.inv]:
                    for cand in self.inv[m]:
                        ok_ = self.holds(c.hguard, c.init[m], lambda y, z, k=cand: self.fact(k, y, self.current, z), c)
                        if ok_ and c.next.get(m) is not None:
                            nxt = after if (after is not None and c.src is not None) else self.current
                            ok_ = self.holds(c.backguard, c.next[m], lambda y, z, k=cand, P=nxt: self.fact(k, y, P, z), c)
                        if not ok_:
                            drop.append((m, cand))
            if not drop:
                return
            for m, cand in drop:
                self.inv[m] = [k for k in self.inv[m] if k != cand]

    def is_target(self, g, x, P):
        """x = P - 1, or 0 before the first element"""
        def up(y, zero):
            return sub(y, ZERO if zero is not None and zero[P] else sub(P, num(1)))

        def down(y, zero):
            return sub(ZERO if zero is not None and zero[P] else sub(P, num(1)), y)
        return self.holds(g, x, up) and self.holds(g, x, down)

    def ends(self):
        """every loop without a source: some distance shrinks in every pass and cannot shrink for ever"""
        bad = []
        for c in self.ctxs:
            if c.src is not None:
                continue
            ms = [m for m in c.init if m in self.inv]
            upper = [(m, self.n, num(1)) for m in ms] + [(a, b, num(1)) for a in ms for b in ms if a is not b]
            ok_ = False
            for a, b, k in upper:
                nx = lambda t: c.next[t] if t in c.init and c.next.get(t) is not None else t
                d1 = lift(lambda u, w: sub(w, u), nx(a), nx(b))
                shrink = self.holds(c.backguard, d1, lambda y, z, a=a, b=b: sub(sub(sub(b, a), num(1)), y), c)
                low = self.holds(c.backguard, sub(b, a), lambda y, z: add(y, num(1)), c)
                if shrink and low:
                    ok_ = True
                    break
            if not ok_:
                bad.append(c)
        return bad
