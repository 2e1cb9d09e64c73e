"""Gated value-flow analysis over MIR.

A forward dataflow analysis that computes, for one entry function with its local
callees inlined, the value of every place as a hash-consed term, with values
merged (gated) at control-flow joins and loops solved by a fixpoint that widens
every loop-modified place to a loop symbol.  Nothing is executed and no path is
enumerated or handed to a solver: each block is visited once per fixpoint round.

Results: return value, final memory, the ordered list of events (calls, heap
stores, panics, bounds checks, borrows), each with the guard (BDD) under which it
is reached.
"""
import json
import os
import re
from fractions import Fraction

import terms
from terms import *
from facts import cfg

OPTION = "std::option::Option"
RESULT = "std::result::Result"
CFLOW = "std::ops::ControlFlow"
ORDERING = "std::cmp::Ordering"


def norm(p):
    """drop generic argument segments from a path"""
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s


def some(v):
    return mk("agg", OPTION, 1, (("0", v),))


NONE = mk("agg", OPTION, 0, ())


def ok(v):
    return mk("agg", RESULT, 0, (("0", v),))


def err(v):
    return mk("agg", RESULT, 1, (("0", v),))


def tup(*vs):
    return mk("agg", "tuple", 0, tuple((str(i), v) for i, v in enumerate(vs)))


def arr(vs):
    return mk("agg", "array", 0, tuple((str(i), v) for i, v in enumerate(vs)))


EMPTY = arr([])


def length(v):
    def f(x):
        if x.op == "agg" and x.a[0] == "array":
            return num(len(x.a[2]))
        if x.op == "upd":
            return dict(x.a[1]).get(("f", "#len")) or f(x.a[0])
        if x.op == "emptymap":
            return ZERO
        if x.op == "repeat":
            return x.a[1]
        if x.op == "push":
            return p_add(length(x.a[0]), ONE)
        if x.op == "str":
            return num(len(x.a[0].encode()))
        if x.op in ("revsrc", "tab"):
            return length(x.a[0])
        if x.op == "ovr":
            return length(x.a[2])
        if x.op == "range":
            return p_sub(x.a[1], x.a[0])
        if x.op == "seqof":
            return mk("sum", x.a[0], mk_ite([(g, ZERO if y.op == "skip" else ONE) for g, y in cases(x.a[1])]))
        if x.op == "extend":
            return p_add(length(x.a[0]), length(x.a[1]))
        if x.op == "prj" and x.a[1][0] == "rng":
            return p_sub(x.a[1][2], x.a[1][1])
        return mk("len", x)
    return lift(f, v)


import terms as _terms
_terms.LENGTH[0] = length


def b_undermore(v, ctx):
    """a per-pass value without the test that there is a pass"""
    return mk_ite([(b_simplify(g, ctx.more), x) for g, x in cases(v)]) if v.op == "ite" else v


def before_form(v, ctx):
    """value of a closed accumulator at the beginning of the pass at ctx.ix"""
    cs = []
    for g, x in cases(v):
        d = to_poly(x)
        fs = None
        if len(d) == 1:
            (m, c), = d.items()
            fs = [(a, e) for a, e in m if a.op == "prod" and a.a[0] is ctx.src]
        if fs:
            if len(fs) != 1 or fs[0][1] != 1:
                return None
            a = fs[0][0]
            cs.append((g, p_mul(p_div(x, a), mk("before", "prod", a.a[0], a.a[1], ctx.ix))))
            continue
        ss = {a for m in d for a, e in m if a.op == "sum" and a.a[0] is ctx.src}
        if len(ss) == 1 and x.op in ("sum", "poly"):
            a = ss.pop()
            if d.get(((a, 1),)) == 1:
                cs.append((g, p_add(p_sub(x, a), mk("before", "sum", a.a[0], a.a[1], ctx.ix))))
                continue
            return None
        if not contains(x, lambda y: y.op in ("sum", "prod", "seqof", "tab", "ovr", "extend") and y.a[0] is ctx.src):
            cs.append((g, x))
            continue
        return None
    return mk_ite(cs) if cs else None


def deep(v, inpass):
    """rewrite the bodies of closed forms"""
    def f(z):
        if z.op in ("sum", "prod", "seqof", "tab", "ovr", "exists"):
            return mk(z.op, z.a[0], inpass(z.a[1]), *z.a[2:])
        return None
    return subst(v, f)


class State:
    __slots__ = ("g", "mem")

    def __init__(self, g, mem):
        self.g = g
        self.mem = mem

    def copy(self):
        return State(self.g, dict(self.mem))


class Event:
    __slots__ = ("kind", "name", "args", "guard", "seq", "span", "fn", "stack", "loops", "res", "info", "mem")

    def __repr__(self):
        return f"<{self.seq} {self.kind} {self.name} args={self.args} if {b_show(self.guard)}>"


class Frame:
    __slots__ = ("body", "fid", "subst", "stack", "exits")


class LoopCtx:
    def __init__(self, name, depth):
        self.name = name
        self.depth = depth
        self.end = {}
        self.after = {}
        self.passes = []
        self.closedform = {}
        self.post = []
        self.srcs = {}  # (root,path) of the iterator -> (src, d)
        self.init = {}
        self.next = {}
        self.mus = {}
        self.src = None
        self.hguard = TRUE
        self.exits = []
        self.stack = ()


class Blowup(Exception):
    pass


def default(root):
    if root.op == "obj":
        return mk("deref", root.a[0])
    if root.op == "const":
        return root.a[0]
    if root.op == "static":
        return root
    return UNINIT


def merge(states):
    states = [s for s in states if s.g != FALSE]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    g = b_any([s.g for s in states])
    m0 = states[0].mem
    out = dict(m0)
    keys = set()
    for s in states[1:]:
        if s.mem is m0:
            continue
        for k, v in s.mem.items():
            if m0.get(k) is not v:
                keys.add(k)
        if len(s.mem) < len(m0):
            for k in m0:
                if k not in s.mem:
                    keys.add(k)
    for k in keys:
        vs = []
        for s in states:
            v = s.mem.get(k)
            if v is None:
                v = default(k)
            vs.append((s.g, v))
        out[k] = norm_minmax(mk_ite(vs))
    return State(g, out)


def _argnames():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "argnames.json")
    return json.load(open(p)) if os.path.exists(p) else {}


ARGNAMES = _argnames()


class Interp:
    def __init__(self, crate, inline=None, opaque=None, models=None, max_depth=24, budget=400000, devirt=None):
        self.crate = crate
        self.inline = inline or (lambda body: True)
        self.opaque = opaque or (lambda body: False)
        self.closers = ()
        self.models = models or {}
        self.max_depth = max_depth
        self.events = []
        self.quiet = 0
        self.unroll = 0
        self.seq = 0
        self.fids = 0
        self.loopstack = []
        self.loops = []
        self.steps = 0
        self.budget = budget
        self.devirt = devirt
        self.uid = 0
        self.unknown = {}
        self.cval_memo = {}
        self.total = ()  # functions assumed to return Ok
        self.snap = ()  # event kinds that record the memory state
        self.sites = []  # call sites from the entry point to the current frame
        self.instances = {}  # loop name -> {call-site path: instance number}

    # ------------------------------------------------------------ entry point
    def analyze(self, body, args=None, pre=None, g=TRUE, mem=None):
        """run the analysis on `body` with symbolic arguments; returns Result"""
        st = State(g, dict(mem or {}))
        names = self.arg_names(body)
        if args is None:
            args = [mk("arg", n) for n in names]
        self.args = args
        if pre:
            pre(self, st, args)
        ret = self.call_body(st, body, args, {}, ())
        return Result(self, body, st, ret)

    def arg_names(self, body):
        """names of the parameters; those the specs know them by, whatever they are called now"""
        n = {}
        known = ARGNAMES.get(f"{self.crate.name}:{body['path']}")
        if known is not None and len(known) == body["args"]:
            return list(known)
        for name, pl, ai in body["debug"]:
            if ai is not None and ai not in n:
                n[ai] = name
            if ai is None and not pl[1] and 1 <= pl[0] <= body["args"]:
                n.setdefault(pl[0], name)
        return [n.get(i, f"arg{i}") for i in range(1, body["args"] + 1)]

    # ------------------------------------------------------------------ types
    def ty(self, i, fr=None):
        t = self.crate.types[i]
        if t["k"] == "param" and fr is not None and t["name"] in fr.subst:
            return self.crate.types[fr.subst[t["name"]]]
        return t

    def adt_of(self, i):
        t = self.crate.types[i]
        if t["k"] == "adt":
            return self.crate.adts.get(t["key"])
        return None

    # ----------------------------------------------------------------- memory
    def read(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = default(root)
            if root.op == "static":
                v = self.static_value(root)
        return under(project_path(v, path), st.g)

    def static_value(self, root):
        c = self.crate.consts_by_path.get(root.a[0])
        if c and not c.get("mut"):
            v = self.constval(c["val"], c["ty"])
            if v.op not in ("kopaque",):
                return mk("staticval", root.a[0]) if v.op == "agg" and v.a[0] not in ("array", "tuple") else v
        return mk("staticval", root.a[0])

    def write(self, st, root, path, v):
        cur = st.mem.get(root)
        if cur is None:
            cur = default(root) if root.op != "static" else mk("staticval", root.a[0])
        st.mem[root] = update(cur, path, v) if path else v

    def targets(self, v):
        """[(guard, root, path)] of a pointer value"""
        out = []
        for g, x in cases(v):
            if x.op == "ref":
                out.append((g, x.a[0], x.a[1]))
            elif x.op == "uninit":
                continue
            else:
                out.append((g, mk("obj", x), ()))
        return out

    def load(self, st, ptr):
        ts = [(g, r, p) for g, r, p in self.targets(ptr) if b_and(g, st.g) != FALSE]
        if len(ts) == 1:
            return self.read(st, ts[0][1], ts[0][2])
        return under(mk_ite([(g, self.read(st, r, p)) for g, r, p in ts]), st.g)

    def store(self, st, ptr, v):
        self.store_cases(st, [t for t in self.targets(ptr) if b_and(t[0], st.g) != FALSE], v)

    def store_cases(self, st, ts, v):
        if len(ts) == 1:
            self.write(st, ts[0][1], ts[0][2], v)
        else:
            for g, r, p in ts:
                old = self.read(st, r, p)
                self.write(st, r, p, mk_ite([(g, v), (b_not(g), old)]))

    def place(self, fr, st, pl):
        """-> [(guard, root, path)]"""
        local, proj, _ = pl
        cur = [(TRUE, mk("loc", fr.fid, local), ())]
        for e in proj:
            k = e[0]
            if k == "*":
                nxt = []
                for g, r, p in cur:
                    v = self.read(st, r, p)
                    for g2, r2, p2 in self.targets(v):
                        gg = b_and(g, g2)
                        if b_and(gg, st.g) != FALSE:
                            nxt.append((gg, r2, p2))
                cur = nxt
                continue
            if k == "f":
                el = ("f", e[2])
            elif k == "d":
                el = ("v", e[1])
            elif k == "i":
                iv = self.read(st, mk("loc", fr.fid, e[1]), ())
                nxt = []
                for g, r, p in cur:
                    for g2, x in cases(iv):
                        gg = b_and(g, g2)
                        if b_and(gg, st.g) != FALSE:
                            nxt.append((gg, r, p + (ix_el(x),)))
                cur = nxt
                continue
            elif k == "ci":
                if e[3]:
                    cur = [(g, r, p + (("idx", p_sub(length(self.read(st, r, p)), num(e[1]))),)) for g, r, p in cur]
                    continue
                el = ("idx", num(e[1]))
            elif k == "s":
                nxt = []
                for g, r, p in cur:
                    hi = p_sub(length(self.read(st, r, p)), num(e[2])) if e[3] else num(e[2])
                    nxt.append((g, r, p + (("rng", num(e[1]), hi),)))
                cur = nxt
                continue
            else:
                el = ("?",)
            cur = [(g, r, p + (el,)) for g, r, p in cur]
        return cur

    def read_place(self, fr, st, pl):
        cs = self.place(fr, st, pl)
        if len(cs) == 1:
            return self.read(st, cs[0][1], cs[0][2])
        return under(mk_ite([(g, self.read(st, r, p)) for g, r, p in cs]), st.g)

    def write_place(self, fr, st, pl, v, span=None):
        cs = self.place(fr, st, pl)
        if not self.quiet and pl[1] and any(r.op != "loc" for _, r, _ in cs):
            for g, r, p in cs:
                self.event("store", "store", [mk("ref", r, p), v, self.read(st, r, p)], st, span, fr, extra_guard=g)
        elif not self.quiet:
            # element of an array owned by the function
            for g, r, p in cs:
                if p and p[-1][0] in ("idx", "at"):
                    self.event("lstore", "lstore", [mk("ref", r, p), v, self.read(st, r, p)], st, span, fr, extra_guard=g)
        self.store_cases(st, cs, v)

    # --------------------------------------------------------------- constants
    def constval(self, k, tid=None):
        if "int" in k:
            return num(k["int"])
        if "bool" in k:
            return BT if k["bool"] else BF
        if "char" in k:
            return mk("char", k["char"])
        if "float" in k:
            try:
                return num(Fraction(k["float"]))
            except (ValueError, ZeroDivisionError):
                return mk("fconst", k["float"])
        if "str" in k:
            return mk("ref", mk("const", mk("str", k["str"])), ())
        if "unit" in k:
            return UNIT
        if "bytes" in k:
            return arr([num(x) for x in k["bytes"]])
        if "ref" in k:
            return mk("ref", mk("const", self.constval(k["ref"])), ())
        if "array" in k:
            return arr([self.constval(x) for x in k["array"]])
        if "tuple" in k:
            return tup(*[self.constval(x) for x in k["tuple"]])
        if "static" in k:
            return mk("ref", mk("static", k["static"]), ())
        if "closure" in k:
            return mk("closure", k["closure"], ())
        if "adt" in k:
            a = self.crate.adts_by_path.get(k["adt"])
            fs = []
            if a and k["vidx"] < len(a["variants"]):
                names = [f[0] for f in a["variants"][k["vidx"]]["fields"]]
                fs = [(n, self.constval(x)) for n, x in zip(names, k["fields"])]
            return mk("agg", k["adt"], k["vidx"], tuple(fs))
        if "fnref" in k:
            return mk("fnref", k["fnref"], k["fnref"], "item")
        return mk("kopaque", repr(sorted(k.items())))

    def operand(self, fr, st, o):
        if "p" in o:
            return self.read_place(fr, st, o["p"])
        if "fn" in o:
            f = o["fn"]
            return mk("fnref", f.get("r", f["dk"]), f["d"], f.get("rk", "?"))
        if "rt" in o:
            return BF
        key = id(o)
        v = self.cval_memo.get(key)
        if v is None:
            v = self.constval(o["k"], o["ty"])
            if v.op == "kopaque" and "from" in o:
                v = mk("kconst", o["from"])
            self.cval_memo[key] = v
        return v

    def optype(self, fr, o):
        if "p" in o:
            return o["p"][2]
        return o.get("ty")

    # ----------------------------------------------------------------- rvalues
    def binop(self, op, a, b, tid, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        isfloat = ty["k"] == "float"
        isint = ty["k"] == "int"
        if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if isint and not ty["signed"]:
                nonneg(a)
                nonneg(b)
            return compare(base, a, b)
        if ty["k"] == "bool":
            x, y = b_of(a), b_of(b)
            if base == "BitAnd":
                return bool_t(b_and(x, y))
            if base == "BitOr":
                return bool_t(b_or(x, y))
            if base == "BitXor":
                return bool_t(b_ite(x, b_not(y), y))
        fn = {"Add": p_add, "Sub": p_sub, "Mul": p_mul}.get(base)
        if fn:
            r = lift(fn, a, b)
        elif base == "Div" and isfloat:
            r = lift(p_div, a, b)
        elif base in ("Div", "Rem") and isint:
            def idiv(x, y):
                if x.op == "num" and y.op == "num" and y.a[0] != 0:
                    n, d = int(x.a[0]), int(y.a[0])
                    q = abs(n) // abs(d) * (1 if (n < 0) == (d < 0) else -1)
                    return num(q) if base == "Div" else num(n - q * d)
                if y is ONE:
                    return x if base == "Div" else ZERO
                return mk("idiv" if base == "Div" else "irem", x, y)
            r = lift(idiv, a, b)
        elif base == "Rem":
            r = lift(lambda x, y: mk("frem", x, y), a, b)
        elif base == "Cmp":
            r = self.ordering(a, b)
        else:
            def bit(x, y):
                if x.op == "num" and y.op == "num":
                    n, m = int(x.a[0]), int(y.a[0])
                    if base == "BitAnd":
                        return num(n & m)
                    if base == "BitOr":
                        return num(n | m)
                    if base == "BitXor":
                        return num(n ^ m)
                    if base == "Shl" and 0 <= m < 128:
                        v = n << m
                        return num(v & ((1 << ty.get("bits", 64)) - 1) if not ty.get("signed") else v)
                    if base == "Shr" and 0 <= m < 128:
                        return num(n >> m)
                if base in ("BitAnd", "BitOr", "BitXor") and x.id > y.id:
                    x, y = y, x
                return mk("bit", base, x, y, ty.get("bits")) if base == "Shl" else mk("bit", base, x, y)
            r = lift(bit, a, b)
        if op.endswith("WithOverflow"):
            return tup(r, BF)
        return r

    def ordering(self, a, b):
        def f(x, y):
            return mk_ite([(order_bdd(x, y, k), mk("agg", ORDERING, k, ())) for k in (0, 1, 2)])
        return lift(f, a, b)

    def rvalue(self, fr, st, r, destty):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k in ("ref", "rawptr"):
            cs = self.place(fr, st, r[2])
            return under(mk_ite([(g, mk("ref", ro, p) if not (ro.op == "obj" and not p) else ro.a[0]) for g, ro, p in cs]), st.g)
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            tid = self.optype(fr, r[2])
            return self.binop(r[1], a, b, tid, self.ty(tid, fr))
        if k == "un":
            a = self.operand(fr, st, r[2])
            ty = self.ty(self.optype(fr, r[2]), fr)
            if r[1] == "Not":
                if ty["k"] == "bool":
                    return bool_t(b_not(b_of(a)))
                def inv(x):
                    if x.op == "num" and ty["k"] == "int":
                        n = ~int(x.a[0])
                        return num(n if ty["signed"] else n & ((1 << ty["bits"]) - 1))
                    return mk("bit", "Not", x, ty.get("bits"))
                return lift(inv, a)
            if r[1] == "Neg":
                return lift(p_neg, a)
            if r[1] == "PtrMetadata":
                return length(self.load(st, a))
            return mk("un", r[1], a)
        if k == "agg":
            ks = r[1]
            vs = [self.operand(fr, st, o) for o in r[2]]
            if ks[0] == "tuple":
                return tup(*vs) if vs else UNIT
            if ks[0] == "array":
                return arr(vs)
            if ks[0] == "adt":
                if ks[6 - 0] is not None if len(ks) > 6 else False:
                    pass
                names = ks[4]
                if len(ks) > 6 and ks[6] is not None:
                    names = [names[ks[6]]]
                return mk("agg", ks[1], ks[2], tuple(zip(names, vs)))
            if ks[0] == "closure":
                return mk("closure", ks[1], tuple(vs))
            return mk("aggother", *vs)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            return self.cast(r[1], v, self.ty(self.optype(fr, r[2]), fr), self.ty(r[3], fr), fr, st, r)
        if k == "disc":
            v = self.read_place(fr, st, r[1])
            return self.disc(v, r[1][2], fr)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return arr([v] * n)
            return mk("repeat", v, num(n) if n is not None else mk("kopaque", "n"))
        return mk("rv", k, str(r[1:])[:80])

    def disc(self, v, tid, fr):
        t = self.ty(tid, fr)
        adt = self.crate.adts.get(t.get("key")) if t["k"] == "adt" else None

        def f(x):
            if x.op == "agg" and adt and x.a[1] < len(adt["variants"]):
                return num(adt["variants"][x.a[1]]["discr"])
            return mk("disc", x, t.get("key", "?"))
        return lift(f, v)

    def cast(self, kind, v, sty, dty, fr, st, r):
        if kind in ("IntToFloat", "FloatToFloat"):
            return v
        if kind == "IntToInt":
            if sty["k"] == "bool":
                return mk_ite([(b_of(v), ONE), (b_not(b_of(v)), ZERO)])
            if sty["k"] == "int" and dty["k"] == "int":
                wide = dty["bits"] > sty["bits"] or (dty["bits"] == sty["bits"] and sty["signed"] == dty["signed"])
                if wide and not (sty["signed"] and not dty["signed"]):
                    return v

                def f(x):
                    if x.op == "num":
                        n = int(x.a[0]) & ((1 << dty["bits"]) - 1)
                        if dty["signed"] and n >> (dty["bits"] - 1):
                            n -= 1 << dty["bits"]
                        return num(n)
                    if x.op == "disc" or dty["bits"] >= 32:
                        return x  # value-preserving for the magnitudes involved
                    return mk("icast", dty["s"], x)
                return lift(f, v)
            if sty["k"] == "char":
                return lift(lambda x: num(x.a[0]) if x.op == "char" else mk("ord", x), v)
            if dty["k"] == "char":
                return mk("chr", v)
            if sty["k"] == "adt":
                return self.disc(v, self.optype(fr, r[2]), fr)
            return v
        if kind == "FloatToInt":
            return lift(lambda x: num(int(x.a[0])) if x.op == "num" else mk("trunc", x), v)
        if kind == "Transmute" and v.op == "ref" and v.a[1][-3:] and False:
            return v
        if kind in ("Transmute", "PtrToPtr") or kind.startswith("PointerCoercion") or kind in ("BoxDerefTransmute", "Subtype"):
            # Box internals: ((b.0).0).pointer -> pointee
            def f(x):
                if x.op == "prj" and x.a[1] == ("f", "pointer"):
                    y = x.a[0]
                    if y.op == "prj" and y.a[1] == ("f", "0"):
                        return y.a[0] if False else x
                return x
            if kind.startswith("PointerCoercion(ReifyFnPointer") or kind.startswith("PointerCoercion(ClosureFnPointer"):
                return v
            return f(v)
        return v

    # ------------------------------------------------------------------ events
    def event(self, kind, name, args, st, span, fr, res=None, info=None, extra_guard=TRUE):
        if self.quiet:
            return None
        g = b_and(st.g, extra_guard)
        if g == FALSE:
            return None
        e = Event()
        e.kind, e.name, e.args, e.guard = kind, name, args, g
        e.seq = self.seq
        self.seq += 1
        e.span, e.fn = span, fr.body["key"] if fr else None
        e.stack = fr.stack if fr else ()
        e.loops = tuple(self.loopstack)
        e.res, e.info = res, info
        e.mem = dict(st.mem) if self.snap and kind in self.snap else None
        self.events.append(e)
        return e

    def fresh(self, tag):
        self.uid += 1
        return mk("uniq", tag, self.uid)

    # ------------------------------------------------------------- block / CFG
    def call_body(self, st, body, args, subst, stack):
        if len(stack) > self.max_depth:
            raise Blowup("inline depth at " + body["path"])
        fr = Frame()
        fr.body = body
        self.fids += 1
        fr.fid = self.fids
        fr.subst = subst
        fr.stack = stack + (body["key"],)
        for i, a in enumerate(args):
            st.mem[mk("loc", fr.fid, i + 1)] = a
        c = cfg(body)
        exits = self.region(fr, c, set(c.rpo), 0, st, None)
        out = merge([s for _, s in exits])
        if out is None:
            st.g = FALSE
            return UNINIT
        ret = self.read(out, mk("loc", fr.fid, 0), ())
        fid = fr.fid
        st.g = out.g
        st.mem = {k: v for k, v in out.mem.items() if not (k.op == "loc" and k.a[0] == fid)}
        return UNIT if ret.op == "uninit" else ret

    def region(self, fr, c, blocks, start, st, loop):
        """returns exits: [(target | 'ret', state)]; with loop: (back states, exits)"""
        pending = {start: [st]}
        exits = []
        back = []
        for b in c.rpo:
            if b not in blocks or b not in pending:
                continue
            s = merge(pending.pop(b))
            if s is None:
                continue
            if b in c.loops and not (loop is not None and b == start):
                for tgt, s2 in self.loop(fr, c, b, s):
                    if tgt == "ret":
                        exits.append((tgt, s2))
                    elif loop is not None and tgt == start:
                        back.append(s2)
                    elif tgt in blocks:
                        pending.setdefault(tgt, []).append(s2)
                    else:
                        exits.append((tgt, s2))
                continue
            for tgt, s2 in self.block(fr, c, b, s):
                if s2.g == FALSE:
                    continue
                if tgt == "ret":
                    exits.append((tgt, s2))
                elif loop is not None and tgt == start:
                    back.append(s2)
                elif tgt in blocks:
                    pending.setdefault(tgt, []).append(s2)
                else:
                    exits.append((tgt, s2))
        if loop is not None:
            return back, exits
        return exits

    def block(self, fr, c, b, s):
        s = s.copy()
        self.steps += 1
        if self.steps > self.budget:
            raise Blowup("step budget in " + fr.body["path"])
        blk = fr.body["blocks"][b]
        for x in blk["st"]:
            k = x[0]
            if k == "=":
                v = self.rvalue(fr, s, x[2], x[1][2])
                self.write_place(fr, s, x[1], v, x[3])
            elif k == "sd":
                pass
            elif k == "dead":
                s.mem.pop(mk("loc", fr.fid, x[1]), None)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], s)]
        if k == "return":
            return [("ret", s)]
        if k == "switch":
            return self.switch(fr, s, t)
        if k == "drop":
            self.drop(fr, s, t)
            return [(t[2], s)]
        if k == "assert":
            v = self.operand(fr, s, t[1])
            if t[3][0] == "bounds":
                ln, ix = self.operand(fr, s, t[3][1]), self.operand(fr, s, t[3][2])
                self.event("bounds", "bounds", [ix, ln], s, t[5], fr)
            elif t[3][0] in ("divzero", "remzero"):
                self.event("divzero", "divzero", [v], s, t[5], fr)
            elif t[3][0] == "overflow":
                pass
            return [(t[4], s)]
        if k == "call":
            return self.call(fr, s, t)
        return []

    def switch(self, fr, s, t):
        v = self.operand(fr, s, t[1])
        tid = self.optype(fr, t[1])
        ty = self.ty(tid, fr)
        out = []
        rest = TRUE
        tg = {}
        for val, blk in t[2]:
            b = FALSE
            if ty["k"] == "bool":
                b = b_of(v)
                b = b_not(b) if val == 0 else b
            else:
                if ty["k"] == "int" and ty["signed"] and val >> (ty["bits"] - 1):
                    val -= 1 << ty["bits"]
                for g, x in cases(v):
                    b = b_or(b, b_and(g, self.eq_switch(x, val, ty)))
            b = b_and(b, rest)
            rest = b_and(rest, b_not(b))
            tg[blk] = b_or(tg.get(blk, FALSE), b)
        if fr.body["blocks"][t[3]]["t"][0] != "unreachable":
            tg[t[3]] = b_or(tg.get(t[3], FALSE), rest)
        for blk, b in tg.items():
            if fr.body["blocks"][blk]["t"][0] == "unreachable":
                continue
            g = b_and(s.g, b)
            if g != FALSE:
                s2 = s.copy()
                s2.g = g
                out.append((blk, s2))
        return out

    def eq_switch(self, x, val, ty):
        if x.op == "disc":
            adt = self.crate.adts.get(x.a[1])
            if adt:
                for i, v in enumerate(adt["variants"]):
                    dv = v["discr"]
                    if dv >> 127:
                        dv -= 1 << 128
                    if dv == val or (dv & ((1 << 64) - 1)) == (val & ((1 << 64) - 1)):
                        return variant_is(x.a[0], i, len(adt["variants"]))
                return FALSE
            return isv(x.a[0], val, None)
        if ty["k"] == "char":
            if x.op == "char":
                return TRUE if x.a[0] == val else FALSE
            return isv(x, mk("char", val), None)
        if ty["k"] == "int" and not ty["signed"]:
            nonneg(x)
        return eq_bdd(x, num(val))

    def drop(self, fr, s, t):
        tid = t[1][2]
        ty = self.ty(tid, fr)
        v = None
        if ty["k"] == "adt" and not self.quiet:
            v = self.read_place(fr, s, t[1])
            if v.op != "uninit":
                self.event("drop", ty["def"], [v], s, t[3], fr, info=tid)

    # ------------------------------------------------------------------- loops
    def loop_name(self, fr, c, h):
        ks = sorted(c.loops, key=lambda b: c.ix[b])
        return f"{fr.body['path']}#{ks.index(h)}"

    def loop(self, fr, c, h, s0):
        blocks = c.loops[h]
        name = self.loop_name(fr, c, h)

        def run(st):
            return self.region(fr, c, blocks, h, st, True)
        if self.unroll:
            out = self.unrolled(s0, run)
            if out is not None:
                return out
        return self.fix(name, fr, s0, run)

    def unrolled(self, s0, run):
        """a loop whose every test is decided, pass by pass; None if it is not"""
        kept = len(self.events), len(self.loops)
        st = s0.copy()
        for _ in range(self.unroll + 1):
            back, exits = run(st)
            st = merge(back)
            if st is None or st.g == FALSE:
                return exits
            if any(x.g != FALSE for _, x in exits):
                break
        del self.events[kept[0]:], self.loops[kept[1]:]
        return None

    def diff(self, v0, v1, path, ctx, out, fresh):
        if v0 is v1:
            return
        if v0.op == "uninit":
            return
        if v0.op == "iter" and v1.op == "iter" and v0.a[0] is v1.a[0]:
            out.append(path)
            return
        if v0.op == "agg" and v1.op == "agg" and v0.a[0] == v1.a[0] and v0.a[1] == v1.a[1] and \
                tuple(k for k, _ in v0.a[2]) == tuple(k for k, _ in v1.a[2]) and v0.a[0] != "array":
            for (k, x), (_, y) in zip(v0.a[2], v1.a[2]):
                self.diff(x, y, path + (("f", k),), ctx, out, fresh)
            return
        if v0.op == "closure" and v1.op == "closure":
            out.append(path)
            return
        b0 = v0.a[0] if v0.op == "upd" else v0
        b1 = v1.a[0] if v1.op == "upd" else v1
        if b0 is b1:
            keys = []
            for v in (v0, v1):
                if v.op == "upd":
                    keys += [k for k, _ in v.a[1] if k not in keys]
            for k in keys:
                if k[0] == "at" and self.is_ix_of(k[1], ctx):
                    fresh.append(path + (k,))
                    continue
                if k[0] in ("idx", "key", "at") and k[1].op not in ("num", "str"):
                    if project(v0, k) is not project(v1, k):
                        out.append(path)
                        return
            for k in keys:
                if k[0] == "at" and self.is_ix_of(k[1], ctx):
                    continue
                self.diff(project(v0, k), project(v1, k), path + (k,), ctx, out, fresh)
            return
        out.append(path)

    def carried(self, ctx, sh, run, fresh, mb):
        """arrays written at the current position and read at another one in the same loop"""
        todo, probes = [], {}
        for root, p in fresh:
            if not p or p[-1][0] != "at" or (root, p[:-1]) in todo:
                continue
            b = self.read(sh, root, p[:-1])
            if b.op == "repeat":
                probes[mk("probe", root, p[:-1])] = (root, p[:-1])
            elif any(y.op == "prj" and y.a[0] is b and y.a[1][0] == "idx" for v in mb.mem.values() if v is not b for y in walk(v)):
                todo.append((root, p[:-1]))
        if probes:
            s2 = sh.copy()
            for pr, (root, q) in probes.items():
                self.write(s2, root, q, mk("upd", pr, ((("f", "#len"), length(self.read(sh, root, q))),)))
            back, exits = run(s2)
            for st in list(back) + [x for _, x in exits]:
                for v in list(st.mem.values()) + [bool_t(st.g)]:
                    for y in walk(v):
                        if y.op == "prj" and y.a[0] in probes and y.a[1][0] in ("idx", "at") and not self.is_ix_of(y.a[1][1], ctx):
                            if probes[y.a[0]] not in todo:
                                todo.append(probes[y.a[0]])
        return todo

    def is_ix_of(self, t, ctx):
        return any(t is mk("ix", src, d) for src, d in ctx.srcs.values())

    def mentions_ix(self, t, ctx):
        ixs = {mk("ix", src, d) for src, d in ctx.srcs.values()}
        if not ixs:
            return False
        return contains(t, lambda x: x in ixs)

    def fix(self, name, fr, s0, run):
        inst = self.instances.setdefault(name, {})
        k = inst.setdefault(tuple(self.sites), len(inst))
        if k:
            name = f"{name}'{k}"
        ctx = LoopCtx(name, len(self.loopstack))
        ctx.stack = fr.stack
        ctx.hguard = s0.g
        ctx.base_roots = set(s0.mem)
        mus = {}
        synth = None
        self.loopstack.append(ctx)
        freshroots = set()

        def header():
            s = s0.copy()
            for (root, path), mu in mus.items():
                self.write(s, root, path, mu)
            return s
        try:
            self.quiet += 1
            try:
                for rnd in range(14):
                    sh = header()
                    base = sh.mem
                    back, exits = run(sh.copy())
                    new = {}
                    fresh = []
                    mb = merge(back)
                    if mb is None:
                        break
                    for root, v1 in mb.mem.items():
                        v0 = base.get(root)
                        if v0 is None:
                            if root.op == "loc":
                                continue
                            if self.mentions_ix(root, ctx):
                                fresh.append((root, ()))
                                continue
                            v0 = default(root)
                            if root.op == "static":
                                v0 = mk("staticval", root.a[0])
                        if v0 is v1:
                            continue
                        out, fr_ = [], []
                        self.diff(v0, v1, (), ctx, out, fr_)
                        fresh += [(root, p) for p in fr_]
                        for p in out:
                            new[(root, p)] = 1
                    todo = []
                    for root, p in new:
                        if any(r == root and p[:len(q)] == q and mus[(r, q)].op == "mu" for r, q in mus):
                            continue
                        todo.append((root, p))
                    if not todo:
                        todo = self.carried(ctx, sh, run, fresh, mb)
                        if not todo:
                            break
                    for root, p in todo:
                        # widen nested entries
                        for r, q in list(mus):
                            if r == root and q[:len(p)] == p:
                                del mus[(r, q)]
                        init = self.read(s0, root, p)
                        if rnd > 9:
                            p = ()
                            init = self.read(s0, root, p)
                        if init.op == "iter":
                            m = mk("iter", init.a[0], "*")
                        else:
                            m = mk("mu", name, self.rootname(fr, root), p)
                        mus[(root, p)] = m
                else:
                    raise Blowup("loop did not stabilise: " + name)
                counters, synth = self.counters(ctx, s0, mus, mb, exits) if mb is not None else ({}, None)
            finally:
                self.quiet -= 1
            for key, (a, step, _) in counters.items():
                mus[key] = counters[key][2]
            if synth is not None:
                terms.INDUCT[mk("ix", *synth)] = lit(mk("more", *synth))
            ctx.srcs = {}
            sh = header()
            for k, m in mus.items():
                ctx.init[m] = self.read(s0, k[0], k[1])
            ctx.mus = {k: m for k, m in mus.items()}
            if synth is not None:
                ctx.srcs[("counter", ctx.name)] = synth
            back, exits = run(sh.copy())
        finally:
            self.loopstack.pop()
            if synth is not None:
                terms.INDUCT.pop(mk("ix", *synth), None)
        ctx.counters = counters
        ctx.low = synth is not None and self.lowbound
        mb = merge(back)
        if mb is not None:
            for k, m in mus.items():
                ctx.next[m] = self.read(mb, k[0], k[1])
            ctx.backguard = mb.g
        ctx.src = None
        srcs = list(ctx.srcs.values())
        if srcs:
            ctx.src = srcs[0][0]
            ctx.ix = mk("ix", *srcs[0])
            ctx.more = lit(mk("more", *srcs[0]))
        if not self.quiet:
            self.loops.append(ctx)
        return self.finish_loop(ctx, s0, sh, mb, exits, fresh, mus)

    def counters(self, ctx, s0, mus, mb, exits):
        """loop variables that count passes: ({(root,path): (init, step, closed term)}, synthetic source)
        A loop with no iterator whose first test compares a counter with a fixed bound
        walks the positions below that bound."""
        ms = set(mus.values())
        cand = {}
        for (root, path), m in mus.items():
            if m.op != "mu":
                continue
            init = self.read(s0, root, path)
            if init.op == "ite" or contains(init, lambda y: y is UNINIT):
                continue
            step = None
            for g, x in cases(self.read(mb, root, path)):
                if b_and(g, mb.g) == FALSE:
                    continue
                d = p_sub(x, m) if x.op in NUMERIC_OPS or x is m else None
                if d is None or d.op != "num" or d.a[0] == 0 or (step is not None and step is not d):
                    step = False
                    break
                step = d
            if step:
                cand[(root, path)] = (m, init, step)
        if not cand:
            return {}, None
        srcs = list(ctx.srcs.values())
        synth = None
        if not srcs:
            from models import range_src
            for (root, path), (m, init, step) in cand.items():
                if step is not ONE or not (init.op == "num" and init.a[0] >= 0):
                    continue
                bound = self.bound(s0, ms, m, mb, exits)
                if bound is None:
                    continue
                src = range_src(init, bound)
                dep = sum(1 for c in self.loopstack for s2, _ in c.srcs.values() if s2 is src)
                synth = (src, dep)
                break
            if synth is None:
                return {}, None
            src = synth
        else:
            src = srcs[0]
        ix = mk("ix", *src)
        return {k: (init, step, p_add(init, p_mul(step, ix))) for k, (m, init, step) in cand.items()}, synth

    lowbound = False

    def bound(self, s0, ms, m, mb, exits):
        """N such that every pass is entered with m < N (or m != N), tested before anything else"""
        from linear import linear_in
        self.lowbound = False
        ns = []
        for l in b_lits(mb.g):
            d = l.a[0].a[0] if l.op == "isv" and l.a[0].op == "cmp" else None
            c = linear_in(d, m) if d is not None else None
            if c not in (1, -1):
                continue
            n = p_mul(num(-c), p_sub(d, p_mul(num(c), m)))  # d = c*(m - n)
            if not contains(n, lambda y: y in ms or y is m) and n not in ns:
                ns.append(n)
        if not ns or len(ns) > 8:
            return None
        for strict in (True, False, None):
            def test(n):
                if strict is None:
                    return b_not(order_bdd(m, n, 2))
                return order_bdd(m, n, 0) if strict else b_not(order_bdd(m, n, 1))
            inner = lambda l: any(w in ms for a in ([l] + [z for z in l.a if isinstance(z, T)]) for w in walk(a))
            reach = b_exists(mb.g, inner)
            left, cs = s0.g, []
            for n in ns:
                bad = b_exists(b_valid(b_and(mb.g, b_not(test(n)))), inner)
                reg = b_and(b_and(left, reach), b_not(bad))
                if not b_empty(reg):
                    cs.append((b_simplify(reg, s0.g), n))
                    left = b_and(left, b_not(reg))
            if not cs:
                continue
            nn = cs[0][1] if len(cs) == 1 else mk_ite(cs)
            t = FALSE
            for g, n in cs:
                t = b_or(t, b_and(g, test(n)))
            if not b_implies(mb.g, t):
                continue
            leave = [s for _, s in exits if b_empty(b_and(s.g, t))]
            stay = [s for _, s in exits if not b_empty(b_and(s.g, t))]
            if len(leave) == 1 and b_implies(b_and(s0.g, b_not(t)), leave[0].g) and all(b_implies(s.g, t) for s in stay):
                if strict is not None and all(x.op == "len" or x in terms.NONNEG or x.op == "num" for _, x in cases(nn)):
                    return nn
                if strict is None:
                    nn = lift(lambda y: p_add(y, ONE), nn)
                if strict is not False:
                    # no pass at all when it is below the start: the counter then keeps its start
                    self.lowbound = True
                    return nn
        return None

    def rootname(self, fr, root):
        if root.op == "loc" and root.a[0] == fr.fid:
            for n, pl, _ in fr.body["debug"]:
                if pl[0] == root.a[1] and not pl[1]:
                    return mk("var", n)
            return mk("tmp", root.a[0], root.a[1])
        return root

    def finish_loop(self, ctx, s0, sh, mb, exits, fresh, mus):
        exits = [(t, s) for t, s in exits if s.g != FALSE]
        if not exits:
            return []
        exh, oth = [], []
        for t, s in exits:
            if ctx.src is not None and b_and(s.g, ctx.more) == FALSE:
                exh.append((t, s))
            else:
                oth.append((t, s))
        # closed forms valid when the iterator is exhausted
        closed = {}
        if ctx.src is not None and mb is not None:
            care = b_and(s0.g, ctx.more)
            for (root, path), m in mus.items():
                if m.op != "mu":
                    continue
                cf = self.closed(ctx, m, ctx.init[m], ctx.next[m], mb.g, care)
                if cf is not None:
                    closed[m] = cf
            # a closed form may not mention loop symbols of the same loop
            # accumulators as seen by a pass: their value before it
            run = {m: before_form(v, ctx) for m, v in closed.items()}
            run = {m: v for m, v in run.items() if v is not None}

            def inpass(v, depth=0):
                return subst(v, lambda x: (inpass(run[x], depth + 1) if depth < 4 else run[x]) if x in run else None)
            closed = {m: deep(v, inpass) for m, v in closed.items()}
        ctx.closedform = dict(closed)
        out = []
        n = len(oth)
        simp = [b_simplify(s.g, b_and(s0.g, ctx.more) if ctx.src is not None else s0.g) for _, s in oth]
        # hide the loop-internal literals that only say "still iterating"
        ctx.exits = [(t, s.g) for t, s in exits]
        if ctx.src is not None:
            if n == 0:
                gs = []
                gex = s0.g
            elif n == 1:
                e = lit(mk("exists", ctx.src, bool_t(simp[0])))
                gs = [b_and(s0.g, e)]
                gex = b_and(s0.g, b_not(e))
            else:
                sub = mk("loopx", ctx.src, tuple(bool_t(x) for x in simp))
                gs = [b_and(s0.g, isv(sub, i, n + 1)) for i in range(n)]
                gex = b_and(s0.g, isv(sub, n, n + 1))
        else:
            gex = FALSE
            if n == 1:
                gs = [s0.g]
            else:
                sub = mk("loopx", mk("name", ctx.name), tuple(bool_t(x) for x in simp))
                gs = [b_and(s0.g, isv(sub, i, n)) for i in range(n)]
        for (t, s), g in zip(oth, gs):
            s2 = s.copy()
            s2.g = g
            out.append((t, s2))
        for t, s in exh:
            s2 = s.copy()
            s2.g = gex
            if closed:
                def f(x):
                    return closed.get(x)
                memo = {}
                for r, v in list(s2.mem.items()):
                    if v.op not in ("num", "ref", "arg", "str"):
                        s2.mem[r] = subst(v, f, memo)
            tabs = set()
            if mb is not None and ctx.src is not None:
                for root, path in fresh:
                    if not path or path[-1] != ("at", ctx.ix):
                        continue
                    b = self.read(s2, root, path[:-1])
                    if b.op in ("ite", "uninit") or ctx.src.op in ("range", "revsrc") and terms.base_src(b) is not ctx.src:
                        continue
                    v = self.read(mb, root, path)
                    if closed:
                        v = inpass(v)
                    if contains(v, lambda y: y.op == "mu" and y in ctx.init):
                        continue
                    self.write(s2, root, path[:-1], terms.mk_ovr(ctx.src, terms.subst_ix(b_undermore(v, ctx), ctx.ix, terms.pos(ctx.src)), b))
                    tabs.add((root, path))
            for (root, path), (a, step, _) in ctx.counters.items():
                if ctx.src is not None and not ctx.low and s2.mem.get(root) is not None:
                    self.write(s2, root, path, lift(lambda n: p_add(a, p_mul(step, n)), length(ctx.src)))
            if mb is not None:
                for root, path in fresh:
                    if (root, path) in tabs:
                        continue
                    if path:
                        self.write(s2, root, path, mk("foreach", ctx.src, self.read(mb, root, path)) if False else self.read(mb, root, path))
                    elif root in mb.mem:
                        s2.mem[root] = mb.mem[root]
            out.append((t, s2))
        ctx.passes = [(s.g, s.mem, t) for t, s in exits]
        if mb is not None:
            ctx.passes.append((mb.g, mb.mem, None))
        ctx.post = [(s2.g, s2.mem) for _, s2 in out]
        for k, m in mus.items():
            if m.op != "mu":
                continue
            # value at the end of one pass (taken back edge, or leaving the loop in the middle)
            end = [(s.g, self.read(s, k[0], k[1])) for _, s in exits]
            if mb is not None:
                end.append((mb.g, ctx.next[m]))
            ctx.end[m] = end
            ctx.after[m] = [(s2.g, self.read(s2, k[0], k[1])) for _, s2 in out]
        return out

    def closed(self, ctx, m, init, nxt, backg, care):
        for fn in self.closers:
            r = fn(ctx, m, init, nxt, backg, care)
            if r is not NotImplemented:
                return r
        cs = cases(nxt)
        body = []
        kind = None
        used = FALSE
        for g, x in cs:
            if b_and(g, backg) == FALSE:
                continue
            if x is m:
                continue
            g2 = b_simplify(b_and(g, backg), care)
            if x.op == "push" and x.a[0] is m:
                k, d = "seq", x.a[1]
            else:
                d = p_sub(x, m)
                if contains(d, lambda y: y is m):
                    if x.op == "poly":
                        d = p_div(x, m)
                        if contains(d, lambda y: y is m):
                            return None
                        k = "prod"
                    else:
                        return None
                else:
                    k = "sum"
            if kind not in (None, k):
                return None
            kind = k
            body.append((g2, d))
            used = b_or(used, g2)
        if kind is None:
            return init if cs else None
        if any(contains(bool_t(g), lambda y: y is m) or contains(d, lambda y: y is m) for g, d in body):
            return None
        if kind == "sum":
            rest = b_not(used)
            t = mk_ite(body + [(rest, ZERO)]) if rest != FALSE else mk_ite(body)
            # guards that only say "still iterating" vanish
            return lift(p_add, init, mk("sum", ctx.src, t))
        if kind == "prod":
            rest = b_not(used)
            t = mk_ite(body + [(rest, ONE)]) if rest != FALSE else mk_ite(body)
            return lift(p_mul, init, mk("prod", ctx.src, t))
        rest = b_not(used)
        t = mk_ite(body + [(rest, mk("skip"))]) if rest != FALSE else mk_ite(body)
        sq = mk("seqof", ctx.src, t)
        if init is EMPTY and b_empty(b_and(care, rest)) and ctx.src.op not in ("revsrc", "range"):
            return terms.mk_tab(ctx.src, terms.subst_ix(b_undermore(mk_ite(body), ctx), ctx.ix, terms.pos(ctx.src)))
        if b_empty(b_and(care, rest)) and ctx.src.op not in ("revsrc", "range"):
            # the elements themselves, one by one
            el = project(ctx.src, ("at", ctx.ix))
            if all(b_empty(b_and(b_and(care, g), b_and(h, h2))) for g, d in body for h, x in cases(d) for h2, y in cases(el) if x is not y):
                sq = ctx.src
        return sq if init is EMPTY else mk("extend", init, sq)

    # ------------------------------------------------------------------- calls
    def call(self, fr, s, t):
        _, f, aops, dest, target, span = t
        args = [self.operand(fr, s, o) for o in aops]
        atys = [self.optype(fr, o) for o in aops]
        self.sites.append(id(t))
        try:
            if "fn" in f:
                r = self.dispatch(fr, s, f["fn"], args, atys, dest[2], span)
            else:
                fv = self.operand(fr, s, f)
                r = self.apply(fr, s, fv, args, span)
        finally:
            self.sites.pop()
        if target is None:
            return []
        if s.g == FALSE:
            return []
        if r is None:
            r = UNIT
        r = under(r, s.g)
        self.write_place(fr, s, dest, r, span)
        return [(target, s)]

    def dispatch(self, fr, s, f, args, atys, dty, span):
        nm = norm(f["d"])
        call = Call(self, fr, f, args, atys, dty, span, nm)
        # 1. user models (by resolved path, then nominal)
        for key in (norm(f.get("rp", "")), f.get("rp"), nm, f["d"]):
            if key and key in self.models:
                r = self.models[key](call, s)
                if r is not NotImplemented:
                    return r
        # 2. devirtualised / resolved local callee
        body = None
        if f.get("rk") in ("item", "closure_once"):
            body = self.crate.bodies.get(f["r"])
        from models import MODELS
        m = MODELS.get(nm)
        derived = body is not None and body.get("derived")
        if m is not None and (body is None or derived):
            r = m(call, s)
            if r is not NotImplemented:
                return r
        if body is None and "ra" in f or "rk" not in f:
            b2 = self.resolve_generic(fr, f)
            if b2 is not None:
                body = b2
        if body is None and f.get("rk") == "virtual" and self.devirt:
            r = self.devirt(call, s)
            if r is not NotImplemented:
                return r
        if body is not None:
            if body["kind"] == "Closure":
                return self.apply(fr, s, args[0], self.untuple(args[1:]), span)
            if body["key"] not in fr.stack and self.inline(body) and not self.opaque(body) and not derived:
                self.event("enter", body["path"], args, s, span, fr, info=call)
                subst = self.subst_for(fr, body, f)
                r = self.call_body(s, body, args, subst, fr.stack)
                self.event("leave", body["path"], args, s, span, fr, res=r, info=call)
                return r
        if m is not None:
            r = m(call, s)
            if r is not NotImplemented:
                return r
        return self.opaque_call(call, s)

    def untuple(self, args):
        if len(args) == 1 and args[0].op == "agg" and args[0].a[0] == "tuple":
            return [v for _, v in args[0].a[2]]
        if len(args) == 1 and args[0].op == "unit":
            return []
        return args

    def subst_for(self, fr, body, f):
        sub = {}
        ra = f.get("ra") or f.get("a") or []
        for n, tid in zip(body["generics"], ra):
            t = self.crate.types[tid]
            if t["k"] == "param" and t["name"] in fr.subst:
                tid = fr.subst[t["name"]]
            sub[n] = tid
        return sub

    def resolve_generic(self, fr, f):
        """trait method on a type parameter bound by the inlining context"""
        if not f["a"]:
            return None
        t = self.crate.types[f["a"][0]]
        if t["k"] == "param" and t["name"] in fr.subst:
            tid = fr.subst[t["name"]]
        elif "rk" not in f:
            tid = f["a"][0]
        else:
            return None
        want = self.crate.types[tid]
        for im in self.crate.impls:
            if im["trait"] is None:
                continue
            st = self.crate.types[im["self"]]
            if st.get("key") == want.get("key") and want["k"] == "adt" and st["k"] == "adt":
                for n, k, ti in im["items"]:
                    if ti == f["dk"]:
                        return self.crate.bodies.get(k)
        return self.crate.bodies.get(f["dk"])

    def peel(self, st, v, tid, fr=None):
        """value behind any number of references, by type"""
        n = 0
        while tid is not None:
            t = self.ty(tid, fr)
            if t["k"] in ("ref", "ptr"):
                v = self.load(st, v)
                tid = t["inner"]
            else:
                break
            n += 1
        return v

    def snapshot(self, st, v, tid, fr):
        t = self.ty(tid, fr) if tid is not None else None
        if t is not None and t["k"] in ("ref", "ptr"):
            return self.peel(st, v, tid, fr)

        def f(x):
            if x.op == "ref":
                return self.load(st, x)
            if x.op == "agg" and any(y.op in ("ref", "ite") for _, y in x.a[2]):
                return mk("agg", x.a[0], x.a[1], tuple((k, lift(f, y)) for k, y in x.a[2]))
            return x
        return lift(f, v)

    IMPURE = re.compile(r"(::now|now_utc|now_local|atomic|thread|rand|recv|Clock::|elapsed)")

    def opaque_call(self, c, s, name=None):
        nm = name or (norm(c.f.get("rp") or c.f["d"]) if c.f.get("rk") == "item" and not c.f["d"].startswith("std") else c.nm)
        snaps = [self.snapshot(s, a, t, c.fr) for a, t in zip(c.args, c.atys)]
        body = self.crate.bodies.get(c.f.get("r", ""))
        if body is None and nm not in self.unknown:
            self.unknown[nm] = c.f["d"]
        if c.nm.startswith(("std::convert", "std::default", "std::iter", "core::str::parse", "std::str")):
            snaps.append(mk("tyname", self.crate.tystr(c.dty)))
        tag = []
        if self.IMPURE.search(nm):
            tag = [self.fresh(nm)]
        r = mk("call", nm, *(snaps + tag))
        dt = self.ty(c.dty, c.fr)
        if dt["k"] == "tuple" and not dt["args"]:
            res = UNIT
        elif dt["k"] == "bool":
            res = bool_t(lit(r))
        else:
            res = r
        if self.total and dt.get("def") == RESULT and body is not None and body["path"].endswith(self.total):
            res = ok(r)
        self.event("call", nm, list(c.args), s, c.span, c.fr, res=res, info=c)
        for i, (a, tid) in enumerate(zip(c.args, c.atys)):
            t = self.ty(tid, c.fr) if tid is not None else {"k": "?"}
            if t["k"] in ("ref", "ptr") and t.get("mut"):
                tin = self.ty(t["inner"], c.fr)
                if tin["k"] == "ref" and tin.get("mut"):
                    continue
                self.event("havoc", nm, [a], s, c.span, c.fr, info=c)
                self.store(s, a, mk("out", i, r))
        return res

    # ---------------------------------------------------------- closure values
    def apply(self, fr, s, fv, args, span=None):
        res = []
        cs = [(g, x) for g, x in cases(fv) if b_and(g, s.g) != FALSE]
        if len(cs) > 1:
            return self.branch(s, [(g, (lambda st, x=x: self.apply(fr, st, x, args, span))) for g, x in cs])
        x = cs[0][1] if cs else fv
        while x.op == "ref":
            x2 = self.load(s, x)
            if x2 is x:
                break
            holder = x
            x = x2
            if x.op == "ite":
                return self.apply(fr, s, x, args, span)
        base = x
        if base.op == "upd" and base.a[0].op == "closure":
            base = base.a[0]
        if base.op == "closure":
            body = self.crate.bodies.get(base.a[0])
            if body is None:
                return mk("call", base.a[0], *args)
            t1 = self.ty(body["locals"][1])
            if len(fr.stack) > self.max_depth:
                raise Blowup("closure depth")
            root = None
            if t1["k"] == "ref":
                self.fids += 1
                root = mk("loc", self.fids, 0)
                s.mem[root] = x
                selfv = mk("ref", root, ())
            else:
                selfv = x
            r = self.call_body(s, body, [selfv] + list(args), fr.subst, fr.stack)
            if root is not None:
                s.mem.pop(root, None)
            return r
        if x.op == "fnref":
            if x.a[2] == "ctor":
                nm = norm(x.a[1])
                if nm.endswith("Option::Some") or nm.endswith("::Some"):
                    return some(args[0])
                if nm.endswith("::Ok"):
                    return ok(args[0])
                if nm.endswith("::Err"):
                    return err(args[0])
                return mk("call", nm, *args)
            body = self.crate.bodies.get(x.a[0])
            if body is not None and self.inline(body) and not self.opaque(body) and body["key"] not in fr.stack:
                return self.call_body(s, body, list(args), {}, fr.stack)
            from models import FNREFS
            m = FNREFS.get(norm(x.a[1]))
            if m is not None:
                return m(self, s, args)
            self.event("call", norm(x.a[1]), list(args), s, span, fr, res=None)
            return mk("call", norm(x.a[1]), *[self.snapshot(s, a, None, fr) for a in args])
        self.event("call", "<dyn fn>", [x] + list(args), s, span, fr)
        return mk("call", "<dyn fn>", x, *[self.snapshot(s, a, None, fr) for a in args])

    def branch(self, s, alts):
        """run alternatives under disjoint guards; s becomes the merged state"""
        outs, vals = [], []
        for g, fn in alts:
            gg = b_and(s.g, g)
            if gg == FALSE:
                continue
            st = s.copy()
            st.g = gg
            v = fn(st)
            if v is None:
                v = UNIT
            if st.g == FALSE:
                continue
            # keep the value in memory so that merging gates it
            st.mem[mk("loc", -1, 0)] = v
            outs.append(st)
        m = merge(outs)
        if m is None:
            s.g = FALSE
            return UNINIT
        v = m.mem.pop(mk("loc", -1, 0))
        if m is outs[0]:
            m.mem.pop(mk("loc", -1, 0), None)
        s.g = m.g
        s.mem = m.mem
        return v

    def variant(self, v, idx, n=2):
        """BDD: value v is enum variant idx"""
        r = FALSE
        for g, x in cases(v):
            r = b_or(r, b_and(g, variant_is(x, idx, n)))
        return r

    def payload(self, v, idx, name="0"):
        return project(project(v, ("v", idx)), ("f", name))


class Call:
    __slots__ = ("ip", "fr", "f", "args", "atys", "dty", "span", "nm")

    def __init__(self, ip, fr, f, args, atys, dty, span, nm):
        self.ip, self.fr, self.f, self.args, self.atys, self.dty, self.span, self.nm = ip, fr, f, args, atys, dty, span, nm

    def selfty(self):
        return self.ip.ty(self.f["a"][0], self.fr) if self.f["a"] else {"k": "?", "s": "?"}

    def aty(self, i):
        return self.ip.ty(self.atys[i], self.fr)

    def peeled_ty(self, i):
        t = self.ip.ty(self.atys[i], self.fr)
        while t["k"] in ("ref", "ptr"):
            t = self.ip.ty(t["inner"], self.fr)
        return t

    def peel(self, s, i):
        return self.ip.peel(s, self.args[i], self.atys[i], self.fr)

    def opq(self, s):
        return self.ip.opaque_call(self, s)


class Result:
    def __init__(self, ip, body, st, ret):
        self.ip = ip
        self.body = body
        self.state = st
        self.ret = ret
        self.events = ip.events
        self.loops = ip.loops
        self.g = st.g

    def calls(self, pat):
        rx = re.compile(pat)
        return [e for e in self.events if e.kind in ("call", "enter") and rx.search(e.name)]
