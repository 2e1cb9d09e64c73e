"""Bit fields holding linear forms: the domain in which packed digit arithmetic is decided.

A value is a map {bit offset: form}; a form is a constant plus integer multiples
of byte symbols, each of a known range.  Reading bytes, masking, shifting,
scaling and adding stay exact as long as no field can run into the next; an
operation that would carry is refused (`Carry`) and never approximated."""
from terms import *


class Carry(Exception):
    pass


class Form:
    __slots__ = ("k", "c", "rng")

    def __init__(self, k, c, rng):
        self.k, self.c, self.rng = k, {s: v for s, v in c.items() if v}, rng

    def lo(self):
        return self.k + sum(v * self.rng(s)[0 if v > 0 else 1] for s, v in self.c.items())

    def hi(self):
        return self.k + sum(v * self.rng(s)[1 if v > 0 else 0] for s, v in self.c.items())

    def plus(self, o, m=1):
        c = dict(self.c)
        for s, v in o.c.items():
            c[s] = c.get(s, 0) + m * v
        return Form(self.k + m * o.k, c, self.rng)

    def times(self, n):
        return Form(self.k * n, {s: v * n for s, v in self.c.items()}, self.rng)

    def zero(self):
        return self.k == 0 and not self.c

    def __str__(self):
        return " + ".join(([str(self.k)] if self.k or not self.c else []) + [f"{v}*byte{s}" if v != 1 else f"byte{s}" for s, v in sorted(self.c.items(), key=str)])


class Lanes:
    """one analysis: `byte(base, offset)` -> (constant, symbol or None); `rng(symbol)` its range"""

    def __init__(self, byte, rng):
        self.byte, self.rng, self.memo = byte, rng, {}

    def form(self, k, c=()):
        return Form(k, dict(c), self.rng)

    # a value: (lanes, bits or None): bits is the width the machine keeps
    def of(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._of(x)
        return r

    def at(self, x):
        """(slice, byte offset) a pointer value reads from"""
        if x.op == "prj" and x.a[1][0] == "rng" and x.a[1][1].op == "num":
            b, o = self.at(x.a[0])
            return b, o + int(x.a[1][1].a[0])
        return x, 0

    def one(self, base, off):
        k, s = self.byte(base, off)
        return self.form(k, {s: 1} if s is not None else {})

    def _of(self, x):
        if x.op == "num":
            if x.a[0].denominator != 1:
                raise Carry("a fraction")
            return {0: self.form(int(x.a[0]))}
        if x.op == "raw":
            base, off = self.at(x.a[1])
            return self.tidy({8 * i: self.one(base, off + i) for i in range(x.a[0] // 8)}, x.a[0])
        if x.op == "prj" and x.a[1][0] in ("idx", "at") and x.a[1][1].op == "num":
            base, off = self.at(x.a[0])
            return {0: self.one(base, off + int(x.a[1][1].a[0]))}
        if x.op == "poly":
            out = {}
            for m, c in x.a[0]:
                if c.denominator != 1:
                    raise Carry("a fraction")
                c = int(c)
                v = {0: self.form(1)}
                for a, e in m:
                    if e != 1 or len(m) > 1:
                        raise Carry(f"a product {show(x)[:80]}")
                    v = self.of(a)
                for o, f in v.items():
                    g = f.times(c)
                    out[o] = out[o].plus(g) if o in out else g
            return self.tidy(out, None)
        if x.op == "icast":
            v = self.of(x.a[1])
            n = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i16": 15, "i32": 31, "i64": 63}.get(x.a[0])
            if n is None or any(o + f.hi().bit_length() > n for o, f in v.items()):
                raise Carry(f"a narrowing to {x.a[0]}")
            return v
        if x.op == "bit":
            if x.a[0] == "BitAnd":
                return self.mask(x.a[1], x.a[2])
            if x.a[0] == "BitOr":
                a, b = self.of(x.a[1]), self.of(x.a[2])
                self.apart(a, b)
                return self.tidy({**a, **b}, None)
            if x.a[0] in ("Shl", "Shr"):
                v, n = self.of(x.a[1]), x.a[2]
                if n.op != "num":
                    raise Carry("a shift by an unknown amount")
                n = int(n.a[0])
                if x.a[0] == "Shl":
                    w = x.a[3]
                    if not 0 <= n < w:
                        raise Carry(f"a shift of {w} bits by {n}")
                    out = {}
                    for o, f in v.items():
                        if o + n >= w:
                            continue
                        if o + n + f.hi().bit_length() > w:
                            raise Carry("a field cut by a shift")
                        out[o + n] = f
                    return self.tidy(out, w)
                if n < 0:
                    raise Carry("a negative shift")
                out = {}
                for o, f in v.items():
                    if o >= n:
                        out[o - n] = f
                    elif o + f.hi().bit_length() > n:
                        raise Carry("a field cut by a shift")
                return self.tidy(out, None)
            if x.a[0] == "Not":
                f = self.flat(self.of(x.a[1]))
                if f.lo() < 0:
                    raise Carry("the complement of a negative value")
                return {0: f.times(-1).plus(self.form(1), -1)}      # modulo 2^bits
        raise Carry(f"an operation outside packed digit arithmetic: {show(x)[:100]}")

    def apart(self, a, b):
        for o, f in a.items():
            for p, h in b.items():
                if o < p + h.hi().bit_length() and p < o + f.hi().bit_length():
                    raise Carry("overlapping fields joined by |")

    def mask(self, a, b):
        if a.op == "num":
            a, b = b, a
        if b.op != "num":
            raise Carry("a mask that is not a constant")
        m, v = int(b.a[0]), self.of(a)
        if m < 0:
            raise Carry("a negative mask")
        os = sorted(v)
        out = {}
        for i, o in enumerate(os):
            f = v[o]
            hi = f.hi()
            w = hi.bit_length()
            k = (m >> o) & ((1 << w) - 1)
            if k == 0:
                continue
            if k == (1 << w) - 1:
                out[o] = f
                continue
            if not f.c:
                out[o] = self.form(f.k & k)
                continue
            # a digit in ASCII: the high half is the constant 3
            (s, c), = f.c.items() if len(f.c) == 1 else ((None, 0),)
            if c == 1 and f.k & 15 == 0 and self.rng(s)[0] >= 0 and self.rng(s)[1] <= 15 and k & 15 == 15:
                out[o] = self.form(f.k & k, {s: 1})
                continue
            raise Carry("a mask through the middle of a field")
        return self.tidy(out, None)

    def tidy(self, v, bits):
        v = {o: f for o, f in v.items() if not f.zero()}
        os = sorted(v)
        if len(os) > 1:
            for o, nxt in zip(os, os[1:]):
                if v[o].lo() < 0 or o + v[o].hi().bit_length() > nxt:
                    raise Carry("one field carries into the next")
            if v[os[-1]].lo() < 0:
                raise Carry("a negative field")
        return v

    def flat(self, v):
        out = self.form(0)
        for o, f in v.items():
            out = out.plus(f.times(1 << o))
        return out

    def value(self, x):
        return self.flat(self.of(x))


def digits(lanes, base, spots):
    """the number spelt by the bytes at `spots`, most significant first"""
    out = lanes.form(0)
    for s in spots:
        out = out.times(10).plus(lanes.form(0, {(base, s): 1}))
    return out
