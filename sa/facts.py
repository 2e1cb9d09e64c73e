"""Loading of the extracted MIR facts."""
import json
import os
from fractions import Fraction


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d["crate"]
        self.types = d["types"]
        self.bodies = {}
        self.by_path = {}
        for b in d["bodies"]:
            b["crate"] = self
            self.bodies[b["key"]] = b
            self.by_path.setdefault(b["path"], []).append(b)
        self.consts = {c["key"]: c for c in d["consts"]}
        self.consts_by_path = {c["path"]: c for c in d["consts"]}
        self.impls = d["impls"]
        self.traits = {t["path"]: t for t in d["traits"]}
        self.adts = {a["key"]: a for a in d["adts"]}
        self.adts_by_path = {a["path"]: a for a in d["adts"]}
        import terms
        for a in d["adts"]:
            if a["kind"] == "enum":
                for nm in {a["path"], a["key"], a["path"].split("::")[-1]}:
                    n = len(a["variants"])
                    terms.ENUM_DOM[nm] = n if terms.ENUM_DOM.get(nm, n) == n else None
        self.trait_impls = {}
        for im in self.impls:
            if im["trait"]:
                self.trait_impls.setdefault(im["trait"], []).append(im)
        self._closures = {}
        for b in self.bodies.values():
            if "parent" in b:
                self._closures.setdefault(b["parent"], []).append(b)

    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]["s"]

    def fn(self, path):
        """unique body by pretty path; raises if the anchor is missing"""
        r = self.by_path.get(path)
        if not r or len(r) != 1:
            raise MissingAnchor(f"{self.name}: function {path!r} not found" if not r else f"ambiguous {path}")
        return r[0]

    def fns(self, pred):
        return [b for b in self.bodies.values() if pred(b)]

    def methods_of(self, self_suffix):
        return [b for b in self.bodies.values()
                if "self_ty" in b and self.tystr(b["self_ty"]).split("<")[0].endswith(self_suffix)]

    def adt(self, path):
        a = self.adts_by_path.get(path)
        if a is None:
            raise MissingAnchor(f"{self.name}: type {path!r} not found")
        return a


class MissingAnchor(Exception):
    pass


def load(facts_dir):
    return (Crate(os.path.join(facts_dir, "quantlib.json")),
            Crate(os.path.join(facts_dir, "trading_engine.json")))


# ------------------------------------------------------------------- CFG utils
def succs(blk):
    t = blk["t"]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class CFG:
    def __init__(self, body):
        self.blocks = body["blocks"]
        n = len(self.blocks)
        self.succ = {}
        seen = set()
        order = []
        st = [(0, iter(self._s(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self._s(s))))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.ix = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self._s(b):
                self.pred[s].append(b)
        # dominators (Cooper-Harvey-Kennedy)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self._s(b):
                if self.dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body_:
                            body_.add(x)
                            work.extend(self.pred[x])

    def _s(self, b):
        if b not in self.succ:
            out = []
            for s in succs(self.blocks[b]):
                if s not in out and self.blocks[s]["t"][0] != "unreachable":
                    out.append(s)
            self.succ[b] = out
        return self.succ[b]

    def _inter(self, idom, a, b):
        while a != b:
            while self.ix[a] > self.ix[b]:
                a = idom[a]
            while self.ix[b] > self.ix[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


def cfg(body):
    c = body.get("_cfg")
    if c is None:
        c = body["_cfg"] = CFG(body)
    return c
