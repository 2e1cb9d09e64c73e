"""Obligations, violations, known findings and evidence of one check."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.json")


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obs = []          # (key, ok)
        self.bad = {}          # key -> message
        self.counts = {}
        self.notes = []
        self.fns = set()
        self.trusted = []

    def ob(self, key, okv, msg="", where=""):
        """one obligation; `key` names the construct without line numbers"""
        self.obs.append((key, bool(okv)))
        if not okv and key not in self.bad:
            self.bad[key] = (msg or "obligation not met") + (f" [{where}]" if where else "")
        return bool(okv)

    def fail(self, key, msg, where=""):
        return self.ob(key, False, msg, where)

    def fn(self, path):
        self.fns.add(path)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        n = self.counts.get(name, 0)
        self.ob(f"floor:{name}", n >= least,
                f"only {n} {name} found, at least {least} expected: the analysis no longer sees the code it is about")

    def finish(self, rule, level="other", assumptions=()):
        known = json.load(open(KNOWN))["findings"] if os.path.exists(KNOWN) else []
        kn = {k["key"]: k for k in known if k["property"] == self.pid and k.get("status") == "known"}
        new = {k: m for k, m in self.bad.items() if k not in kn}
        ev = os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        wall = time.time() - self.t0
        cov = {
            "explanation": rule,
            "functions_analysed": sorted(self.fns),
            "obligations": len(self.obs),
            "discharged": sum(1 for _, o in self.obs if o),
            "counts": self.counts,
            "obligation_keys": sorted({k for k, _ in self.obs})[:400],
        }
        if self.notes:
            cov["notes"] = self.notes
        rep = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": level, "coverage": cov, "wall_s": round(wall, 3),
            "violations": [{"key": k, "what": m} for k, m in sorted(new.items())],
            "assumptions": list(assumptions),
        }
        json.dump(rep, open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        for k in sorted(kn):
            if k in self.bad:
                print(f"KNOWN-FINDING: property={self.pid} {k}: {kn[k]['what']}")
        if new:
            rp = os.path.join(ev, self.pid + ".violation.json")
            json.dump({"property": self.pid, "violations": rep["violations"]}, open(rp, "w"), indent=1)
            for k, m in sorted(new.items())[:40]:
                print(f"  {k}: {m[:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} obligations={len(self.obs)} functions={len(self.fns)} wall={wall:.1f}s")
        return 0
