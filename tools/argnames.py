#!/usr/bin/env python3
"""dev tool: records the parameter names of every function, by position, so that renaming a parameter is no change to the specs"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "sa"))
import facts
from interp import Interp
out = {}
for c in facts.load(os.path.join(H, ".cache/facts")):
    ip = Interp(c)
    for p, bs in c.by_path.items():
        if len(bs) == 1 and bs[0]["args"] and "{closure" not in p and "::tests::" not in p and "Visitor" not in p and bs[0].get("kind") in ("Fn", "AssocFn"):
            out[c.name + ":" + p] = ip.arg_names(bs[0])
json.dump(out, open(os.path.join(H, "sa/argnames.json"), "w"), indent=0, sort_keys=True)
print(len(out))
