#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and DESIGN.md's generated sections from tools/table.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, os.path.join(HERE, "sa"))
from table import P
from checks import REGISTRY

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["observe"]:
            q["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(q) + "\n")
claimed = [p for p in P if p["id"] in REGISTRY and not p["na"]]
M = {"version": 1, "setup_cmd": "./extract.sh .cache .cache/facts",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                 "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in claimed],
     "not_applicable": [{"property": p["id"], "reason": p["na"] or "no check built yet"} for p in P if p not in claimed]}
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
D = open(os.path.join(HERE, "DESIGN.md")).read()
a, b = "<!-- generated from tools/table.py -->", "<!-- end generated -->"
out = []
for p in P:
    if p in claimed:
        out.append(f"### {p['id']} {p['title']}\n\n*Technique:* {p['technique']}. *Level:* {p['level']}.\n\n{p['design']}\n\n*Assurance:* {p['note']}\n")
    else:
        out.append(f"### {p['id']} {p['title']} — not applicable\n\n{p['na']}\n")
seeds = os.path.join(HERE, "seeded")
rows = []
for d in sorted(os.listdir(seeds)) if os.path.isdir(seeds) else []:
    m = os.path.join(seeds, d, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
tab = "| planted change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
D = D[:D.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n## Planted changes and what catches them\n\n" + tab + "\n\n" + D[D.index(b):]
open(os.path.join(HERE, "DESIGN.md"), "w").write(D)
print(len(P), "properties,", len(claimed), "claimed")
