#!/usr/bin/env python3
"""dev tool: mut.py FILE.muts CHECK... -- apply each textual mutation to a scratch
copy of /repo and run checks on it.  Blocks: '### name [quiet]', '@@ file', old, '====', new."""
import os, subprocess, sys, shutil, re
SCR = os.environ.get("MUTDIR", "/tmp/mut")
BASE = os.environ.get("MUTBASE", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    only = os.environ.get("ONLY")
    if not os.path.exists(SCR):
        subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", ".git", BASE + "/", SCR + "/"], check=False) if shutil.which("rsync") else shutil.copytree(BASE, SCR, ignore=shutil.ignore_patterns("target", ".git"))
    env = dict(os.environ, VERIF_REPO=SCR, VERIF_CACHE=SCR + ".cache")
    blocks = re.split(r"^### ", open(sys.argv[1]).read(), flags=re.M)[1:]
    for b in blocks:
        name, body = b.split("\n", 1)
        if only and not re.search(only, name):
            continue
        edits = []
        for part in re.split(r"^@@ ", body, flags=re.M)[1:]:
            f, rest = part.split("\n", 1)
            old, new = rest.split("\n====\n", 1) if "\n====\n" in rest else (rest.split("====\n")[0].rstrip("\n"), "")
            edits.append((f.strip(), old, new.rstrip("\n")))
        okk = True
        saved = {}
        for f, old, new in edits:
            p = os.path.join(SCR, f)
            s = open(p).read()
            saved.setdefault(p, open(os.path.join(BASE, f)).read())
            if s.count(old) < 1:
                print(f"{name}: OLD TEXT NOT FOUND in {f}")
                okk = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if okk:
            res = []
            for c in sys.argv[2:]:
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                res.append(f"{c}:{ {0:'ok',1:'VIOL',2:'NOBUILD'}.get(r.returncode, r.returncode)}")
                if os.environ.get("V") and r.returncode:
                    print("\n".join(x[:300] for x in r.stdout.splitlines()[:8]))
            print(name, " ".join(res), flush=True)
        for p, s in saved.items():
            open(p, "w").write(s)


main()
