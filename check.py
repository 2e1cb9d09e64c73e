#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: extract facts from the current
/repo tree and decide one property.  Exit 0: holds; 1: VIOLATION line printed."""
import hashlib
import importlib
import os
import subprocess
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(HERE, ".cache"))


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(HERE, "driver")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def facts_dir():
    out = os.path.join(CACHE, "facts")
    stamp = os.path.join(out, "stamp")
    h = tree_hash()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return out
    if os.path.exists(stamp):
        os.remove(stamp)
    r = subprocess.run([os.path.join(HERE, "extract.sh"), CACHE, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        print("fact extraction failed: the tree does not type-check or the toolchain is missing")
        sys.exit(2)
    open(stamp, "w").write(h)
    return out


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    import facts
    import report
    from checks import REGISTRY
    modname, fname = REGISTRY[pid]
    q, t = facts.load(facts_dir())
    ck = report.Check(pid, tier)
    mod = importlib.import_module("checks." + modname)
    meta = {"rule": getattr(mod, fname).__doc__ or "", "assumptions": []}
    try:
        getattr(mod, fname)(ck, q, t, meta)
    except facts.MissingAnchor as e:
        ck.fail("anchor:" + str(e), "an analysed construct is gone, so the property cannot be established")
    except Exception as e:
        traceback.print_exc()
        ck.fail("analysis:" + type(e).__name__ + ":" + fname, f"the analysis could not establish the property: {e}")
    rc = ck.finish(" ".join(meta["rule"].split()), meta.get("level", "other"), meta["assumptions"])
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)

    def guarded():
        try:
            main()
        except BaseException as e:  # no answer is never an answer
            if not isinstance(e, SystemExit):
                traceback.print_exc()
            sys.stdout.flush()
            os._exit(2)

    th = threading.Thread(target=guarded)
    th.start()
    th.join()
    os._exit(2)
