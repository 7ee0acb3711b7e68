#!/usr/bin/env python3
"""run_seeds.py [-a] [id...]: applies each seeded change to a scratch copy and runs the check of its property
(-a: every check) on it."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif/seeded"
allc = "-a" in sys.argv
ids = [x for x in sys.argv[1:] if x != "-a"] or sorted(os.listdir(V))


def one(i):
    meta = json.load(open(V + "/%s/meta.json" % i))
    w = "/tmp/rs_" + i
    subprocess.run(["rm", "-rf", w]); shutil.copytree("/repo", w, symlinks=True)
    try:
        r = subprocess.run(["git", "apply", V + "/%s/patch.diff" % i], cwd=w, capture_output=True, text=True)
        if r.returncode:
            return i, "patch does not apply"
        props = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]] if allc else [meta["property"]]
        out = []
        for p in props:
            if not os.path.exists("/verif/lh/rules/%s.py" % p):
                out.append(p + "=none"); continue
            r = subprocess.run(["python3", "/verif/check.py", p, "--root", w, "--out", w + "/.ev"], capture_output=True, text=True)
            f = [l.strip()[:150] for l in r.stdout.splitlines() if l.startswith("  ")]
            if r.returncode or not allc:
                out.append("%s=%s %s" % (p, {0: "MISSED" if p == meta["property"] else "quiet", 1: "caught"}.get(r.returncode, "ERR"), f[0] if f else ""))
        return i, " | ".join(out)
    finally:
        subprocess.run(["rm", "-rf", w])


with ThreadPoolExecutor(2) as ex:
    for i, r in ex.map(one, ids):
        print("%-32s %s" % (i, r), flush=True)
