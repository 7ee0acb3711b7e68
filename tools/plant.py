#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: build seeded/<id>/ from a spec list and verify each in scratch copies.

A spec is dict(id, prop, file, edits=[(old, new)], needs, breaks, demo).  Kept only when the patch applies, touches
original lines, the stable tests pass with it, and the demo passes without and fails with it."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = "/verif/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO_SH = """#!/bin/bash
# exit 0: the property holds in the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" NUMBA_DISABLE_JIT=%d
export NUMBA_CACHE_DIR=$(mktemp -d)
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
timeout 250 /opt/venv/bin/python "$here/demo.py"
"""
HEAD = """import sys
import warnings
import numpy as np
warnings.simplefilter("ignore")
np.seterr(all="ignore")


def kepler(mu, r, v, t):
    # universal-variable propagation of a state, independent of the package
    r = np.asarray(r, float); v = np.asarray(v, float)
    r0 = np.linalg.norm(r); vr = r @ v / r0; al = 2 / r0 - v @ v / mu
    def stumpff(z):
        if z > 1e-6:
            s = np.sqrt(z); return (1 - np.cos(s)) / z, (s - np.sin(s)) / s**3
        if z < -1e-6:
            s = np.sqrt(-z); return (1 - np.cosh(s)) / z, (np.sinh(s) - s) / s**3
        return 0.5 - z / 24, 1 / 6 - z / 120
    def F(x):
        c, s = stumpff(al * x * x)
        return r0 * vr / np.sqrt(mu) * x * x * c + (1 - al * r0) * x**3 * s + r0 * x - np.sqrt(mu) * t
    hi = 1.0
    while F(hi) < 0:
        hi *= 2
    lo = 0.0
    for _ in range(200):
        m = (lo + hi) / 2
        if F(m) < 0: lo = m
        else: hi = m
    x = (lo + hi) / 2
    c, s = stumpff(al * x * x)
    f = 1 - x * x / r0 * c; g = t - x**3 * s / np.sqrt(mu)
    R = f * r + g * v; rn = np.linalg.norm(R)
    fd = np.sqrt(mu) / (rn * r0) * (al * x**3 * s - x); gd = 1 - x * x / rn * c
    return R, fd * r + gd * v


"""


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          env={**os.environ, **(env or {})}, timeout=timeout)


def one(s):
    pid = s["id"]
    d = os.path.join(V, pid)
    w = "/tmp/plant_" + pid
    subprocess.run(["rm", "-rf", w])
    shutil.copytree("/repo", w, symlinks=True)
    stage = w + "_seed"
    subprocess.run(["rm", "-rf", stage])
    os.makedirs(stage)
    try:
        for f, old, new in [(e if len(e) == 3 else (s["file"],) + tuple(e)) for e in s["edits"]]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return pid, "FAIL: %d matches in %s of %r" % (t.count(old), f, old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", w).stdout
        open(stage + "/patch.diff", "w").write(diff)
        open(stage + "/demo.py", "w").write((HEAD if s.get("head", True) else "") + s["demo"].lstrip("\n"))
        open(stage + "/demo.sh", "w").write(DEMO_SH % (0 if s.get("jit") else 1))
        os.chmod(stage + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(stage + "/meta.json", "w"), indent=1)
        # original lines only
        base = sh("git rev-list --max-parents=0 HEAD", w).stdout.strip()
        for m in re.finditer(r"^--- a/(\S+)\n.*?(?=^--- a/|\Z)", diff, re.S | re.M):
            orig = sh("git show %s:%s" % (base, m.group(1)), w).stdout.splitlines()
            for l in m.group(0).splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig:
                    return pid, "FAIL: removes a line not in the original: " + l
        r = sh("bash %s/demo.sh" % stage, "/repo")
        if r.returncode != 0:
            return pid, "FAIL: demo on clean tree: " + r.stdout[-300:]
        r = sh("bash %s/demo.sh" % stage, w)
        if r.returncode == 0:
            return pid, "FAIL: demo passes with the patch: " + r.stdout[-300:]
        why = r.stdout.strip().splitlines()[-1:] 
        t = open("/opt/vp/test.sh").read().replace("/repo", w).replace('tests\n}', 'tests\n}', 1)
        t = t.replace("timeout -s INT", 'PYTHONPATH="%s/src" timeout -s INT' % w)
        t = t.replace("interpreted 240", "interpreted 600").replace("benchmark 300", "benchmark 900")
        open(stage + "/.test.sh", "w").write(t)
        r = sh("bash %s/.test.sh %s/.out.json" % (stage, stage), w, timeout=1800)
        os.remove(stage + "/.test.sh")
        try:
            out = json.load(open(stage + "/.out.json"))
            os.remove(stage + "/.out.json")
        except Exception:
            return pid, "FAIL: tests gave nothing: " + r.stdout[-300:]
        want = BASE.get("passed") or BASE.get("stable") or BASE
        got = set(out["passed"]) if isinstance(out.get("passed"), list) else {k for k, v in out.items() if v in ("passed", True)}
        miss = [x for x in want if x not in got]
        if miss:
            return pid, "FAIL: %d tests fail, e.g. %s" % (len(miss), miss[:2])
        subprocess.run(["rm", "-rf", d])
        shutil.copytree(stage, d)
        return pid, "ok (%s)" % (why[0][:120] if why else "")
    finally:
        subprocess.run(["rm", "-rf", w, stage])


def main():
    sp = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    todo = [s for s in m.SPECS if (not sys.argv[2:] and not os.path.exists(os.path.join(V, s["id"], "patch.diff"))) or s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(7) as ex:
        for pid, res in ex.map(one, todo):
            print(pid, res, flush=True)


main()
