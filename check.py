#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--root /repo]

Decides one property of /verif/properties.jsonl from the source of the repository.
Exit 0: held on everything analysed.  Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: the analysis itself is broken (vanished anchor, too few decided obligations).
"""
import argparse
import collections
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from lh.run import Rec, AnalysisError, site_str  # noqa: E402


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split("key=", 1)[1]
                key, what = rest.split(" :: ", 1)
                out.append((key.strip(), what.strip()))
    return out


def work(job):
    prop, unit, root, tier = job
    mod = importlib.import_module("lh.rules." + prop)
    t = time.time()
    try:
        recs = mod.run_unit(unit, root, tier)
        return unit, [r for r in recs], None, time.time() - t
    except AnalysisError as e:
        return unit, [], "AnalysisError: %s" % e, time.time() - t
    except RecursionError:
        return unit, [], "recursion limit", time.time() - t
    except Exception:
        return unit, [], traceback.format_exc(), time.time() - t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--unit")
    ap.add_argument("--out", default=os.path.join(HERE, "evidence"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    mod = importlib.import_module("lh.rules." + prop)
    if getattr(mod, "NEEDS_SYMPY", False):
        from lh.alg import ensure_vt
        ensure_vt()
    try:
        units = mod.units(a.root, a.tier)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    if a.unit:
        units = [u for u in units if a.unit in repr(u)]
    jobs = [(prop, u, a.root, a.tier) for u in units]
    recs, errors = [], []
    n = min(8, os.cpu_count() or 4, max(1, len(jobs)))
    with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=4) as pool:
        for unit, rs, err, dt in pool.imap_unordered(work, jobs, chunksize=1):
            recs += rs
            if err:
                errors.append((unit, err))
            if a.v:
                print("  unit %-40s %6.1fs %d records%s" % (unit, dt, len(rs), " ERROR" if err else ""))
    if hasattr(mod, "finish") and not a.unit:
        recs += mod.finish(recs, a.root, a.tier)
    recs.sort(key=lambda r: (r.rule, str(r.unit), str(r.construct)))
    bad = [r for r in recs if r.status == "bad"]
    und = [r for r in recs if r.status == "und"]
    ok = [r for r in recs if r.status == "ok"]
    kn = known_findings(prop)
    seen, new = set(), []
    for r in bad:
        for key, what in kn:
            if r.key == key:
                if key not in seen:
                    print("KNOWN-FINDING: property=%s %s [%s]" % (prop, what, site_str(r.site)))
                seen.add(key)
                break
        else:
            new.append(r)
    for r in und:
        print("UNDECIDED rule=%s unit=%s construct=%s: %s" % (r.rule, r.unit, r.construct, r.msg))
    for u, e in errors:
        print("ANALYSIS-ERROR unit=%s: %s" % (u, e.strip().splitlines()[-1]))
        if a.v:
            print(e)
    floor = getattr(mod, "FLOOR", 1)
    broken = not a.unit and (len({(r.unit) for r in ok + bad}) < getattr(mod, "FLOOR_UNITS", 1) or len(ok) + len(bad) < floor)
    os.makedirs(os.path.join(a.out, "replays"), exist_ok=True)
    rule_counts = collections.Counter((r.rule, r.status) for r in recs)
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": mod.EXPLANATION,
            "units_analysed": len(units),
            "obligations_decided_ok": len(ok),
            "obligations_violated": len(bad),
            "obligations_undecided": len(und),
            "known_findings": len(seen),
            "per_rule": {"%s/%s" % k: v for k, v in sorted(rule_counts.items())},
            "analysis_errors": ["%s: %s" % (u, e.strip().splitlines()[-1]) for u, e in errors],
            "rules": {k: v for k, v in sorted(getattr(mod, "RULES", {}).items())},
            "constructs": [{"rule": r.rule, "unit": str(r.unit), "construct": str(r.construct), "status": r.status,
                            "site": site_str(r.site) if r.site else None} for r in recs][:600],
            "undecided": [{"rule": r.rule, "unit": str(r.unit), "construct": str(r.construct), "why": r.msg} for r in und],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(a.out, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("property=%s tier=%s units=%d obligations ok=%d undecided=%d violated=%d (known %d) errors=%d %.1fs" % (
        prop, a.tier, len(units), len(ok), len(und), len(new), len(seen), len(errors), time.time() - t0))
    if new:
        replay = os.path.join(a.out, "replays", prop + ".json")
        with open(replay, "w") as fh:
            json.dump([r.as_dict() for r in new], fh, indent=1, default=str)
        for r in new[:20]:
            print("  %s: rule %s, unit %s: %s [%s]" % (site_str(r.site), r.rule, r.unit, r.msg, r.construct))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s only %d obligations decided (floor %d)" % (prop, len(ok) + len(bad), floor))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
