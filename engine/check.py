#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property for /repo's current source."""
import argparse
import importlib
import json
import os
import re
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)


class Report:
    def __init__(self, db, tier):
        self.db = db
        self.tier = tier
        self.violations = {}
        self.obligations = 0
        self.discharged = 0
        self.fns = set()
        self.samples = []
        self.notes = []
        self.rules = {}
        self.open = {}

    def undecided(self, rule, key, why):
        """An obligation the analysis gives no answer to on this source."""
        self.obligations += 1
        self.rules.setdefault(rule, [0, 0])[0] += 1
        self.open.setdefault("%s: %s" % (rule, key), why)
        return False

    def ob(self, rule, ok, key, msg, exact=True):
        """One obligation. `key` identifies the construct (no line numbers);
        `exact` is whether a failure is one of the code, and not one of
        following it."""
        if not ok and (not exact or rule == "anchor"):
            return self.undecided(rule, key, msg)
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.discharged += 1
            r[1] += 1
            if len(self.samples) < 40:
                self.samples.append("%s: %s" % (rule, key))
        else:
            self.violations.setdefault("%s: %s" % (rule, key), msg)
        return ok

    def merge(self, o):
        """what another process found"""
        for k, (n, d) in o["rules"].items():
            r = self.rules.setdefault(k, [0, 0])
            r[0] += n
            r[1] += d
        self.obligations += o["obligations"]
        self.discharged += o["discharged"]
        for k, m in o["violations"].items():
            self.violations.setdefault(k, m)
        for k, m in o["open"].items():
            self.open.setdefault(k, m)
        self.fns |= o["fns"]
        self.samples = (self.samples + o["samples"])[:40]
        self.notes += o["notes"]

    def jobs(self, jobs, procs=8):
        """Independent parts in processes of their own: (name, f, args)."""
        if os.environ.get("VERIF_ONLY"):
            jobs = [j for j in jobs if re.search(os.environ["VERIF_ONLY"], j[0])]
        if os.environ.get("VERIF_SERIAL"):
            for name, f, args in jobs:
                self.merge(part(self.db, self.tier, name, f, args))
            return
        import multiprocessing as mp
        global _JOBS
        _JOBS = (self.db, self.tier, jobs)
        with mp.get_context("fork").Pool(min(procs, len(jobs) or 1)) as p:
            for o in p.imap(_job, range(len(jobs)), chunksize=1):
                self.merge(o)

    def analysed(self, I):
        self.fns |= I.inlined

    def fn(self, f):
        self.fns.add(f.h)


def part(db, tier, name, f, args):
    r = Report(db, tier)
    try:
        f(r, *args)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        r.undecided("analysis", name, repr(e)[:300])
    return {k: getattr(r, k) for k in ("rules", "obligations", "discharged", "violations", "open", "fns", "samples", "notes")}


_JOBS = None


START = time.time()
LIMIT = 720


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout("takes too long")


def _job(i):
    sys.setrecursionlimit(20000)
    db, tier, jobs = _JOBS
    # a shape of the source for which the analysis does not get done is one
    # for which it has no answer
    signal.signal(signal.SIGALRM, _alarm)
    left = LIMIT - (time.time() - START)
    signal.alarm(max(1, min(int(left), 60 if tier == "quick" else 300)))
    try:
        return part(db, tier, *jobs[i])
    finally:
        signal.alarm(0)


def known():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            # <property> | <key> | <description>
            a = [x.strip() for x in l.split("|", 2)]
            if len(a) == 3:
                out[(a[0], a[1])] = a[2]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--dump", default=None)
    a = ap.parse_args()
    t0 = time.time()
    import build
    import db as D
    out = a.dump or build.dump()
    t1 = time.time()
    mod = importlib.import_module("r_" + a.id.lower())
    db = D.DB(out, getattr(mod, "CRATES", ()))
    rep = Report(db, a.tier)
    try:
        mod.check(rep)
    except Exception as e:
        # the source has a shape the analysis does not follow: no answer is
        # not an alarm, but it is not hidden either
        import traceback
        traceback.print_exc()
        rep.undecided("analysis", a.id, repr(e)[:300])
    kn = known()
    bad = []
    for k, m in sorted(rep.violations.items()):
        if (a.id, k) in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.id, k, kn[(a.id, k)]))
        else:
            bad.append((k, m))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    names = sorted(db.fns[h].d for h in rep.fns if h in db.fns)
    ev = {
        "property": a.id,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "explanation": mod.EXPLANATION,
            "obligations": rep.obligations,
            "discharged": rep.discharged + (len(rep.violations) - len(bad)),
            "checker_cmd": "python3 engine/check.py %s --tier %s" % (a.id, a.tier),
            "trusted_base": "rustc's MIR construction, type checking and layout computation; the abstract interpreter in engine/ and its models of the standard library",
            "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(rep.rules.items())},
            "functions_analysed": len(names),
            "functions": names[:400],
            "samples": rep.samples,
            "notes": rep.notes,
            "open": [k for k, _ in bad],
            "undecided": rep.open,
        },
        "wall_s": round(time.time() - t0, 3),
    }
    p = os.path.join(ROOT, "evidence", a.id + ".json")
    with open(p, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d functions (dump %.1fs, analysis %.1fs)" % (
        a.id, rep.obligations, rep.discharged, len(names), t1 - t0, time.time() - t1))
    for k, v in sorted(rep.rules.items()):
        print("  %-28s %d/%d" % (k, v[1], v[0]))
    if rep.obligations == 0:
        rep.open["analysis: " + a.id] = "the rule found none of the constructs it applies to"
    for k, m in list(sorted(rep.open.items()))[:20]:
        print("  UNDECIDED %s -- %s" % (k, m))
    for k, m in bad:
        print("  %s -- %s" % (k, m))
    if bad:
        print("VIOLATION property=%s replay=%s" % (a.id, os.path.relpath(p, ROOT)))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
