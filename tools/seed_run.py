#!/usr/bin/env python3
"""Runs the check of each planted bug's property on a scratch copy of /repo with the bug applied.

usage: seed_run.py [--all-checks] [--seed N] [ID...]      (development tool; no check uses it)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(VERIF, "seeded"))
args = sys.argv[1:]
allc = "--all-checks" in args
seed = "1"
if "--seed" in args:
    i = args.index("--seed")
    seed = args[i + 1]
    del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
missed = []
for i in ids:
    d = os.path.join(SEEDED, i)
    m = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && patch -s -p1 < %s/patch.diff" % (w, w, d), shell=True, check=True)
        props = ["C%02d" % k for k in range(1, 29)] if allc else [m["property"]]
        out = []
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), p], env=dict(os.environ, VF_REPO=w, VERIF_SEED=seed, VERIF_TIER="quick"), capture_output=True, text=True)
            ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
            if not allc or r.returncode:
                what = [x for x in r.stdout.splitlines() if x.startswith("what:")]
                out.append("%s rc=%d %.0fs %s" % (p, r.returncode, time.time() - t, (what[0][:170] if what else r.stdout[-200:].strip())))
            if p == m["property"] and not ok:
                missed.append(i)
        print(i, "CAUGHT" if i not in missed else "MISSED", "|", "; ".join(out), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
print("missed:", missed)
