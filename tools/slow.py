#!/usr/bin/env python3
"""Slowest cases of a check: tools/slow.py C09 [seed] [fraction]"""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("RV_REPO", "/repo"))
from rv import core
pid, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
frac = float(sys.argv[3]) if len(sys.argv) > 3 else 1
importlib.import_module("rv.checks." + pid.lower())
core.quiet_logging()
for sc in core._REGISTRY[pid]:
    n = int(sc["quick"] * frac)
    ts = []
    for i in range(n):
        t = time.process_time()
        ctx, err, _ = core.run_case(sc, seed, i, "quick")
        ts.append((time.process_time() - t, i))
        if err:
            print("   ", sc["name"], i, err[:200])
    ts.sort(reverse=True)
    print(sc["name"], n, "total %.1fs" % sum(t for t, _ in ts), ["%.2fs #%d" % x for x in ts[:5]])
