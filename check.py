#!/opt/venv/bin/python
"""check.py C01          run a check (VERIF_SEED, VERIF_TIER from the environment)
   check.py --replay F   re-run the case of a violation"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
for f in (sys.stdout, sys.stderr):
    f.reconfigure(errors="backslashreplace")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv import core     # noqa: E402

a = argparse.ArgumentParser()
a.add_argument("pid", nargs="?")
a.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
a.add_argument("--shard", type=int)
a.add_argument("--replay")
a.add_argument("--selftest", action="store_true")
args = a.parse_args()
if args.selftest:
    core.quiet_logging()
    for k in range(1, 29):
        core.load("C%02d" % k)
    print("28 checks load")
    sys.exit(0)
if args.replay:
    sys.exit(core.replay(args.replay))
if args.shard is not None:
    core.shard_main(args.pid, args.shard, args.seed, args.tier)
    sys.exit(0)
sys.exit(core.main(args.pid, args.seed, args.tier))
