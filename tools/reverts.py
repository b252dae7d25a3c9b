#!/usr/bin/env python3
"""Undo every "fix:" commit, one at a time, in a scratch copy: does the check of its property report the defect again?
tools/reverts.py [commit ...]   (commits whose reversal conflicts with later ones are listed)"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def main():
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"fixed: property=(C\d\d) (\w+) (.*)", line)
        if not m or (sys.argv[1:] and m[2] not in sys.argv[1:]):
            continue
        pid, commit, text = m.groups()
        tmp = tempfile.mkdtemp(prefix="revert_")
        try:
            copy = os.path.join(tmp, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
            patch = subprocess.run(["git", "-C", "/repo", "show", "--no-color", commit], stdout=subprocess.PIPE, check=True).stdout
            r = subprocess.run(["git", "-C", copy, "apply", "-R", "--3way"], input=patch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print(commit, pid, "CONFLICT |", text, flush=True)
                continue
            r = subprocess.run([PY, "-B", os.path.join(VERIF, "check.py"), pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, RV_REPO=copy, RV_OUT=os.path.join(tmp, "out"), VERIF_TIER="quick", VERIF_SEED="1"))
            first = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")][:1]
            print(commit, pid, {1: "reported", 0: "MISSED"}.get(r.returncode, "rc=%d" % r.returncode), "|", text, "|", (first or [""])[0][:110], flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
