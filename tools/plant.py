#!/usr/bin/env python3
"""Build and confirm planted bugs: tools/plant.py [--check] [id ...]
For each seed of tools/seeds*.py: make the change in a scratch copy of /repo, write patch.diff, confirm that the stable
tests pass, that the demonstration passes on the unchanged tree and fails on the changed one, write /verif/seeded/<id>
and (with --check) run the property's check against the scratch copy."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds  # noqa: E402
import seeds2  # noqa: E402,F401
import seeds3  # noqa: E402,F401
import seeds4  # noqa: E402,F401
import seeds5  # noqa: E402,F401
import seeds6  # noqa: E402,F401
import seeds7  # noqa: E402,F401
import seeds8  # noqa: E402,F401
import seeds9  # noqa: E402,F401
import seeds10  # noqa: E402,F401
import seeds11  # noqa: E402,F401

VERIF = os.path.dirname(HERE)
STABLE = set()
PY = "/opt/venv/bin/python"
HEAD = '''"""Exits 0 when the behaviour holds, nonzero when it does not. Run with the repository as working directory."""
import os
import sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
'''
SH = '''#!/bin/bash
exec %s -B "$(dirname "$0")/demo.py"
''' % PY


def run(cmd, cwd, T=60, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=T)


def tests(copy):
    r = run([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--log-level=DEBUG", "--continue-on-collection-errors", "-rA", copy], copy, PYTHONPATH=copy, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    return {l.split()[1].split("::", 1)[1] for l in r.stdout.splitlines() if l.startswith("PASSED")}, r.stdout


def plant(s, base, docheck):
    out = []
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        f = os.path.join(copy, s["file"])
        text = open(f).read()
        for old, new in s["subs"]:
            if text.count(old) != 1:
                return s["id"], "BAD substitution: %d matches of %r" % (text.count(old), old[:80])
            text = text.replace(old, new)
        open(f, "w").write(text)
        diff = run(["git", "diff"], copy).stdout
        # lines removed must be original
        blame = subprocess.run(["git", "blame", "-s", "--abbrev=8", s["file"]], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.splitlines()
        orig = [l.startswith("^") for l in blame]
        removed, ln = [], 0
        for l in diff.splitlines():
            if l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                removed.append(orig[ln - 1])
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if not any(removed):
            out.append("NO ORIGINAL LINE CHANGED")
        elif not all(removed):
            out.append("(also changes fixed lines)")
        passed, log = tests(copy)
        if base - passed:
            out.append("TESTS FAIL %s" % sorted(base - passed))
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        for seed in ("0", "1", "random"):
            r = run(["bash", os.path.join(d, "demo.sh")], "/repo", PYTHONHASHSEED=seed)
            if r.returncode != 0:
                out.append("DEMO FAILS ON CLEAN TREE " + r.stdout[-300:])
                break
            r = run(["bash", os.path.join(d, "demo.sh")], copy, PYTHONHASHSEED=seed)
            if r.returncode == 0:
                out.append("DEMO PASSES WITH BUG")
                break
        if docheck:
            r = run([sys.executable, os.path.join(VERIF, "check.py"), s["prop"]], VERIF, RV_REPO=copy, T=900, VERIF_SEED="1", VERIF_TIER="quick", RV_OUT=tmp)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + s["prop"])]
            out.append("caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode)
            if v:
                out.append(r.stdout.splitlines()[0][:150])
        if any(o.startswith(("NO ORIG", "TESTS FAIL", "DEMO")) for o in out):
            shutil.rmtree(d)        # exercised by --check, but not kept: it does not meet the conditions
        return s["id"], " | ".join(out)
    except subprocess.TimeoutExpired as e:
        return s["id"], " | ".join(out) + " TIMEOUT %s" % str(e)[:200]
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    docheck = "--check" in args
    ids = [a for a in args if not a.startswith("--")]
    base, log = tests("/repo")
    print("stable:", len(base))
    known = {s["id"] for s in seeds.SEEDS}
    for name in os.listdir(os.path.join(VERIF, "seeded")):
        if name not in known:
            shutil.rmtree(os.path.join(VERIF, "seeded", name))
    todo = [s for s in seeds.SEEDS if not ids or any(s["id"].startswith(i) for i in ids)]
    with cf.ThreadPoolExecutor(2 if docheck else 7) as ex:
        for i, o in ex.map(lambda s: plant(s, base, docheck), todo):
            print(i, "|", o, flush=True)


main()
