#!/usr/bin/env python3
"""Systematic single-site mutants of the library: which survive the repository's tests, and which of those no check reports.
tools/mutate.py [file-prefix ...]   (scratch copies only; results in /tmp/mutants.log)"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = {
    "solver/graph.py": "C01 C02 C03 C28",
    "solver/method.py": "C04 C05 C06 C07 C08 C09 C10 C28",
    "solver/geometric/constraint.py": "C11 C12 C28",
    "solver/geometric/cluster.py": "C13 C14 C19 C28",
    "solver/geometric/configuration.py": "C16 C17 C18 C19 C28",
    "solver/geometric/relation.py": "C15 C28 C14",
    "solver/geometry.py": "C20 C21 C22 C23 C24 C25 C26 C27 C16 C12 C28",
}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult]}


def is_doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)


def is_log(n):
    return isinstance(n, ast.Expr) and "getLogger" in ast.dump(n)


def mutants(src):
    """Yields (description, new source) with one site changed, keeping the rest of the text by line splicing of the statement."""
    tree = ast.parse(src)
    sites = []

    def visit(node, parents):
        for name, value in ast.iter_fields(node):
            items = value if isinstance(value, list) else [value]
            for k, ch in enumerate(items):
                if isinstance(ch, ast.AST):
                    visit_site(ch, node, name, k if isinstance(value, list) else None)
                    if not is_doc(ch) and not is_log(ch):
                        visit(ch, parents + [node])

    def visit_site(n, parent, field, k):
        if is_doc(n) or is_log(n):
            return
        put = lambda new: sites.append((n, parent, field, k, new))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                c = copy.deepcopy(n)
                c.ops = [o()]
                put(c)
        if isinstance(n, ast.BoolOp):
            c = copy.deepcopy(n)
            c.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(c)
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    c = copy.deepcopy(n)
                    del c.values[i]
                    put(c if len(c.values) > 1 else c.values[0])
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                c = copy.deepcopy(n)
                c.op = o()
                put(c)
            if not isinstance(n.op, ast.Mod):
                put(copy.deepcopy(n.left))
                put(copy.deepcopy(n.right))
        if isinstance(n, ast.UnaryOp):
            put(copy.deepcopy(n.operand))
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
            c = copy.deepcopy(n)
            c.test = ast.UnaryOp(op=ast.Not(), operand=c.test)
            put(c)
            if isinstance(n, ast.If):
                c = copy.deepcopy(n)
                c.test = ast.Constant(True)
                put(c)
                c = copy.deepcopy(n)
                c.test = ast.Constant(False)
                put(c)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None))) and not isinstance(parent, ast.Expr):
            if isinstance(n.value, bool):
                put(ast.Constant(not n.value))
            elif isinstance(n.value, (int, float)):
                put(ast.Constant(n.value + 1))
                if n.value:
                    put(ast.Constant(0))
        if isinstance(n, ast.Constant) and n.value is None and isinstance(parent, ast.Return):
            put(ast.Constant(0))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(ast.Return(value=ast.Constant(None)))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            put(ast.Pass())
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            c = copy.deepcopy(n)
            c.args[0], c.args[1] = c.args[1], c.args[0]
            put(c)
        if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "frozenset", "tuple", "dict", "float", "int", "abs", "sorted", "copy"):
            put(copy.deepcopy(n.args[0]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            put(copy.deepcopy(n.func.value))
        if isinstance(n, (ast.Break, ast.Continue)):
            put(ast.Pass())
        if isinstance(n, ast.For):
            c = copy.deepcopy(n)
            c.iter = ast.Subscript(value=ast.Call(func=ast.Name("list", ast.Load()), args=[c.iter], keywords=[]), slice=ast.Slice(lower=ast.Constant(1)), ctx=ast.Load())
            put(c)
            c = copy.deepcopy(n)
            c.iter = ast.Subscript(value=ast.Call(func=ast.Name("list", ast.Load()), args=[c.iter], keywords=[]), slice=ast.Slice(upper=ast.UnaryOp(ast.USub(), ast.Constant(1))), ctx=ast.Load())
            put(c)

    visit(tree, [])
    for n, parent, field, k, new in sites:
        old = getattr(parent, field)
        if k is None:
            setattr(parent, field, new)
        else:
            old = old[k]
            getattr(parent, field)[k] = new
        try:
            ast.fix_missing_locations(ast.copy_location(new, n))
            text = ast.unparse(tree)
            desc = "%d: %s  ->  %s" % (n.lineno, ast.unparse(n).split("\n")[0][:90], ast.unparse(new).split("\n")[0][:90])
        except Exception as e:      # noqa: BLE001
            text = None
        finally:
            if k is None:
                setattr(parent, field, old)
            else:
                getattr(parent, field)[k] = old
        if text:
            yield desc, text


def run(cmd, cwd, T, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=T)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def stable(copy_):
    rc, out = run([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-rA", copy_], copy_, 60, PYTHONPATH=copy_, PYTHONHASHSEED="0")
    return {l.split()[1].split("::", 1)[1] for l in out.splitlines() if l.startswith("PASSED")}


def one(args):
    file, desc, text, base, checks = args
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        c = os.path.join(tmp, "repo")
        shutil.copytree("/repo", c, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        open(os.path.join(c, file), "w").write(text)
        if base - stable(c):
            return file, desc, "tests"
        odd = []
        for pid in checks.split():
            rc, out = run([sys.executable, os.path.join(VERIF, "check.py"), pid], VERIF, 400, RV_REPO=c, RV_OUT=tmp, RV_SCALE=os.environ.get("RV_SCALE", "0.34"), VERIF_TIER="quick", VERIF_SEED="1")
            if rc == 1:
                return file, desc, "caught " + pid
            if rc:
                odd.append("%s rc=%d" % (pid, rc))
        return file, desc, "SURVIVES " + " ".join(odd)
    finally:
        shutil.rmtree(tmp)


def main():
    want = sys.argv[1:]
    base = stable("/repo")
    jobs = []
    for f, checks in FILES.items():
        if want and not any(f.split("/")[-1].startswith(w) for w in want):
            continue
        src = open(os.path.join("/repo", f)).read()
        seen = {ast.unparse(ast.parse(src))}
        for desc, text in mutants(src):
            if text not in seen and int(desc.split(":")[0]) >= int(os.environ.get("FROM", "0")):
                seen.add(text)
                jobs.append((f, desc, text, base, checks))
    print(len(jobs), "mutants", flush=True)
    count = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for f, desc, res in ex.map(one, jobs):
            count[res.split()[0]] = count.get(res.split()[0], 0) + 1
            if res.startswith("SURV") or os.environ.get("ALL"):
                print(f, desc, "|", res, flush=True)
    print(count, flush=True)


main()
