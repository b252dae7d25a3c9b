"""Runner of the runtime-monitoring checks.

A check (rv/checks/cXX.py) consists of *scenarios*: functions taking a Ctx that drive the real API of
/repo and report to its monitors through the Ctx. One call of a scenario is one *case*; everything random
in it comes from ctx.rng, seeded by (VERIF_SEED, scenario, case number), so a case replays exactly.

Cases are spread over shard processes. Every shard has its own PYTHONHASHSEED (iteration order of sets and
dictionaries of strings is part of the environment the properties quantify over) and odd shards run with
debug logging switched on.

Verdicts: VIOLATION (exit 1), held on what was observed (exit 0), inconclusive (exit 2: a required event
was never observed, a shard died, a case neither finished nor exceeded its step budget).
"""
import collections
import hashlib
import importlib
import json
import logging
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# where evidence and replays go (elsewhere only when a scratch copy is examined)
OUT = os.environ.get("RV_OUT", VERIF)
REPO = os.environ.get("RV_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
SHARDS = 8
TOO_SLOW = "cases abandoned: too slow to judge"
CASE_CPU_S = 12            # CPU seconds after which a case is re-run under the step counter
STEP_BUDGET = 20_000_000   # executed lines of /repo code; normal cases stay below 1% of that
WALL_CAP = {"quick": 150, "thorough": 780}


class Violation(Exception):
    def __init__(self, message, mech=None):
        super().__init__(message)
        self.mech = mech


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Abandoned(BaseException):
    """The case turned out to be too expensive to judge; nothing is concluded from it."""


class Ctx:
    """What a case sees: randomness, event counters, state recorder and the oracle's verdict function."""

    def __init__(self, rng, tier, size=1.0):
        self.rng = rng
        self.tier = tier
        self.size = size
        self.events = collections.Counter()
        self.states = set()
        self.trace = collections.deque(maxlen=400)
        self.ntrace = 0
        self.nontrivial = False

    def ev(self, name, n=1):
        self.events[name] += n

    def log(self, *what):
        """Record one event of the history (call or observation) for the witness."""
        self.ntrace += 1
        self.trace.append(what)

    def state(self, key):
        """Record a distinct observed state / input class."""
        self.nontrivial = True
        self.states.add(hashlib.blake2b(repr(key).encode("utf8", "replace"), digest_size=7).hexdigest())

    def check(self, ok, message, *detail, mech=None):
        self.events["oracle verdicts"] += 1
        if not ok:
            raise Violation(message + "".join(" | %s" % (_short(d),) for d in detail), mech)

    def raises(self, fn, *args, **kw):
        """Call something that must be refused; returns the exception."""
        self.events["oracle verdicts"] += 1
        try:
            result = fn(*args, **kw)
        except Violation:           # a monitor's verdict from inside the call
            raise
        except Exception as e:      # noqa: BLE001
            return e
        raise Violation("%s%s was not refused, returned %s" % (getattr(fn, "__qualname__", fn), _short(args), _short(result)))


def _short(x, n=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:          # noqa: BLE001
        s = "<unprintable %s: %s>" % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + "..."


_REGISTRY = {}


def scenario(pid, quick, thorough=None, required=(), times=3, heavy=False):
    """Register a scenario of check `pid` with its number of cases per tier and the events it must observe.

    heavy (True, or how many times the usual CPU limit): so much work that a correct but slower implementation could look endless; a case that takes
    too long is abandoned, not judged (whether calls return at all is judged by the lighter scenarios)."""
    def deco(fn):
        _REGISTRY.setdefault(pid, []).append(dict(name=fn.__name__, fn=fn, quick=times * quick,
                                                  thorough=thorough or quick * 60, required=tuple(required), heavy=heavy))
        return fn
    return deco


def load(pid):
    import warnings
    warnings.simplefilter("ignore")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import solver
    got = os.path.realpath(solver.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("harness error: imported %s, not %s" % (got, REPO))
    mod = importlib.import_module("rv.checks." + pid.lower())
    return mod, _REGISTRY[pid]


# ---------------------------------------------------------------- executing cases

def case_rng(seed, name, i):
    return random.Random("%s/%s/%s" % (seed, name, i))


class LineCoverage:
    """Which lines of the repository's non-test files were executed (sys.monitoring, each line once)."""

    def __init__(self):
        self.hit = collections.defaultdict(set)
        self.root = os.path.realpath(REPO) + os.sep

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        self.mon = mon
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "rv")
        except ValueError:
            return
        def line(code, lineno):
            f = code.co_filename
            if f.startswith(self.root) and "test_" not in f:
                self.hit[f[len(self.root):]].add(lineno)
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


class StepCounter:
    def __init__(self, budget):
        self.n = 0
        self.budget = budget
        self.root = os.path.realpath(REPO) + os.sep

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.local

    def local(self, frame, event, arg):
        self.n += 1
        if self.n > self.budget:
            raise StepBudget()
        return self.local


def run_case(sc, seed, i, tier, counter=None):
    """Run one case. Returns (ctx, violation text or None, mech)."""
    ctx = Ctx(case_rng(seed, sc["name"], i), tier)
    ctx.rng_case = i

    def onalarm(sig, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGVTALRM, onalarm)
    limit = (5 if sc["heavy"] is True else sc["heavy"]) * CASE_CPU_S if sc["heavy"] else CASE_CPU_S if counter is None else 10 * CASE_CPU_S
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        try:
            if counter is not None:
                sys.settrace(counter)
            sc["fn"](ctx)
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
        return ctx, None, None
    except Violation as e:
        return ctx, str(e), e.mech
    except Inconclusive:
        raise
    except Abandoned as e:
        ctx.ev("cases abandoned: " + str(e))
        return ctx, None, None
    except StepBudget:
        return ctx, "no answer within %d executed lines of repository code (the call does not terminate)" % counter.budget, "nontermination"
    except CaseTimeout:
        if sc["heavy"]:
            ctx.ev(TOO_SLOW)
            return ctx, None, None
        if counter is not None and counter.n > STEP_BUDGET // 20:
            return ctx, "no answer within %d executed lines of repository code and %d s of CPU time (the call does not terminate)" % (counter.n, limit), "nontermination"
        if counter is not None:
            raise Inconclusive("case %s/%s: %ds of CPU time without exceeding the step budget" % (sc["name"], i, limit))
        return run_case(sc, seed, i, tier, StepCounter(STEP_BUDGET))
    except (KeyboardInterrupt, SystemExit) as e:
        if not type(e).__name__.startswith("Injected"):
            raise
        return ctx, "an injected failure escaped where none was expected: %s" % type(e).__name__, "unexpected failure"
    except BaseException as e:      # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb][-6:]
        return ctx, "unexpected %s: %s | at %s" % (type(e).__name__, _short(str(e)), " <- ".join(reversed(where))), "unexpected " + type(e).__name__


class StrictHandler(logging.Handler):
    """Formats every record; a record that cannot be formatted is remembered."""
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = 0
        self.failed = []

    def emit(self, record):
        self.records += 1
        try:
            record.getMessage()
        except Exception as e:      # noqa: BLE001
            self.failed.append("%s: %s (%r)" % (type(e).__name__, e, record.msg))


def quiet_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    logging.raiseExceptions = False
    root.setLevel(logging.WARNING)


def debug_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    h = StrictHandler()
    root.addHandler(h)
    root.setLevel(logging.DEBUG)
    return h


def shard_main(pid, k, seed, tier):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    quiet_logging()
    cov = LineCoverage()
    cov.start()
    mod, scs = load(pid)
    if k % 2 and not getattr(mod, "OWN_LOGGING", False):
        debug_logging()
    out = dict(shard=k, hashseed=os.environ.get("PYTHONHASHSEED"), evaluations=0, nontrivial=0, events={}, states=[],
               violations=[], samples=[], skipped=0, per_scenario={}, inconclusive=[], max_case_s=0.0)
    events = collections.Counter()
    states = set()
    t0 = time.time()
    scale = float(os.environ.get("RV_SCALE", "1"))
    plan = []
    for sc in scs:
        n = max(1, int(sc[tier] * scale))
        plan += [((i + 0.5) / n, sc, i) for i in range(k, n, SHARDS)]
    plan.sort(key=lambda x: (x[0], x[1]["name"]))     # scenarios advance together
    for _, sc, i in plan:
        if time.time() - t0 > WALL_CAP[tier]:
            out["skipped"] += 1
            continue
        c0 = time.process_time()
        try:
            ctx, bad, mech = run_case(sc, seed, i, tier)
        except Inconclusive as e:
            out["inconclusive"].append(str(e))
            continue
        out["max_case_s"] = max(out["max_case_s"], time.process_time() - c0)
        out["evaluations"] += 1
        out["per_scenario"][sc["name"]] = out["per_scenario"].get(sc["name"], 0) + 1
        events.update(ctx.events)
        out["nontrivial"] += bool(ctx.nontrivial)
        if len(states) < 400000:
            states |= ctx.states
        if len(out["samples"]) < 3 and i < SHARDS * 2 and not bad:
            out["samples"].append(dict(scenario=sc["name"], case=i, history=[_short(list(t), 160) for t in list(ctx.trace)[:8]], events=ctx.ntrace))
        if bad:
            out["violations"].append(dict(property=pid, scenario=sc["name"], case=i, seed=seed, tier=tier,
                                          hashseed=out["hashseed"], shard=k, message=bad, mech=mech,
                                          history=[_short(list(t), 300) for t in ctx.trace][-60:]))
            if len(out["violations"]) >= 3 or mech == "nontermination":
                break
    out["events"] = dict(events)
    out["states"] = sorted(states)
    out["lines"] = {f: sorted(s) for f, s in cov.hit.items()}
    sys.stdout.write(json.dumps(out))


# ---------------------------------------------------------------- parent

def known_findings(pid):
    res = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    mech, _, text = rest.partition(" :: ")
                    res.append((mech.replace("mech=", "", 1), text))
    except FileNotFoundError:
        pass
    return res


def executable_lines(path):
    """Lines that hold code, from the compiled file."""
    res = set()
    with open(path, "rb") as f:
        todo = [compile(f.read(), path, "exec", dont_inherit=True)]
    while todo:
        c = todo.pop()
        res |= {l for _, _, l in c.co_lines() if l}
        todo += [x for x in c.co_consts if hasattr(x, "co_code")]
    return res


def main(pid, seed, tier):
    import warnings
    warnings.simplefilter("ignore")
    t0 = time.time()
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               PYTHONPATH=VERIF, PYTHONWARNINGS="ignore")
    env.pop("PYTHONPYCACHEPREFIX", None)
    env["PYTHONPYCACHEPREFIX"] = os.path.join(VERIF, "__pycache__", "none")
    for k in range(SHARDS):
        e = dict(env, PYTHONHASHSEED=str(int(hashlib.sha256(("%s/%s/%d" % (seed, pid, k)).encode()).hexdigest(), 16) % 4000000000))
        if k == 0:
            e["PYTHONHASHSEED"] = "0"
        procs.append(subprocess.Popen([PYTHON, "-B", os.path.join(VERIF, "check.py"), pid, "--shard", str(k), "--seed", str(seed), "--tier", tier],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=VERIF))
    results, errors = [], []
    deadline = t0 + WALL_CAP[tier] + (240 if tier == "quick" else 90)
    import threading
    bufs = [None] * len(procs)
    def drain(j):
        bufs[j] = procs[j].communicate()
    threads = [threading.Thread(target=drain, args=(j,), daemon=True) for j in range(len(procs))]
    for t in threads:
        t.start()
    for j, t in enumerate(threads):
        t.join(max(1.0, deadline - time.time()))
        if t.is_alive():
            procs[j].kill()
            t.join(10)
            errors.append("shard %d: watchdog" % j)
            continue
        out, err = bufs[j]
        if procs[j].returncode != 0:
            errors.append("shard %d: exit %s: %s" % (j, procs[j].returncode, err.decode("utf8", "replace")[-1500:]))
            continue
        try:
            results.append(json.loads(out))
        except ValueError:
            errors.append("shard %d: unreadable output %r" % (j, out[-300:]))
    return report(pid, seed, tier, results, errors, time.time() - t0)


def report(pid, seed, tier, results, errors, wall):
    quiet_logging()
    mod, scs = load(pid)
    events = collections.Counter()
    per = collections.Counter()
    states = set()
    lines = collections.defaultdict(set)
    violations, samples, inconclusive = [], [], []
    evaluations = nontrivial = skipped = 0
    for r in results:
        events.update(r["events"])
        per.update(r["per_scenario"])
        states.update(r["states"])
        for f, l in r["lines"].items():
            lines[f].update(l)
        violations += r["violations"]
        samples += r["samples"][:1]
        inconclusive += r["inconclusive"]
        evaluations += r["evaluations"]
        nontrivial += r["nontrivial"]
        skipped += r["skipped"]
    reached = {}
    for f, l in sorted(lines.items()):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            ex = executable_lines(p)
            reached[f] = "%d/%d" % (len(l & ex), len(ex))
    known = known_findings(pid)
    listed, new = [], []
    for v in violations:
        hit = [k for k in known if k[0] == (v["mech"] or "")]
        (listed if hit else new).append((v, hit))
    cov = dict(evaluations=evaluations, distinct_nontrivial=len(states),
               rule=getattr(mod, "RULE", (mod.__doc__ or "").strip()),
               samples=samples[:4] or [dict(note="no sample: see violations")],
               events={k: events[k] for k in sorted(events)}, cases_per_scenario=dict(sorted(per.items())),
               cases_reaching_the_monitor=nontrivial, cases_skipped_at_wall_cap=skipped,
               hash_seeds=[r["hashseed"] for r in results], lines_executed_by_file=reached,
               max_case_cpu_s=round(max([r["max_case_s"] for r in results] or [0]), 3),
               exhaustive=False)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=int(seed), level="exploration", coverage=cov,
                       assumptions=getattr(mod, "ASSUMPTIONS", ["the reference model and oracle of this check in /verif/rv are right",
                                                                "only executions of this run were observed"]),
                       wall_s=round(wall, 2), violations=len(new)), f, indent=1)
        f.write("\n")
    for mech, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s %s seed=%s: %d cases, %d distinct states, %d oracle verdicts, %.1fs" %
          (pid, tier, seed, evaluations, len(states), events["oracle verdicts"], wall))
    if new:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        new.sort(key=lambda v: len(v[0]["history"]))
        shown = set()
        for v, _ in new:
            if v["message"][:60] in shown or len(shown) >= 4:
                continue
            shown.add(v["message"][:60])
            path = os.path.join(OUT, "replays", "%s-%s-%s-%s.json" % (pid, v["scenario"], v["seed"], v["case"]))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("  %s case %s: %s" % (v["scenario"], v["case"], v["message"][:1500]))
            for h in v["history"][-12:]:
                print("      %s" % h)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    missing = ["%s: %s" % (sc["name"], e) for sc in scs for e in sc["required"] if not events[e] and not (sc["heavy"] and events[TOO_SLOW])]
    if errors or inconclusive or missing or not evaluations or not states:
        for e in errors + inconclusive[:5]:
            print("INCONCLUSIVE: " + e)
        for e in missing:
            print("INCONCLUSIVE: never observed " + e)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != str(v["hashseed"]):
        os.execve(PYTHON, [PYTHON, "-B", os.path.join(VERIF, "check.py"), "--replay", path],
                  dict(os.environ, PYTHONHASHSEED=str(v["hashseed"]), PYTHONPATH=VERIF))
    quiet_logging()
    mod, scs = load(v["property"])
    if v["shard"] % 2 and not getattr(mod, "OWN_LOGGING", False):
        debug_logging()
    sc = [s for s in scs if s["name"] == v["scenario"]][0]
    ctx, bad, mech = run_case(sc, v["seed"], v["case"], v["tier"])
    for t in ctx.trace:
        print("  ", _short(list(t), 400))
    print("verdict:", bad or "held")
    return 1 if bad else 0
