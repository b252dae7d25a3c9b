#!/opt/venv/bin/python
"""Writes MANIFEST.json."""
import json
import os

T = {
 "C01": "online monitor on every Graph method (set-model specification) under edit histories and exhaustive short histories",
 "C02": "online monitor on derived graphs and their sources (independent set models) while both are edited",
 "C03": "answers of reachability queries against an own closure over the reported edges; step budget for termination",
 "C04": "history oracle: topological re-evaluation of every state after propagation, plus monitor on every execute call",
 "C05": "history oracle: acceptance predicted by a reachability model; state compared after every refusal",
 "C06": "history oracle over removals and re-additions, monitor on every execute call",
 "C07": "deferred-change histories against re-evaluation and differently scheduled twins",
 "C08": "fault injection at chosen executions, re-evaluation after recovery, refused operations",
 "C09": "monitor on every multi_execute call; outputs against the product of the current values",
 "C10": "differential oracle on direct and in-graph executions, read-only and snapshotted input mappings",
 "C11": "history oracle: set model of the live constraints, all queries after every edit",
 "C12": "verdicts of selection constraints against exact rational geometry and recorded calls of user functions",
 "C13": "result oracle: intersection model over kinds, points and centres; operand snapshots",
 "C14": "enumeration oracle for distances, angles and common constraints of clusters",
 "C15": "identity oracle on relations: equality, hash, sets and dictionaries",
 "C16": "rigid-motion oracle (complex arithmetic, best fit) on merges and chains of merges",
 "C17": "verdict oracle over coincidence patterns, copies and chains of merges",
 "C18": "congruence oracle (complex arithmetic) on equality and hashing of configurations",
 "C19": "operand snapshots around every call and after editing results, repeated calls",
 "C20": "60-digit arithmetic oracle on circle-circle intersections",
 "C21": "60-digit arithmetic oracle on circle-line and circle-ray intersections",
 "C22": "60-digit arithmetic oracle on line and ray intersections",
 "C23": "exact rational oracle on orientation and angles, metamorphic renaming and motion",
 "C24": "complex-arithmetic oracle on frames and the images of points",
 "C25": "exact product and residual oracles on matrices of every shape",
 "C26": "float and complex arithmetic oracle on vectors of every magnitude",
 "C27": "exact rational oracle on tolerant comparisons at, inside and outside the boundary",
 "C28": "text monitors with state snapshots, strict log handler, runs compared with logging on and off",
}
NOTE = ("Held on every execution observed: randomised and partly enumerated workloads of the real code in 8 processes with different hash seeds, half of them "
        "with debug logging, each judged by an independent oracle. Trusts the reference model in rv/ and says nothing about executions not generated; "
        "the bounds and tolerance bands are in DESIGN.md.")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = dict(version=1, setup_cmd="/opt/venv/bin/python -B check.py --selftest",
           checks=[dict(property=p, quick_cmd="VERIF_TIER=quick /opt/venv/bin/python -B check.py " + p,
                        thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python -B check.py " + p,
                        evidence_file="evidence/%s.json" % p, technique="runtime monitoring: " + t, level="exploration", level_note=NOTE) for p, t in T.items()],
           not_applicable=[],
           notes="No hooks in /repo: the monitors attach from outside (method wrapping, sys.monitoring, sys.settrace). check.py --replay FILE re-runs the case of a violation. "
                 "Exit 2 means inconclusive (a required event was never observed or a worker died).")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
