#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HOME, "properties.jsonl"))]
TECH = {
    "P01": "seeded simulation of histories of runs, aborts and input changes; refinement against a fresh model",
    "P02": "seeded simulation with fault histories; conservation and bound invariants checked every step",
    "P03": "seeded simulation over solvers, options and fault histories; each step's optimum against an independent LP",
    "P04": "seeded simulation of scenario selections; cross-run comparison per combination and against declared inputs",
    "P05": "seeded scheduler interleaving several models' steps and faults; comparison with each model run alone",
    "P06": "seeded simulation with disk fault injection at the file seams; files compared with the recorded history",
    "P07": "seeded fault injection in every phase of every component; lifecycle log checked against the protocol",
    "P08": "seeded simulation with histories; independent calendar reference model of licences and virtual storages",
    "P09": "seeded simulation of timestepper histories; independent clock reference",
    "P10": "seeded simulation with aborted and partial histories; delay-line reference over the recorded history",
    "P11": "seeded simulation of coupled models with faults in any of them; lock-step and value exchange against reference",
    "P12": "seeded simulation of definition orders and dependency graphs with lifecycle log; order invariants",
    "P13": "seeded permutation of documents and loading routes; refinement between the simulated runs",
    "P14": "seeded I/O fault injection (short reads, read errors, damaged bytes) behind the file seam",
    "P15": "seeded simulation with aborts; event reference computed from the recorded history",
    "P16": "seeded simulation with histories; feedback values recomputed from the recorded previous steps",
    "P17": "seeded simulation with histories and aborts; every recorder folded again from the recorded history",
    "P18": "seeded simulation of optimiser evaluation sequences with failing evaluations; refinement against fresh models",
    "P19": "seeded simulation with histories; aggregates recomputed from members at every step",
    "P20": "seeded simulation of input and failure changes after a cut; prefix comparison of histories",
}
NOTE = ("Seeded search: every explored run is decided exactly (within floating point tolerances), runs not explored are not covered. "
        "Trusts the reference oracle in /verif/sim and the Python/Cython toolchain.")
NA = {
    "P21": "Aligning and resampling are pure functions of one table: no schedule, clock, I/O, fault or history for a simulator to control; testing them on many inputs would be plain generation, not this technique.",
    "P22": "Profiles, interpolations and activation functions are pure functions of their arguments: no schedule, I/O, fault or history for a simulator to control. Their values are used (and compared) where P16, P17 and P04 recompute what a run fed back.",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif os.path.exists(os.path.join(HOME, "sim", "vsim", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"./check run {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check run {pid}",
                       "evidence_file": f"evidence/{pid}.json", "technique": "deterministic simulation with fault injection: " + TECH[pid],
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "Planned with this technique; its check is not built yet."})
man = {"version": 1, "setup_cmd": "./check build", "hooks": {"guard": "none", "enable": "No hooks were needed in /repo: the simulator uses pywr's own extension points (Parameter and Recorder subclasses, Model.solver, module attributes).", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Every check: ./check run PID. A replay file: ./check replay FILE. See DESIGN.md."}
json.dump(man, open(os.path.join(HOME, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks], [x["property"] for x in na])
