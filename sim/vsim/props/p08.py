"""P08: virtual storages and licences follow their calendar, after any history."""
import numpy as np
import pandas as pd

from ..comps import Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, drive, gen_fault, gen_history, shrink_ops
from ..oracles import Net, check_licences, check_virtual
from ..world import World, note, trace_digest

N = {"quick": 1500, "thorough": 25000}
RULE = "a distinct event log of a judged run in which at least one virtual storage or licence was followed by its calendar model at every step"
STATE_MEASURE = "distinct (kind, active?, refilled?, first step?, exhausted?) tuples, and history operations"


def gen(r, i, tier):
    while True:
        long = r.p(0.25)
        g = G(r, steps=(20, 60) if long else (4, 24), freqs=("1", "1", "2", "5", "7", "10", "30", "M", "W", "7D"), faultparams=1 if r.p(0.4) else 0,
              recs=(0, 2), reaches=(1, 2), storages=(0, 1), vstor=(1, 4), licences=0.7, yearedge=0.55, long=0.3, agg=0.2, works=0.3,
              dims=(0, 2), max_combos=3)
        doc = g.build()
        if any("Virtual" in n["type"] for n in doc["nodes"]) or any("licen" in p["type"] for p in doc["parameters"].values()):
            break
    return {"doc": doc, "ops": gen_history(r, doc, g, 0, 2) if r.p(0.5) else [], "solver": r.pick(solvers_for(doc)),
            "fault": gen_fault(r, doc, g) if r.p(0.15) else None, "final": r.pick(["run", "run", "run", "steps", "restart"]), "from": r.randrange(g.nsteps)}


def run(case, ctx):
    doc = case["doc"]
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    net = Net(doc)
    w = World(doc, solver=case["solver"], proxy=bool(case.get("fault")))
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    if case.get("fault"):
        arm(w, [case["fault"]])
    if case["final"] == "run":
        e = w.run()
    elif case["final"] == "steps":
        e = w.ready() or drive(w, n)
    else:
        k = min(case["from"], n - 1)
        e = w.ready() or w.reset(start=timestep_starts(doc["timestepper"])[k][0]) or drive(w, n - k)
    fired = disarm()
    for f in fired:
        ctx.fault(f"{f['exc']}@{f['phase']}")
    if e is not None and not fired:
        ctx.bad("run-failed:" + type(e).__name__, repr(e))
    note(ctx, w.trace)
    trace_digest(ctx, w.trace)
    check_virtual(net, w.trace, ctx)
    check_licences(net, w.trace, ctx)


def shrink(case):
    yield from shrink_ops(case)
    if case.get("fault"):
        yield dict(case, fault=None)
    if case["final"] != "run":
        yield dict(case, final="run")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case)
