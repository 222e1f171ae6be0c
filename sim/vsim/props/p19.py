"""P19: aggregated nodes and storages equal their members at every step, after any history."""
import numpy as np

from ..comps import Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, gen_fault, gen_history, shrink_ops
from ..oracles import Net, check_aggregates, close, initial_volume
from ..world import World, note, trace_digest

N = {"quick": 1400, "thorough": 20000}
RULE = "a distinct event log of a judged run in which at least one aggregated node or storage was recomputed from its members at every step"
STATE_MEASURE = "distinct (aggregate type, member types, order, limits, ratios, weights, solver, history) tuples"


def gen(r, i, tier):
    while True:
        g = G(r, steps=(3, 16), faultparams=1 if r.p(0.4) else 0, recs=(0, 2), reaches=(1, 3), storages=(1, 3), agg=0.95, aggstor=0.95,
              compound_agg=0.5, vstor=(0, 1), shuffle=0.7, varmax=0.4)
        doc = g.build()
        if any(n["type"] in ("AggregatedNode", "AggregatedStorage") for n in doc["nodes"]):
            break
    return {"doc": doc, "ops": gen_history(r, doc, g, 0, 2) if r.p(0.4) else [], "solver": r.pick(solvers_for(doc)),
            "fault": gen_fault(r, doc, g) if r.p(0.2) else None, "restart": r.randrange(g.nsteps) if r.p(0.25) else None}


def check_start(net, w, ctx):
    """Before the first step: the aggregate of what the members start with."""
    m = w.model
    for n, nd in net.nodes.items():
        if net.typ(n) != "aggregatedstorage":
            continue
        mem = [m.nodes[x] for x in nd["storage_nodes"]]
        agg = m.nodes[n]
        v = sum(np.array(x.volume) for x in mem)
        ctx.ok(close(agg.volume, v), "start-volume", lambda: f"{n}: {np.array(agg.volume)} / members {v}")
        ctx.ok(close(agg.initial_volume, v), "initial-volume", lambda: f"{n}: {agg.initial_volume} / members {v}")
        mx = sum(np.array(x.get_all_max_volume()) for x in mem)
        mn = sum(np.array(x.get_all_min_volume()) for x in mem)
        ctx.ok(close(agg.get_all_max_volume(), mx), "capacity", lambda: f"{n}: {np.array(agg.get_all_max_volume())} / members {mx}")
        ctx.ok(close(agg.get_all_min_volume(), mn), "min-volume", lambda: f"{n}: {np.array(agg.get_all_min_volume())} / members {mn}")
        if np.all(mx > 0):
            ctx.ok(close(agg.current_pc, v / mx), "start-pc", lambda: f"{n}: {np.array(agg.current_pc)} / members {v / mx}")


def run(case, ctx):
    doc = case["doc"]
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    net = Net(doc)
    w = World(doc, solver=case["solver"], proxy=bool(case.get("fault")))
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
        check_aggregates(net, w.trace, ctx) if op["op"] not in ("change", "infeasible") else None
    e = w.ready()
    if not ctx.ok(e is None, "setup-failed:" + type(e).__name__, repr(e)):
        return
    if any(nd["type"] in ("Storage", "Reservoir") and isinstance(nd.get("max_volume"), str) for nd in doc["nodes"]):
        pass   # a capacity that follows a parameter has no value before the first step
    else:
        check_start(net, w, ctx)
    if case.get("fault"):
        arm(w, [case["fault"]])
    if case["restart"] is not None and case["restart"] < n:
        import pandas as pd

        e = w.reset(start=pd.Timestamp(timestep_starts(doc["timestepper"])[case["restart"]][0]))
        for _ in range(n - case["restart"]):
            e = e or w.step()
    else:
        e = w.run()
    for f in disarm():
        ctx.fault(f"{f['exc']}@{f['phase']}")
    if e is not None and not case.get("fault"):
        ctx.bad("run-failed:" + type(e).__name__, repr(e))
    note(ctx, w.trace)
    trace_digest(ctx, w.trace)
    order = [x["name"] for x in doc["nodes"]]
    for x in doc["nodes"]:
        if x["type"] in ("AggregatedNode", "AggregatedStorage"):
            mem = x.get("nodes") or x.get("storage_nodes")
            ctx.state(x["type"], sorted({net.typ(q) for q in mem}), [order.index(q) < order.index(x["name"]) for q in mem][:3],
                      "max_flow" in x, "min_flow" in x, "factors" in x, "flow_weights" in x, case["solver"], len(case["ops"]) > 0)
    check_aggregates(net, w.trace, ctx)


def shrink(case):
    yield from shrink_ops(case)
    if case.get("fault"):
        yield dict(case, fault=None)
    if case["restart"] is not None:
        yield dict(case, restart=None)
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case)
