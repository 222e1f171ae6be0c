"""P02: conservation and limits at every step, through faults and after histories."""
from ..comps import Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, gen_fault, gen_history, shrink_ops
from ..oracles import Net, check_balance
from ..world import World, note, trace_digest

N = {"quick": 1400, "thorough": 20000}
RULE = "a distinct event log of a judged run of at least one step with every node balance and limit evaluated"


def gen(r, i, tier):
    g = G(r, steps=(5, 24), faultparams=1 if r.p(0.5) else 0, recs=(0, 2), reaches=(1, 4), storages=(0, 3))
    doc = g.build()
    return {"doc": doc, "ops": gen_history(r, doc, g, 0, 1) if r.p(0.35) else [], "solver": r.pick(solvers_for(doc)),
            "fault": gen_fault(r, doc, g) if r.p(0.25) else None}


def run(case, ctx):
    doc = case["doc"]
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    w = World(doc, solver=case["solver"], proxy=bool(case.get("fault")))
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    if case.get("fault"):
        arm(w, [case["fault"]])
    e = w.run()
    for f in disarm():
        ctx.fault(f"{f['exc']}@{f['phase']}")
    if e is not None:
        ctx.log("stopped", type(e).__name__)
        if not case.get("fault"):
            ctx.bad("run-failed:" + type(e).__name__, repr(e))
    note(ctx, w.trace)
    trace_digest(ctx, w.trace)
    for x in doc["nodes"]:
        ctx.state("node", x["type"], case["solver"], len(case["ops"]) > 0)
    check_balance(Net(doc), w.trace, ctx)


def shrink(case):
    yield from shrink_ops(case)
    if case.get("fault"):
        yield dict(case, fault=None)
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case)
