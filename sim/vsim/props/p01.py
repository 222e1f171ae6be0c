"""P01: after any history, a run from the start equals a run of a freshly loaded model."""
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, drive, gen_history, shrink_ops
from ..world import World, diff_results, diff_trace, results, trace_digest, note
from ..comps import Plan

N = {"quick": 1400, "thorough": 20000}
RULE = "a distinct event log of a history (at least one operation) followed by a judged run of at least one step"
STATE_MEASURE = "distinct (history operation or fault kind, phase, first step?, outcome) tuples"
TOL = 1e-6


def gen(r, i, tier):
    g = G(r, steps=(4, 18), faultparams=1, dims=(0, 1), max_combos=3, recs=(4, 9))
    doc = g.build()
    return {"doc": doc, "ops": gen_history(r, doc, g, 1, 3 if tier == "quick" else 5),
            "solver": r.pick(solvers_for(doc)), "proxy": r.p(0.6), "final": r.pick(["run", "run", "steps"])}


def run(case, ctx):
    doc = case["doc"]
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    a = World(doc, solver=case["solver"], proxy=case.get("proxy"))
    for op in case["ops"]:
        apply_op(a, op, ctx, n)
    if case["final"] == "run":
        e = a.run()
    else:
        e = a.setup() if a.model.dirty else a.reset()
        e = e or drive(a, n)
    b = World(doc, solver=case["solver"], proxy=case.get("proxy"))
    if case["final"] == "run":
        eb = b.run()
    else:
        eb = b.setup() or drive(b, n)
    note(ctx, a.trace)
    trace_digest(ctx, a.trace)
    if not ctx.ok((e is None) == (eb is None), "outcome", lambda: f"after the history: {e!r}; fresh: {eb!r}"):
        return
    d = diff_trace(a.trace, b.trace, TOL)
    if not ctx.ok(d is None, "state", d):
        return
    if e is None and case["final"] == "run":
        d = diff_results(results(a.model), results(b.model), TOL)
        ctx.ok(d is None, "recorder", d)


def shrink(case):
    yield from shrink_ops(case)
    if case.get("proxy"):
        yield dict(case, proxy=False)
    if case["final"] != "run":
        yield dict(case, final="run")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case)
