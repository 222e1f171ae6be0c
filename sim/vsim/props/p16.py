"""P16: what is fed back from earlier steps is what was simulated, in every step, scenario and run."""
import numpy as np

from ..comps import Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, drive, gen_fault, gen_history, shrink_ops
from ..oracles import Net, close
from ..paramref import FEEDBACK, ParamRef, check_params
from ..web import weave
from ..world import World, note, trace_digest

N = {"quick": 1500, "thorough": 25000}
RULE = "a distinct event log of a judged run in which at least one fed-back value was compared with the simulated past"
STATE_MEASURE = "distinct (kind of fed-back value, first step?, history operation, fault, final drive) tuples"

KINDS = FEEDBACK | {"polynomial1d"}


def gen(r, i, tier):
    g = G(r, steps=(2, 18), faultparams=1 if r.p(0.4) else 0, recs=(0, 2), reaches=(1, 3), dims=(0, 2), stateful=1.0,
          freqs=("1", "1", "2", "3", "5", "7", "7D", "W", "M"))
    doc = g.build()
    weave(r, g, doc, r.randint(4, 12), feedback=3.0, fault=0.05)
    for p, d in list(doc["parameters"].items()):
        if d["type"] == "deficit" and r.p(0.7):
            g.rec("numpyarrayparameter", parameter=p)
    doc["recorders"] = g.recs
    wire(r, g, doc)
    return {"doc": doc, "ops": gen_history(r, doc, g, 0, 2) if r.p(0.6) else [], "solver": r.pick(solvers_for(doc)),
            "fault": gen_fault(r, doc, g) if r.p(0.2) else None, "final": r.pick(["run", "run", "steps", "restart"]), "from": r.randrange(g.nsteps)}


def wire(r, g, doc):
    """Lets some fed-back values steer the network they come from."""
    fb = [p for p, d in doc["parameters"].items() if d["type"] in KINDS and d["type"] != "deficit" and not (("values" not in d) and "threshold" in d["type"])]
    for n in doc["nodes"]:
        if n["type"] in ("Output", "Link") and isinstance(n.get("max_flow"), float) and n["max_flow"] > 0 and not n.get("min_flow") and fb and r.p(0.35):
            n["max_flow"] = g.param("min", parameter=g.param("max", parameter=r.pick(fb), threshold=round(n["max_flow"] * 0.2, 3)), threshold=n["max_flow"])


def run(case, ctx):
    doc = case["doc"]
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    net = Net(doc)
    w = World(doc, solver=case["solver"], proxy=bool(case.get("fault")))
    w.obs.early = []
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    if case.get("fault"):
        arm(w, [case["fault"]])
    if case["final"] == "run":
        e = w.run()
    elif case["final"] == "steps":
        e = w.ready() or drive(w, n)
    else:
        k = min(case["from"], n - 1)
        e = w.ready() or w.reset(start=timestep_starts(doc["timestepper"])[k][0]) or drive(w, n - k)
    fired = disarm()
    for f in fired:
        ctx.fault(f"{f['exc']}@{f['phase']}")
    if e is not None and not fired:
        ctx.bad("run-failed:" + type(e).__name__, repr(e))
    note(ctx, w.trace)
    trace_digest(ctx, w.trace)
    last = [o["op"] for o in case["ops"]][-1:]
    for t, s in enumerate(w.trace):
        for nm, d in doc["parameters"].items():
            if d["type"] in KINDS:
                ctx.state(d["type"], min(t, 2), last, bool(fired), case["final"])
    check_early(net, w, ctx)
    ref = ParamRef(doc, net, w.trace)
    check_params(ref, ctx, kinds=KINDS)
    check_deficits(ref, w, ctx, len(w.trace) - bool(fired))


def check_early(net, w, ctx):
    """Previous flow, volume and percentage as the step finds them."""
    ref = ParamRef(net.doc, net, w.trace)
    for t, (s, q) in enumerate(zip(w.trace, w.obs.early)):
        for nm, v in q["prev"].items():
            want = w.trace[t - 1]["flow"][nm] if t else np.zeros(ref.nc)
            if not ctx.ok(close(v, want, 1e-12), "previous-flow", lambda: f"step {t} {s['date']} {nm}: previous flow {v} / simulated {np.asarray(want)}"):
                return
        for nm in net.nodes:
            ty = net.typ(nm)
            if ty not in ("storage", "reservoir", "aggregatedstorage"):
                continue
            want = ref.vol0(nm, t)
            if not ctx.ok(close(q["vol"][nm], want, 1e-9), "starting-volume", lambda: f"step {t} {s['date']} {nm}: volume {q['vol'][nm]} / {want}"):
                return
            pc = ref.pc0(nm, t)
            if pc is None:
                continue
            have = np.clip(np.where(np.isnan(q["pc"][nm]), 1.0, q["pc"][nm]), 0, 1)
            if not ctx.ok(close(have, pc, 1e-9), "starting-percentage", lambda: f"step {t} {s['date']} {nm}: {have} / {pc}"):
                return
            check_pc(ref, net, nm, t, ctx)


def check_pc(ref, net, nm, t, ctx):
    """The percentage after a step is the volume over the maximum of that step."""
    s = ref.tr[t]
    if net.typ(nm) == "aggregatedstorage":
        ms = net.nodes[nm]["storage_nodes"]
        mx = sum(net.val(s, net.nodes[m]["max_volume"]) for m in ms)
        vol = sum(s["vol"][m] for m in ms)
        ctx.ok(close(s["vol"][nm], vol, 1e-9), "aggregated-volume", lambda: f"step {t} {nm}: {s['vol'][nm]} / {vol}")
        ctx.ok(close(s["flow"][nm], sum(s["flow"][m] for m in ms), 1e-9), "aggregated-flow", lambda: f"step {t} {nm}: flow {s['flow'][nm]}")
    else:
        mx = net.val(s, net.nodes[nm]["max_volume"])
        vol = s["vol"][nm]
    with np.errstate(all="ignore"):
        want = vol / mx
    ok = np.isfinite(want)
    ctx.ok(close(np.asarray(s["pc"][nm])[ok], np.broadcast_to(want, (ref.nc,))[ok], 1e-9), "percentage", lambda: f"step {t} {nm}: {s['pc'][nm]} / {want}")


def check_deficits(ref, w, ctx, upto):
    """The recorded series of a deficit is the shortfall of each step."""
    if upto < 1:
        return
    for nm, d in ref.doc["recorders"].items():
        if d["type"] != "numpyarrayparameter" or ref.params[d["parameter"]]["type"] != "deficit":
            continue
        data = np.asarray(w.model.recorders[nm].data)
        for t, s in enumerate(w.trace[:upto]):
            ctx.probe("param:deficit")
            want = ref.deficit(d["parameter"], t + 1)
            have = data[s["i"]]
            if not ctx.ok(close(have, want, 1e-9), "deficit", lambda: f"step {t} {d['parameter']}: recorded {have} / {want}"):
                return


def shrink(case):
    yield from shrink_ops(case)
    if case.get("fault"):
        yield dict(case, fault=None)
    if case["final"] != "run":
        yield dict(case, final="run")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case)
