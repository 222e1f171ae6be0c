"""P10: delayed water arrives once, in full, on time - also after aborted, partial and restarted runs."""
from ..comps import Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, drive, gen_fault, gen_history, shrink_ops
from ..oracles import Net, check_delays, delay_steps
from ..world import World, note, trace_digest

N = {"quick": 1600, "thorough": 25000}
RULE = "a distinct event log of a judged run in which at least one delay was followed step by step"
STATE_MEASURE = "distinct (delay length, longer than the run?, initial flow?, history operation, fault) tuples"


def gen(r, i, tier):
    while True:
        g = G(r, steps=(3, 22), faultparams=1 if r.p(0.5) else 0, recs=(0, 2), reaches=(1, 3), delays_more=True, dims=(0, 2),
              freqs=("1", "1", "2", "3", "5", "7", "7D", "W", "M"))
        doc = g.build()
        add_delays(r, doc, g)
        if any(n["type"] == "DelayNode" for n in doc["nodes"]) or any(p["type"] == "flowdelay" for p in doc["parameters"].values()):
            break
    return {"doc": doc, "ops": gen_history(r, doc, g, 0, 2) if r.p(0.6) else [], "solver": r.pick(solvers_for(doc)),
            "fault": gen_fault(r, doc, g) if r.p(0.2) else None, "final": r.pick(["run", "run", "steps", "restart"]), "from": r.randrange(g.nsteps)}


def add_delays(r, doc, g):
    """More delay nodes and flow delays: in series, side by side, of several lengths, of delayed flows."""
    ts = doc["timestepper"]["timestep"]

    def length(kw):
        k = r.pick([1, 1, 2, 3, 4, 5, 7, 12])
        if isinstance(ts, int) and r.p(0.5):
            kw["days"] = k * ts
        else:
            kw["timesteps"] = k
        if r.p(0.5):
            kw["initial_flow"] = r.num(0, 8)
        return kw

    if r.p(0.7):
        src = f"dsrc{g.sfx}"
        doc["nodes"].append({"name": src, "type": "Catchment", "flow": g.series(0, 9)})
        prev = src
        for k in range(r.randint(1, 3)):
            nm = f"dly{k}{g.sfx}"
            doc["nodes"].append(length({"name": nm, "type": "DelayNode"}))
            doc["edges"].append([prev, nm])
            prev = nm
            g.delays.append(nm)
            if r.p(0.4):
                lk = f"dlk{k}{g.sfx}"
                doc["nodes"].append({"name": lk, "type": "Link"})
                doc["edges"].append([prev, lk])
                prev = lk
        out = f"dout{g.sfx}"
        doc["nodes"].append({"name": out, "type": "Output", "cost": -1.5})
        doc["edges"].append([prev, out])
    names = [n["name"] for n in doc["nodes"] if n["type"] in ("Link", "Output", "Input", "Catchment", "River", "DelayNode", "LossLink", "BreakLink")]
    for _ in range(r.randint(0, 3)):
        g.param("flowdelay", node=r.pick(names), **length({}))
    # delayed values that drive something
    if r.p(0.4):
        p = g.param("flowdelay", node=r.pick(names), **length({}))
        g.rec("numpyarrayparameter", parameter=p)


def run(case, ctx):
    doc = case["doc"]
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    net = Net(doc)
    w = World(doc, solver=case["solver"], proxy=bool(case.get("fault")))
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    if case.get("fault"):
        arm(w, [case["fault"]])
    if case["final"] == "run":
        e = w.run()
    elif case["final"] == "steps":
        e = w.ready() or drive(w, n)
    else:
        k = min(case["from"], n - 1)
        e = w.ready() or w.reset(start=timestep_starts(doc["timestepper"])[k][0]) or drive(w, n - k)
    fired = disarm()
    for f in fired:
        ctx.fault(f"{f['exc']}@{f['phase']}")
    if e is not None and not fired:
        ctx.bad("run-failed:" + type(e).__name__, repr(e))
    note(ctx, w.trace)
    trace_digest(ctx, w.trace)
    check_delays(net, w.trace, ctx)
    # everything that entered has left or is still due, to the last drop
    for nm, nd in net.nodes.items():
        if net.typ(nm) == "delaynode" and len(w.trace):
            k = delay_steps(net, nd)
            ctx.state("delay", min(k, 8), k >= n, bool(nd.get("initial_flow")), [o["op"] for o in case["ops"]][-1:], bool(fired), case["final"])


def shrink(case):
    yield from shrink_ops(case)
    if case.get("fault"):
        yield dict(case, fault=None)
    if case["final"] != "run":
        yield dict(case, final="run")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case)
