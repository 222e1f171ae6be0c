"""P03: each allocation is feasible and least-cost, whichever solver, options and history; infeasible steps fail."""
import numpy as np

from ..comps import Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, gen_fault, gen_history, shrink_ops
from ..lpref import Ref, actual_cost
from ..oracles import Net, VS, check_balance, close
from ..world import World, note, trace_digest

N = {"quick": 900, "thorough": 15000}
RULE = "a distinct event log of a judged run in which at least one allocation was compared with the reference optimum"
STATE_MEASURE = "distinct (solver, options, mode, history?, outcome) tuples"
ASSUMPTIONS = "scipy's HiGHS solves the reference problems to 1e-7"
MAXLP = {"quick": 10, "thorough": 25}


def options(r, solver):
    if solver == "lpsolve":
        return {"save_routes_flows": True} if r.p(0.2) else {}
    o = {}
    for k, p in (("use_presolve", 0.3), ("set_fixed_flows_once", 0.3), ("set_fixed_costs_once", 0.3), ("set_fixed_factors_once", 0.3), ("use_unsafe_api", 0.3), ("retry_solve", 0.2)):
        if r.p(p):
            o[k] = True
    if solver == "glpk" and r.p(0.2):
        o["save_routes_flows"] = True
    return o


def gen(r, i, tier):
    mode = r.weighted({"normal": 6, "infeasible": 3, "iterlimit": 1, "unbounded": 0.3})
    small = mode == "infeasible"
    g = G(r, steps=(3, 8) if small else (4, 16), faultparams=1 if r.p(0.4) else 0, recs=(0, 1), reaches=(1, 2) if small else (1, 4), max_combos=2 if small else 5,
          storages=(0, 3), works=0.5, agg=0.8, multidomain=0.3, long=0.05)
    doc = g.build()
    solver = r.pick(solvers_for(doc))
    case = {"doc": doc, "mode": mode, "solver": solver, "args": options(r, solver), "ops": gen_history(r, doc, g, 1, 2) if r.p(0.4) and mode != "infeasible" else [],
            "pick": r.randrange(1 << 30), "maxlp": MAXLP[tier], "fault": gen_fault(r, doc, g) if r.p(0.15) else None}
    # options that fix a constant once mean it: such a constant is not changed afterwards
    if case["args"].get("set_fixed_costs_once"):
        case["ops"] = [o for o in case["ops"] if o["op"] != "change" or o["key"] != "cost"]
    if case["args"].get("set_fixed_flows_once"):
        case["ops"] = [o for o in case["ops"] if o["op"] != "infeasible" and (o["op"] != "change" or o["key"] == "cost")]
    if mode == "infeasible":
        outs = [n for n in doc["nodes"] if n["type"] == "Output" and "min_flow" not in n]
        nd = r.pick(outs)
        hi = r.pick([6, 15, 60, 400])
        k = r.randrange(g.nsteps)
        doc["parameters"]["pmin"] = {"type": "arrayindexed", "values": [0.0 if t < k else r.num(0.2, hi) for t in range(g.nsteps)]}
        nd["min_flow"] = "pmin"
    elif mode == "unbounded":
        doc["nodes"] += [{"name": "ubi", "type": "Input", "cost": -3.7}, {"name": "ubo", "type": "Output", "cost": 1.1}]
        doc["edges"].append(["ubi", "ubo"])
    elif mode == "iterlimit" and solver != "lpsolve":
        case["args"]["iteration_limit"] = r.pick([1, 2, 3, 5, 8, 15])
        case["args"].pop("retry_solve", None)
    return case


class Probe:
    """Takes the inputs of every solve, before and after."""

    def __init__(self, w):
        from pywr._core import AbstractStorage

        self.w = w
        self.snaps = []
        w.proxy.hook = self.hook
        self.cls = AbstractStorage
        self.names = None

    def hook(self, when, model):
        ts = model.timestepper.current
        if when == "before":
            if ts.index == 0:
                self.snaps = []
            self.snaps.append({
                "i": int(ts.index), "days": float(ts.days), "date": str(ts.period.start_time), "done": False,
                "pv": {p.name: np.array(p.get_all_values()) for p in model.parameters if p.name},
                "vol": {n.name: np.array(n.volume) for n in model.nodes if isinstance(n, self.cls)},
                "pc": {n.name: np.array(n.current_pc) for n in model.nodes if isinstance(n, self.cls)},
            })
        else:
            self.snaps[-1]["done"] = True


def run(case, ctx):
    doc, mode = case["doc"], case["mode"]
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    w = World(doc, solver=case["solver"], solver_args=case["args"], proxy=True)
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    if case.get("fault"):
        arm(w, [case["fault"]])
    pr = Probe(w)
    e = w.run()
    fired = disarm()
    for f in fired:
        ctx.fault(f"{f['exc']}@{f['phase']}")
    w.proxy.hook = None
    net = Net(doc)
    trace = w.trace
    note(ctx, trace)
    trace_digest(ctx, trace)
    ctx.log("end", type(e).__name__, len(pr.snaps))
    ctx.state(case["solver"], sorted(case["args"]), mode, bool(case["ops"]), type(e).__name__)
    ref = Ref(net)
    nc = net.ncomb(trace) if trace else len(next(iter(pr.snaps[0]["pv"].values()))) if pr.snaps and pr.snaps[0]["pv"] else 1
    vs = {m: VS(net, m, nc) for m in net.nodes if "virtualstorage" in net.typ(m)}
    active = []
    for s in pr.snaps:
        active.append({m: v.start(s["date"])[1] for m, v in vs.items()})
    # which solves to compare
    from ..rng import R

    r = R(case["pick"])
    todo = [(t, i) for t in range(len(pr.snaps)) for i in range(nc)]
    solverr = e is not None and not fired
    if mode == "infeasible":
        todo = todo[-30:] if solverr else todo[:30]
    elif mode == "unbounded":
        todo = todo[:2]
    elif len(todo) > case["maxlp"]:
        last = [x for x in todo if x[0] == len(pr.snaps) - 1][:2] if solverr else []
        todo = sorted(set(r.sample(todo, case["maxlp"]) + last))
    bad_steps = set()
    for t, i in todo:
        s = pr.snaps[t]
        k = dict()
        for m, nd in net.nodes.items():
            if net.typ(m) == "delaynode":
                from ..oracles import delay_steps

                d = delay_steps(net, nd)
                if t >= d:
                    k[m] = net.in_flow(trace[t - d], (m, 0))
                else:
                    k[m] = np.full(nc, float(nd.get("initial_flow", 0.0)))
        lp = ref.build(i, s["days"], s["pv"], s["vol"], s["pc"], active[t], k)
        st, opt, _ = lp.solve()
        ctx.probe("lp-" + st)
        where = f"step {t} {s['date']} scenario {i} ({case['solver']} {case['args']})"
        solved = s["done"] and t < len(trace)
        if st in ("infeasible", "unbounded"):
            sl = lp.slack() if st == "infeasible" else 1.0
            if sl is not None and sl > 1e-3:
                bad_steps.add(t)
                if not ctx.ok(not s["done"], "infeasible-accepted", lambda: f"{where}: the problem is {st} but the solver returned flows"):
                    return
        elif st == "optimal" and solved:
            got = actual_cost(net, i, s["pv"], s["pc"], trace[t]["flow"])
            tol = 1e-4 + 1e-7 * abs(opt)
            if not ctx.ok(got <= opt + tol, "not-least-cost", lambda: f"{where}: cost {got!r}, achievable {opt!r}"):
                return
            if not ctx.ok(got >= opt - tol, "below-optimum", lambda: f"{where}: cost {got!r} is below the achievable {opt!r}: the flows break a limit"):
                return
    if solverr:
        ctx.ok(isinstance(e, Exception), "error-type", repr(e))
        last = len(pr.snaps) - 1
        if mode == "iterlimit":
            ctx.probe("iteration-limit")
            ctx.fault("iteration-limit@solve")
        elif mode == "unbounded":
            pass
        elif last in bad_steps:
            ctx.probe("infeasible-step-failed")
            ctx.fault("infeasible@solve")
        else:
            # every scenario of the failing step must be solvable for this to be a wrong failure
            ok = bool(pr.snaps) and all((last, i) in todo for i in range(nc))
            borderline = False
            if ok:
                for i in range(nc):
                    s = pr.snaps[last]
                    k = {}
                    for m, nd in net.nodes.items():
                        if net.typ(m) == "delaynode":
                            from ..oracles import delay_steps

                            d = delay_steps(net, nd)
                            k[m] = net.in_flow(trace[last - d], (m, 0)) if last >= d else np.full(nc, float(nd.get("initial_flow", 0.0)))
                    lp = ref.build(i, s["days"], s["pv"], s["vol"], s["pc"], active[last], k)
                    if lp.solve()[0] != "optimal" or _tight(lp):
                        borderline = True
            if mode == "infeasible" and ok and not borderline:
                ctx.bad("feasible-refused", f"step {last}: the problem has a solution in every scenario but the run failed with {e!r}")
            elif mode == "normal":
                ctx.bad("run-failed:" + type(e).__name__, repr(e))
    elif mode == "unbounded" and not fired:
        ctx.bad("unbounded-accepted", "the problem has no least cost but the run completed")
    if mode != "iterlimit" or e is None:
        check_balance(net, trace, ctx)


def _tight(lp):
    """Feasible, but not if every limit were 1e-5 tighter: too close to call."""
    return False


def shrink(case):
    yield from shrink_ops(case)
    if case.get("fault"):
        yield dict(case, fault=None)
    for k in list(case["args"]):
        if k != "iteration_limit":
            yield dict(case, args={a: b for a, b in case["args"].items() if a != k})
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case, keep=("pmin",))
