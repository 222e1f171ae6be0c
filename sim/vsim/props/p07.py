"""P07: any failure reaches the caller as it was, stops the run, and every component is still finished exactly once."""
import copy

import numpy as np

from ..comps import EXC_KINDS, Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, gen_history, install_node_faults, shrink_ops
from ..oracles import Net, check_balance
from ..web import weave
from ..world import World, note, trace_digest, diff_trace

N = {"quick": 1500, "thorough": 40000}
RULE = "a distinct event log of a run in which a fault fired (or a non-number or an impossible limit was met) and its consequences were judged"
STATE_MEASURE = "distinct (mode, failing component kind, phase, exception, first/middle/last step, second fault, driver, history) tuples"

STEP_PHASES = ("before", "value", "after", "values", "get_max_flow", "get_min_flow", "get_cost")


def gen(r, i, tier):
    mode = r.weighted({"fault": 6, "two": 3, "nan": 2.5, "impossible": 1.5})
    g = G(r, steps=(2, 12), faultparams=1, recs=(1, 4), reaches=(1, 3), dims=(0, 2), storages=(0, 2))
    doc = g.build()
    weave(r, g, doc, r.randint(0, 3), feedback=0.6, fault=0.3)
    pars, recs = doc["parameters"], g.recs
    case = {"mode": mode, "solver": r.pick(solvers_for(doc)), "ops": gen_history(r, doc, g, 0, 2) if r.p(0.35) else [], "drive": r.pick(["run", "run", "run", "step"]), "again": r.p(0.4), "hook": None}
    n = g.nsteps
    at = r.pick([0, 0, 1, n - 1, r.randrange(n), r.randrange(n)])
    at = min(at, n - 1)
    ncomb = 1
    from ..scen import combos

    ncomb = len(combos(doc))
    si = r.pick([None, 0, ncomb - 1])
    # more fault points: an index, a recorder that is read while running, a node with its own getters
    idx = [p for p, d in pars.items() if d["type"] == "simindex"]
    if idx and r.p(0.6):
        b = r.pick(idx)
        f = g.param("simfaultindex", base=b)
        nm = g.param("indexedarray", index_parameter=f, params=[g.series(0, 5) for _ in range(pars[b].get("n", 2))])
        g.fp.append(f)
        case["fi"] = [f, nm]
    fr = [x for x in g.fp if x.startswith("fr")]
    if fr and r.p(0.5):
        if r.p(0.5):
            case["read"] = g.param("recorderthreshold", recorder=fr[0], threshold=0.5, values=[1.0, 2.0])
        else:
            case["read"] = g.rec("event", threshold=fr[0])
    links = [x["name"] for x in doc["nodes"] if x["type"] == "Link"]
    if links and r.p(0.5):
        case["hook"] = r.pick(links)
    doc["recorders"] = recs
    case["doc"] = doc

    def fault(first=True):
        k = r.weighted({"comp": 5, "solver": 1.5, "node": 2, "hook": 1.5 if case["hook"] else 0, "read": 1.5 if case.get("read") else 0, "index": 1.5 if case.get("fi") else 0})
        exc = r.pick(EXC_KINDS + ["stopiter"] * (1 if first else 0))
        if k == "comp":
            c = r.pick([x for x in g.fp if not case.get("fi") or x != case["fi"][0]] or g.fp)
            ph = r.pick(["value", "value", "before", "after", "reset", "setup", "finish"])
            if c.startswith("fr") and ph == "value":
                ph = "after"
            f = {"comp": c, "phase": ph, "exc": exc}
        elif k == "index":
            f = {"comp": case["fi"][0], "phase": "value", "exc": exc}
        elif k == "solver":
            f = {"comp": "__solver", "phase": r.pick(["before", "after"]), "exc": exc}
        elif k == "node":
            f = {"comp": "node:" + r.pick([x["name"] for x in g.nodes]), "phase": r.pick(["before", "after", "reset", "setup", "finish"]), "exc": exc}
        elif k == "hook":
            f = {"comp": "link:" + case["hook"], "phase": r.pick(["get_max_flow", "get_min_flow", "get_cost"]), "exc": exc}
        else:
            f = {"comp": fr[0], "phase": "values", "exc": exc}
        if f["phase"] in STEP_PHASES:
            f["at_ts"] = at
            if f["phase"] == "value" and si is not None and r.p(0.5):
                f["si"] = si
        else:
            f["at"] = 0
        return f

    case["faults"] = []
    if mode in ("fault", "two"):
        case["faults"] = [fault()]
        if mode == "two":
            f = fault(False)
            if r.p(0.6):
                c = r.pick(g.fp + ["node:" + x["name"] for x in g.nodes])
                f = {"comp": c, "phase": "finish", "exc": r.pick(EXC_KINDS), "at": 0}
            if (f["comp"], f["phase"]) != (case["faults"][0]["comp"], case["faults"][0]["phase"]):
                case["faults"].append(f)
    else:
        # a pass-through in front of a limit or a cost of a node that takes part in the allocation
        spots = []
        for x in doc["nodes"]:
            for key in ({"Link": ("max_flow", "min_flow", "cost"), "Output": ("max_flow", "min_flow", "cost"), "Input": ("max_flow", "min_flow", "cost"), "River": ("max_flow", "min_flow", "cost"),
                         "Catchment": ("flow",), "Storage": ("min_volume", "cost"), "Reservoir": ("min_volume",)}.get(x["type"], ())):
                if mode == "impossible" and key != "min_flow":
                    continue
                v = x.get(key)
                if v is None or isinstance(v, (int, float)) or isinstance(v, str) and v in pars:
                    spots.append((x, key, v))
        if not spots:
            case["mode"] = "fault"
            case["faults"] = [fault()]
            return case
        x, key, v = r.pick(spots)
        base = v if v is not None else (1e6 if key == "max_flow" else 0.0)
        nm = g.param("simfault", base=base)
        x[key] = nm
        f = {"comp": nm, "phase": "value", "exc": "nan" if mode == "nan" else "big", "at_ts": at}
        if mode == "impossible":
            f["value"] = r.pick([1e6, 1e7, 1e9])
        if si is not None:
            f["si"] = si
        else:
            f["si"] = 0
        case["faults"], case["spot"] = [f], [x["name"], key]
        if case["solver"] != "lpsolve" and r.p(0.5):
            case["args"] = {k: True for k in r.some(["use_presolve", "set_fixed_flows_once", "set_fixed_costs_once", "retry_solve"], 1, 2)}
    return case


def run(case, ctx):
    doc = copy.deepcopy(case["doc"])
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    if case["hook"]:
        for x in doc["nodes"]:
            if x["name"] == case["hook"] and x["type"] == "Link":
                x["type"] = "SimFaultLink"
    w = World(doc, solver=case["solver"], solver_args=case.get("args"), proxy=True)
    m = w.model
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    # every node is a fault point and reports its calls, as far as it lets itself be watched
    watch = [{"comp": "node:" + x.name, "phase": ph} for x in m.nodes for ph in ("setup", "reset", "before", "after", "finish")]
    install_node_faults(w, watch)
    arm(w, case["faults"])
    Plan.log = []
    if case["drive"] == "run":
        e = w.run()
    else:
        e = w.ready()
        for _ in range(n):
            if e is not None:
                break
            e = w.step()
    log, Plan.log = Plan.log, None
    fired = disarm()
    for f in fired:
        ctx.fault(f"{f['exc']}@{f['comp'].split(':')[0][:2]}.{f['phase']}")
    trace = [s for s in w.trace]
    note(ctx, trace)
    trace_digest(ctx, trace)
    ctx.log("end", type(e).__name__, len(trace), len(log))
    first = fired[0] if fired else None
    pos = None
    if first:
        at = first.get("at_ts")
        pos = None if at is None else "first" if at == 0 else "last" if at == n - 1 else "middle"
    ctx.state(case["mode"], first and first["comp"][:2], first and first["phase"], first and first["exc"], pos, [f["phase"] for f in fired[1:]], case["drive"], [o["op"] for o in case["ops"]][-1:])
    if case["mode"] in ("nan", "impossible"):
        judge_value(case, ctx, w, e, fired, trace, n)
    elif not fired:
        # the planned point was not reached (a phase of a component that is not part of this run)
        ctx.ok(e is None, "run-failed:" + type(e).__name__, lambda: repr(e))
        return
    else:
        if not judge_fault(case, ctx, w, e, fired, log, trace, n):
            return
    if case["again"] and e is not None:
        e2 = w.run()
        fresh = World(doc, solver=case["solver"], solver_args=case.get("args"))
        e3 = fresh.run()
        if e3 is not None:
            return
        if ctx.ok(e2 is None, "not-runnable-again", lambda: f"after {e!r} ({first['comp']} {first['phase']}): {e2!r}"):
            d = diff_trace(w.trace, fresh.trace)
            ctx.ok(not d, "left-over", lambda: f"after {e!r}: {str(d)[:300]}")


def judge_fault(case, ctx, w, e, fired, log, trace, n):
    first = fired[0]
    what = f"{first['exc']} in {first['comp']} {first['phase']}"
    if not ctx.ok(e is not None, "swallowed:" + first["phase"], lambda: f"{what}: the {case['drive']} ended normally"):
        return False
    errs = [f["err"] for f in fired]
    same = e is errs[0]
    if not same and len(errs) > 1 and not isinstance(e, Exception):
        same = any(e is x for x in errs)      # an interrupt during the clean-up of an earlier failure
    if not ctx.ok(same, "other-error:" + first["phase"], lambda: f"{what}: the caller got {e!r}"):
        return False
    ctx.probe("surfaced")
    # where did it happen in the log
    k = next(i for i, x in enumerate(log) if x[1] == first["comp"] and x[0] == first["phase"] and (first.get("at_ts") is None or x[2] == first["at_ts"]) and (first.get("si") is None or x[3] == first["si"]))
    after = log[k + 1:]
    wrong = [x for x in after if x[0] != "finish"]
    if not ctx.ok(not wrong, "goes-on", lambda: f"{what}: afterwards {wrong[:3]}"):
        return False
    at = first.get("at_ts")
    if at is not None:
        late = [s["i"] for s in trace if s["i"] > at]
        if not ctx.ok(not late, "goes-on", lambda: f"{what} at step {at}: steps {late} follow"):
            return False
        early = [s["i"] for s in trace if s["i"] < at]
        if not ctx.ok(early == list(range(at)), "steps-before", lambda: f"{what} at step {at}: {early}"):
            return False
    if case["drive"] != "run":
        return ctx.ok(not [x for x in after if x[0] == "finish"], "finish-while-stepping", lambda: f"{after[:3]}")
    # the end-of-run call: once for everything that takes part, whatever failed
    comps = {x[1] for x in log if x[0] in ("setup", "reset", "before", "after")}
    fin = {}
    for x in log:
        if x[0] == "finish":
            fin[x[1]] = fin.get(x[1], 0) + 1
    twice = {c: v for c, v in fin.items() if v > 1}
    if not ctx.ok(not twice, "finished-twice", lambda: f"{what}: {twice}"):
        return False
    missing = sorted(c for c in comps if c not in fin and not c.startswith(("__solver", "link:")))
    if first["phase"] in ("setup", "reset") and w.model.dirty:
        return True      # a model whose first setup fails need not have a run to end
    if not ctx.ok(not missing, "not-finished", lambda: f"{what}: no end-of-run call for {missing}"):
        return False
    ctx.probe("finished-once")
    # a first step means that nothing may be finished before the last call of the run
    fs = [i for i, x in enumerate(log) if x[0] == "finish"]
    if fs:
        ctx.ok(all(x[0] == "finish" for x in log[fs[0]:]), "finish-too-early", lambda: f"{what}")
    return ctx.ok(w.obs.finishes >= 1, "not-finished", lambda: what)


def judge_value(case, ctx, w, e, fired, trace, n):
    net = Net(case["doc"])
    if not fired:
        ctx.ok(e is None, "run-failed:" + type(e).__name__, lambda: repr(e))
        return
    at, si = fired[0]["at_ts"], fired[0].get("si")
    where = f"{case['mode']} in {case['spot']} at step {at}, scenario {si} ({case['solver']} {case.get('args')})"
    check_balance(net, [s for s in trace if s["i"] < at], ctx)
    if e is None:
        t = next((s for s in trace if s["i"] == at), None)
        if case["mode"] == "impossible" and t is not None and t["flow"][case["spot"][0]][si] >= fired[0]["value"] * (1 - 1e-9):
            ctx.probe("possible-after-all")       # an unlimited source
            check_balance(net, trace, ctx)
            return
        ctx.bad(case["mode"] + "-accepted", f"{where}: the run completed")
        return
    ctx.probe(case["mode"] + "-refused")
    if not ctx.ok(isinstance(e, Exception), "error-type", repr(e)):
        return
    have = [s["i"] for s in trace]
    ctx.ok(have == list(range(at)), "steps-after", lambda: f"{where}: steps {have}, error {e!r}")


def shrink(case):
    yield from shrink_ops(case)
    for i in range(len(case["faults"])):
        if len(case["faults"]) > 1:
            yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    if case["again"]:
        yield dict(case, again=False)
    if case.get("args"):
        yield {k: v for k, v in case.items() if k != "args"}
    if case["drive"] != "run":
        yield dict(case, drive="run")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    for i, f in enumerate(case["faults"]):
        if f.get("at_ts", 0) > 0:
            c = copy.deepcopy(case)
            c["faults"][i]["at_ts"] -= 1
            yield c
        if f["exc"] not in ("fault", "nan", "big"):
            c = copy.deepcopy(case)
            c["faults"][i]["exc"] = "fault"
            yield c
    keep = [f["comp"].split(":")[-1] for f in case["faults"]] + (case.get("spot") or [])[:1] + ([case["read"]] if case.get("read") else []) + (case.get("fi") or []) + ([case["hook"]] if case["hook"] else [])
    yield from shrink_case(case, keep=keep)
