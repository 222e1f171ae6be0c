"""Histories: what a user (or an accident) may do to a model before the run that is judged."""
import copy

import pandas as pd

from .comps import EXC_KINDS, Plan
from .gen import timestep_starts

PHASES_PARAM = ["value", "value", "value", "before", "after", "reset", "setup", "finish"]
PHASES_REC = ["before", "after", "after", "reset", "setup", "finish"]


def gen_fault(r, doc, g, allow_nan=False, phases=None):
    """One fault point of the generated model, in the phase and at the step the seed says."""
    comps = []
    for n in getattr(g, "fp", []):
        comps.append(n)
    kinds = {"comp": 4 if comps else 0, "solver": 2, "node": 2}
    k = r.weighted(kinds)
    n = g.nsteps
    exc = r.pick(EXC_KINDS)
    at = r.pick([0, 0, 1, n - 1, r.randrange(n), r.randrange(n), r.randrange(n)])
    at = min(at, n - 1)
    if k == "comp":
        c = r.pick(comps)
        ph = r.pick(phases or (PHASES_PARAM if c.startswith("fp") else PHASES_REC))
        if c.startswith("fr") and ph == "value":
            ph = "after"
        f = {"comp": c, "phase": ph, "exc": exc}
        if ph in ("value", "before", "after"):
            f["at_ts"] = at
        else:
            f["at"] = 0
        return f
    if k == "solver":
        return {"comp": "__solver" + getattr(g, "sfx", ""), "phase": r.pick(["before", "after"]), "exc": exc, "at_ts": at}
    nd = r.pick([x["name"] for x in g.nodes])
    return {"comp": "node:" + nd, "phase": r.pick(["before", "after", "after", "reset", "finish"]), "exc": exc, "at_ts": at}


def gen_history(r, doc, g, lo=1, hi=3):
    ops = []
    for _ in range(r.randint(lo, hi)):
        k = r.weighted({"run": 2, "partial": 3, "abort": 5, "reset": 1, "setup": 1, "resetfrom": 1.5, "period": 1.5, "change": 2, "infeasible": 1.5, "resetpartial": 1, "delta": 0.7})
        op = {"op": k}
        if k in ("partial", "resetpartial"):
            op["k"] = r.randint(1, g.nsteps)
        elif k == "abort":
            op["fault"] = gen_fault(r, doc, g)
            if r.p(0.3):
                op["k"] = r.randint(1, g.nsteps)  # driven by step() instead of run()
        elif k == "resetfrom":
            i = r.randrange(g.nsteps)
            op["start"] = str(g.starts[i][0].date())
            op["k"] = r.randint(0, g.nsteps - i)
        elif k == "period":
            a = r.randrange(g.nsteps)
            b = r.randrange(a, g.nsteps)
            op["start"], op["end"] = str(g.starts[a][0].date()), str(g.starts[b][0].date())
            op["k"] = r.pick([None, r.randint(1, 3)])
        elif k == "delta":
            op["delta"] = r.pick([1, 2, 3, 7])
            op["k"] = r.randint(1, 5)
        elif k == "change":
            cands = [(n["name"], key) for n in g.nodes for key in ("max_flow", "cost", "initial_volume") if isinstance(n.get(key), float) and n["type"] in ("Link", "Output", "Input", "Storage", "Reservoir", "River")]
            cands += [(p, "value") for p, d in g.params.items() if d["type"] == "constant"]
            if not cands:
                op = {"op": "run"}
            else:
                nm, key = r.pick(cands)
                op["name"], op["key"], op["mult"] = nm, key, r.num(0.3, 0.9)
                op["k"] = r.pick([None, None, r.randint(1, g.nsteps)])
        elif k == "infeasible":
            op["name"] = r.pick([n["name"] for n in g.nodes if n["type"] == "Output"])
            op["k"] = r.pick([0, 0, r.randint(1, max(1, g.nsteps - 1))])
        ops.append(op)
    return ops


def install_node_faults(world, faults):
    for f in faults:
        if not f["comp"].startswith("node:"):
            continue
        nm = f["comp"][5:]
        try:
            nd = world.model.nodes[nm]
        except KeyError:
            continue
        ph = f["phase"]
        if getattr(nd, "_vsim_" + ph, False):
            continue
        orig = getattr(nd, ph)

        def wrap(*a, _o=orig, _c=f["comp"], _p=ph, _n=nd, **k):
            out = _o(*a, **k)
            try:
                tsi = _n.model.timestepper.current.index
            except Exception:
                tsi = None
            Plan.hit(_c, _p, tsi)
            return out

        try:
            setattr(nd, ph, wrap)
            setattr(nd, "_vsim_" + ph, True)
        except AttributeError:
            pass


def arm(world, faults):
    install_node_faults(world, faults)
    Plan.arm(faults)


def disarm():
    fired = list(Plan.fired)
    Plan.arm([])
    return fired


def drive(world, k):
    """k=None: a full run; otherwise k steps one at a time."""
    if k is None:
        return world.run()
    for _ in range(k):
        e = world.step()
        if e is not None:
            return e
    return None


def apply_op(world, op, ctx, nsteps):
    """Runs one history operation against the model; returns (kind, exception or None)."""
    m = world.model
    k = op["op"]
    e = None
    if k == "run":
        e = world.run()
    elif k == "partial":
        e = drive(world, min(op["k"], nsteps))
    elif k == "resetpartial":
        e = world.reset() if not m.dirty else world.setup()
        if e is None:
            e = drive(world, min(op["k"], nsteps))
    elif k == "setup":
        e = world.setup()
    elif k == "reset":
        e = world.reset() if not m.dirty else None
    elif k == "abort":
        arm(world, [op["fault"]])
        kk = op.get("k")
        if kk is not None:
            e = world.reset() if not m.dirty else None
            e = e or drive(world, min(kk, nsteps))
        else:
            e = world.run()
        fired = disarm()
        for f in fired:
            ctx.fault(f"{f['exc']}@{'node' if f['comp'].startswith('node:') else f['comp'][:2]}.{f['phase']}")
            ctx.state("abort", f["comp"][:2], f["phase"], f.get("at_ts", -1) == 0, type(e).__name__)
    elif k == "resetfrom":
        if m.dirty:
            e = world.setup()
        e = e or world.reset(start=pd.Timestamp(op["start"]))
        if e is None:
            e = drive(world, op["k"])
    elif k == "period":
        s0, e0 = m.timestepper.start, m.timestepper.end
        m.timestepper.start, m.timestepper.end = pd.Timestamp(op["start"]), pd.Timestamp(op["end"])
        n = len(m.timestepper)
        kk = op.get("k")
        e = drive(world, None if kk is None else min(kk, n))
        m.timestepper.start, m.timestepper.end = s0, e0
    elif k == "delta":
        d0 = m.timestepper.delta
        m.timestepper.delta = op["delta"]
        n = len(m.timestepper)
        e = world.reset() if not m.dirty else None
        e = e or drive(world, min(op["k"], n))
        m.timestepper.delta = d0
    elif k == "change":
        nm, key = op["name"], op["key"]
        if key == "value":
            if nm not in [p.name for p in m.parameters]:
                return k, None
            p = m.parameters[nm]
            if not hasattr(p, "set_double_variables") or p.double_size == 0:
                return k, None
            import numpy as np

            old = np.array(p.get_double_variables())
            p.set_double_variables(old * op["mult"])
            e = drive(world, None if op["k"] is None else min(op["k"], nsteps))
            p.set_double_variables(old)
        else:
            if nm not in [x.name for x in m.nodes]:
                return k, None
            nd = m.nodes[nm]
            old = getattr(nd, key)
            if not isinstance(old, float) or old != old or abs(old) == float("inf"):
                return k, None
            setattr(nd, key, old * op["mult"])
            e = drive(world, None if op["k"] is None else min(op["k"], nsteps))
            setattr(nd, key, old)
    elif k == "infeasible":
        if op["name"] not in [x.name for x in m.nodes]:
            return k, None
        nd = m.nodes[op["name"]]
        old = nd.min_flow
        if op["k"]:
            e = world.reset() if not m.dirty else None
            e = e or drive(world, min(op["k"], nsteps - 1) if nsteps > 1 else 0)
        try:
            nd.min_flow = 1e7
            if e is None:
                if op["k"] and not m.dirty:
                    e = world.step()
                else:
                    e = world.run()
        finally:
            nd.min_flow = old
        if e is not None:
            ctx.fault("infeasible")
    ctx.state("op", k, type(e).__name__)
    ctx.log("op", k, type(e).__name__)
    return k, e


def shrink_ops(case, key="ops"):
    ops = case[key]
    for i in range(len(ops)):
        c = copy.deepcopy(case)
        c[key].pop(i)
        yield c
    for i, op in enumerate(ops):
        if op.get("k") not in (None, 0, 1):
            c = copy.deepcopy(case)
            c[key][i]["k"] = 1
            yield c
        if op["op"] == "abort" and "at_ts" in op["fault"] and op["fault"]["at_ts"] > 0:
            c = copy.deepcopy(case)
            c[key][i]["fault"]["at_ts"] = 0
            yield c
        if op["op"] == "abort" and op["fault"]["exc"] != "fault":
            c = copy.deepcopy(case)
            c[key][i]["fault"]["exc"] = "fault"
            yield c
