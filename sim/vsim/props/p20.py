"""P20: nothing that lies after a date can change anything up to it."""
import copy

import numpy as np

from .. import data
from ..comps import Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, drive, gen_fault, gen_history, shrink_ops
from ..web import weave
from ..world import World, brief, diff_snap, note, same, trace_digest

N = {"quick": 1400, "thorough": 20000}
RULE = "a distinct event log of two runs of one model that differ only from some date on, compared over all steps before it"
STATE_MEASURE = "distinct (kinds of change, relative position of the date, how the second run was driven, fault, history) tuples"


def gen(r, i, tier):
    g = G(r, steps=(3, 18), faultparams=1, dims=(0, 2), max_combos=3, recs=(2, 6), reaches=(1, 3), data=3.0, stateful=0.9, long=0.1,
          freqs=("1", "1", "1", "2", "3", "5", "7", "7D", "W", "M"))
    doc = g.build()
    if r.p(0.5):
        weave(r, g, doc, r.randint(2, 8), feedback=1.5, fault=0.2)
    n = g.nsteps
    k = r.randint(1, n - 1)
    what = r.some(["inputs", "tables", "arrays", "profiles", "end", "limit", "fault", "infeasible", "constants"], 1, 3)
    case = {"doc": doc, "k": k, "what": what, "seed": r.randrange(1 << 30), "solver": r.pick(solvers_for(doc)),
            "ops": gen_history(r, doc, g, 1, 1) if r.p(0.3) else []}
    if "end" in what:
        case["end"] = r.pick([k, k, r.randint(k, n)])
    if "fault" in what:
        f = gen_fault(r, doc, g, phases=["value", "value", "before", "after"])
        f["phase"] = f["phase"] if f["phase"] in ("value", "before", "after") else "after"
        f.pop("at", None)
        f["at_ts"] = r.pick([k, r.randint(k, n - 1)])
        case["fault"] = f
    if "limit" in what or "constants" in what or "infeasible" in what:
        case["edits"] = edits(r, doc, what, k, n)
    return case


def edits(r, doc, what, k, n):
    """What a user changes by hand between two steps."""
    out = []
    if "limit" in what:
        c = [(x["name"], key) for x in doc["nodes"] for key in ("max_flow", "cost", "min_flow", "max_volume", "initial_volume") if isinstance(x.get(key), (int, float)) and x["type"] in ("Link", "Output", "Input", "Storage", "Reservoir", "River")
             and not (key == "max_volume" and "initial_volume_pc" in x)]
        for nm, key in r.some(c, 1, 3) if c else []:
            out.append({"at": r.pick([k, r.randint(k, n)]), "name": nm, "key": key, "mult": r.num(0.2, 1.8) if key not in ("max_volume",) else r.num(1.0, 2.0)})
    if "constants" in what:
        c = [p for p, d in doc["parameters"].items() if d["type"] == "constant"]
        for p in r.some(c, 1, 2) if c else []:
            out.append({"at": r.pick([k, r.randint(k, n)]), "name": p, "key": "value", "mult": r.num(0.3, 1.5)})
    if "infeasible" in what:
        out.append({"at": r.pick([k, r.randint(k, n)]), "name": r.pick([x["name"] for x in doc["nodes"] if x["type"] == "Output"]), "key": "min_flow", "to": 1e7})
    return out


def altered(case):
    """The same document with another future: what it says about steps from case["k"] on differs."""
    from ..rng import R

    r = R(case["seed"])
    doc = copy.deepcopy(case["doc"])
    starts = timestep_starts(doc["timestepper"])
    k = min(case["k"], len(starts) - 1)
    o = starts[k][0].toordinal()
    what = case["what"]
    if "end" in what:
        m = max(k, min(case["end"], len(starts)))
        doc["timestepper"]["end"] = str(starts[m - 1][0].date())
    if "tables" in what:
        data.alter(doc, o, r)
        for p in doc["parameters"].values():
            if p["type"] == "tablesarray":
                rows = doc["_data"][p["url"]]["h5"][p["node"]]
                for t in range(k, len(rows)):
                    rows[t] = [round(x * r.num(0.3, 1.6), 3) for x in rows[t]]
    seen = {(s + _day(j)).dayofyear for s, d in starts[:k] for j in range(int(round(d)))} if "profiles" in what else set()
    months = {(s + _day(j)).month for s, d in starts[:k] for j in range(int(round(d)))} if "profiles" in what else set()
    for p in doc["parameters"].values():
        ty = p["type"]
        if ty in ("simseries", "simindex") and "inputs" in what and r.p(0.8):
            p["alter"] = [o, p["seed"] + 12345]
        if ty in ("arrayindexed", "arrayindexedscenario") and "arrays" in what:
            v = p["values"]
            for t in range(k, len(v)):
                v[t] = [round(x * r.num(0.3, 1.6), 3) for x in v[t]] if isinstance(v[t], list) else round(v[t] * r.num(0.3, 1.6), 3)
        if "profiles" in what:
            if ty == "dailyprofile":
                last = max(seen) + 3
                if min(seen) + len(seen) >= max(seen):     # no turn of the year so far
                    for q in range(last, 366):
                        p["values"][q] = round(p["values"][q] * r.num(0.3, 1.6), 3)
            if ty in ("monthlyprofile", "scenariomonthlyprofile"):
                # interpolation looks at the neighbouring months
                near = set()
                for m in months:
                    near |= {m} if "interp_day" not in p else {m, m % 12 + 1, (m - 2) % 12 + 1}
                for row in [p["values"]] if ty == "monthlyprofile" else p["values"]:
                    for m in range(1, 13):
                        if m not in near:
                            row[m - 1] = round(row[m - 1] * r.num(0.3, 1.6), 3)
    return doc, k


def _day(j):
    import pandas as pd

    return pd.Timedelta(days=j)


def prefix(model, k):
    """What the recorders have to say about the first k steps."""
    out = {}
    for rc in model.recorders:
        if rc.name == "__observer":
            continue
        d = getattr(rc, "data", None)
        if isinstance(d, np.ndarray) or hasattr(d, "shape"):
            d = np.array(d)
            if type(rc).__name__.startswith("NumpyArray") and not any(x in type(rc).__name__ for x in ("Normalised", "DailyProfile")) and d.ndim == 2 and len(d) >= k:
                out[rc.name] = d[:k].astype(float)
    return out


def edit(w, e):
    m = w.model
    if e["key"] == "value":
        try:
            c = m.parameters[e["name"]]
        except KeyError:
            return
        c.set_double_variables(np.array([c.get_constant_value() * e["mult"]]))
        return
    try:
        nd = m.nodes[e["name"]]
    except KeyError:
        return
    old = getattr(nd, e["key"])
    if "to" in e:
        setattr(nd, e["key"], e["to"])
    elif isinstance(old, (int, float)):
        setattr(nd, e["key"], old * e["mult"])


def run(case, ctx):
    doc = case["doc"]
    starts = timestep_starts(doc["timestepper"])
    n = len(starts)
    if n < 2:
        return
    other, k = altered(case)
    n2 = len(timestep_starts(other["timestepper"]))
    Plan.clear()
    a = World(doc, solver=case["solver"])
    ea = a.run()
    note(ctx, a.trace)
    trace_digest(ctx, a.trace)
    if not ctx.ok(ea is None, "run-failed:" + type(ea).__name__, repr(ea)):
        return
    Plan.clear()
    b = World(other, solver=case["solver"], proxy=bool(case["ops"] or case.get("fault")))
    for op in case["ops"]:
        apply_op(b, op, ctx, n2)
    if case.get("fault"):
        arm(b, [case["fault"]])
    ed = sorted(case.get("edits", []), key=lambda e: e["at"])
    by = "run"
    e = None
    if ed:
        by = "steps"
        e = b.ready()
        done = 0
        for x in ed:
            at = max(k, min(x["at"], n2))
            if e is None and at > done:
                e = drive(b, at - done)
                done = at
            if e is None:
                edit(b, x)
        if e is None and done < n2:
            e = drive(b, n2 - done)
    else:
        e = b.run()
    fired = disarm()
    for f in fired:
        ctx.fault(f"{f['exc']}@{f['phase']}")
    note(ctx, b.trace)
    trace_digest(ctx, b.trace)
    ctx.state(sorted(case["what"]), min(k, 5), k == n - 1, by, [f["phase"] for f in fired], [o["op"] for o in case["ops"]])
    # an error may only come from the future
    upto = min(k, n2)
    if len(b.trace) < upto:
        ctx.bad("stopped-early:" + type(e).__name__, f"second run stopped after {len(b.trace)} of the first {upto} steps, which are the same in both: {e!r}")
        return
    for x, y in zip(a.trace[:upto], b.trace[:upto]):
        d = diff_snap(x, y, 1e-6)
        ctx.checks += 1
        if d:
            ctx.bad("past-changed", f"changes ({', '.join(case['what'])}) from step {k} ({starts[k][0].date()}) on changed {d}")
            return
    ra, rb = prefix(a.model, upto), prefix(b.model, upto)
    for rn in ra:
        if rn in rb:
            ctx.ok(same(ra[rn], rb[rn], 1e-6), "recorded-past-changed", lambda: f"changes ({', '.join(case['what'])}) from step {k} on changed {rn} ({doc['recorders'][rn]['type']}): {brief(ra[rn])} / {brief(rb[rn])}")


def shrink(case):
    yield from shrink_ops(case)
    for w in case["what"]:
        if len(case["what"]) > 1:
            c = copy.deepcopy(case)
            c["what"].remove(w)
            if w == "fault":
                c.pop("fault")
            yield c
    for j in range(len(case.get("edits", []))):
        c = copy.deepcopy(case)
        c["edits"].pop(j)
        yield c
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case)
