"""P15: recorded events are exactly the maximal triggered runs of at least the minimum length."""
import numpy as np
import pandas as pd

from ..comps import Plan
from ..gen import FIXED_INDEX, G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, drive, gen_fault, gen_history, shrink_ops
from ..oracles import Net, close
from ..paramref import ParamRef
from ..recref import RecRef, agg1
from ..web import weave
from ..world import World, note, trace_digest

N = {"quick": 1500, "thorough": 30000}
RULE = "a distinct event log of a judged run in which at least one event recorder was compared with the triggered periods of the trace"
STATE_MEASURE = "distinct (trigger kind, minimum length, open at the end, closed, history operation, fault, final drive) tuples"

PRED = {"LT": lambda a, b: a < b, "GT": lambda a, b: a > b, "LE": lambda a, b: a <= b, "GE": lambda a, b: a >= b}
AGG = ["mean", "sum", "max", "min", "median"]


def gen(r, i, tier):
    g = G(r, steps=(3, 30), faultparams=1 if r.p(0.4) else 0, recs=(0, 2), reaches=(1, 2), dims=(0, 2), long=0.3)
    doc = g.build()
    weave(r, g, doc, r.randint(1, 4), feedback=1.0, fault=0.05)
    for k in [k for k, d in g.recs.items() if d["type"].startswith("event")]:
        del g.recs[k]
    pars = doc["parameters"]
    plain = [n["name"] for n in doc["nodes"] if n["type"] in ("Link", "Output", "Input", "Catchment", "River", "DelayNode", "LossLink")]
    stores = [s for s in g.stores]
    code = []
    for _ in range(r.randint(1, 4)):
        k = r.weighted({"simindex": 3, "pulse": 3, "params": 3, "noderec": 1, "threshold": 3})
        kw = {}
        if r.p(0.75):
            kw["minimum_event_length"] = r.pick([1, 2, 2, 3, 4, 7])
        nums = [p for p, d in pars.items() if not ("threshold" in d["type"] and "values" not in d) and d["type"] != "multiplethresholdindex"]
        if r.p(0.6):
            kw["tracked_parameter"] = r.pick(nums) if r.p(0.5) else g.series(-5, 10)
            if r.p(0.5):
                kw["event_agg_func"] = r.pick(AGG)
        if r.p(0.3):
            kw["agg_func"] = r.pick(AGG)
        sc = {"scenario": r.pick(g.scen)["name"]} if g.scen and r.p(0.7) else {}
        if k == "simindex":
            t = g.param("simindex", seed=g.seed(), n=r.pick([2, 2, 3]), period=r.pick([1, 1, 2, 4, 10]), **sc)
        elif k == "pulse":
            t = g.param("simseries", seed=g.seed(), lo=0, hi=r.pick([0.9, 0.9, 5]), mode="pulse", period=r.pick([1, 2, 3, 8]), **sc)
        elif k == "params":
            t = r.pick(list(pars))
        elif k == "noderec":
            t = g.rec(*r.pick([("node",)]), node=r.pick(plain)) if not stores or r.p(0.6) else g.rec("storage", node=r.pick(stores)["name"])
        if k == "threshold":
            s = r.pick(stores) if stores and r.p(0.5) else None
            c = {"name": f"e{len(code)}", "node": s["name"] if s else r.pick(plain), "storage": bool(s), "pred": r.pick(list(PRED)),
                 "threshold": round(s["_max"] * r.num(0.1, 0.9), 2) if s else r.num(0, 10), "min": kw.get("minimum_event_length", 1), "tracked": kw.get("tracked_parameter")}
            if r.p(0.5):
                c["dur"] = r.pick(AGG)
            code.append(c)
            continue
        e = g.rec("event", threshold=t, **kw)
        if r.p(0.6):
            d = {"event_recorder": e}
            if r.p(0.7):
                d["recorder_agg_func"] = r.pick(AGG)
            g.rec("eventduration", **d)
        if "tracked_parameter" in kw and r.p(0.6):
            d = {"event_recorder": e}
            if r.p(0.7):
                d["recorder_agg_func"] = r.pick(AGG)
            if r.p(0.7):
                d["event_agg_func"] = r.pick(AGG)
            g.rec("eventstatistic", **d)
    doc["recorders"] = g.recs
    return {"doc": doc, "code": code, "ops": gen_history(r, doc, g, 0, 2) if r.p(0.6) else [], "solver": r.pick(solvers_for(doc)),
            "fault": gen_fault(r, doc, g) if r.p(0.35) else None, "final": r.pick(["run", "run", "steps", "restart"]), "from": r.randrange(g.nsteps)}


def triggers(ref, model, name, T):
    """Steps x scenarios: is the named parameter or recorder non-zero."""
    from pywr.parameters import IndexParameter

    doc = ref.doc
    if name in doc["parameters"]:
        if isinstance(model.parameters[name], IndexParameter):
            a = [ref.tr[t]["pi"][name] for t in range(T)]
        else:
            a = [ref.pv(name, t) for t in range(T)]
    else:
        d = doc["recorders"][name]
        a = [ref.tr[t]["flow" if d["type"] == "node" else "vol"][d["node"]] for t in range(T)]
    return [np.broadcast_to(np.asarray(x) != 0, (ref.nc,)) for x in a]


def expected(trig, nc, minlen):
    """(scenario, first step, first step after) of every event, in order of closing."""
    T = len(trig)
    out = []
    for j in range(nc):
        a = None
        for t in range(T + 1):
            on = t < T and trig[t][j]
            if on and a is None:
                a = t
            elif not on and a is not None:
                if t - a >= minlen:
                    out.append((j, a, t, t == T))
                a = None
    return out


def run(case, ctx):
    from pywr.recorders import EventDurationRecorder, EventRecorder
    from pywr.recorders._thresholds import NodeThresholdRecorder, StorageThresholdRecorder

    doc = case["doc"]
    starts = timestep_starts(doc["timestepper"])
    n = len(starts)
    Plan.clear()
    net = Net(doc)
    w = World(doc, solver=case["solver"], proxy=bool(case.get("fault")))
    m = w.model
    coded = {}
    for c in case["code"]:
        if c["node"] not in [x.name for x in m.nodes] or c["tracked"] is not None and c["tracked"] not in [p.name for p in m.parameters]:
            continue
        tr = (StorageThresholdRecorder if c["storage"] else NodeThresholdRecorder)(m, m.nodes[c["node"]], c["threshold"], predicate=c["pred"], name=c["name"] + "t")
        ev = EventRecorder(m, tr, minimum_event_length=c["min"], tracked_parameter=m.parameters[c["tracked"]] if c["tracked"] else None, name=c["name"])
        coded[c["name"]] = (c, ev, EventDurationRecorder(m, ev, recorder_agg_func=c["dur"], name=c["name"] + "d") if c.get("dur") else None)
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    if case.get("fault"):
        arm(w, [case["fault"]])
    first = 0
    if case["final"] == "run":
        e = w.run()
    else:
        e = w.ready()
        if case["final"] == "restart":
            first = min(case["from"], n - 1)
            e = e or w.reset(start=starts[first][0])
        e = e or drive(w, n - first + 1)
        if isinstance(e, StopIteration):
            e = None
        try:
            m.finish()
        except BaseException as x:
            e = e or x
    fired = disarm()
    for f in fired:
        ctx.fault(f"{f['exc']}@{f['phase']}")
    if e is not None and not fired:
        ctx.bad("run-failed:" + type(e).__name__, repr(e))
        return
    if fired and fired[0]["phase"] in ("setup", "reset"):
        return
    note(ctx, w.trace)
    trace_digest(ctx, w.trace)
    k = m.timestepper.current.index      # the first step that was not completed
    if not fired and k != n:
        ctx.bad("stopped-early", f"{k} of {n}")
        return
    trace = [s for s in w.trace if s["i"] < k]
    if [s["i"] for s in trace] != list(range(first, k)):
        ctx.bad("steps", f"{[s['i'] for s in trace]} / {first}..{k}")
        return
    clean = not fired or fired[0]["phase"] in ("before", "value", "finish") or fired[0]["comp"].startswith(("node:", "__solver"))
    if not trace:
        # stopped inside its first step: no event can have a step
        for name, d in doc["recorders"].items():
            if d["type"] == "event":
                ctx.ok(not m.recorders[name].events, "left-over", lambda: f"{name}: {len(m.recorders[name].events)} events of a run without a completed step")
        return
    ref = RecRef(doc, net, trace, ParamRef(doc, net, trace), starts)
    T = len(trace)
    dates = [pd.Timestamp(starts[s["i"]][0]) for s in trace]
    end = (pd.Timestamp(starts[-1][0]) + pd.Timedelta(days=round(starts[-1][1]))) if k == n else pd.Timestamp(starts[k][0])
    dates.append(end)
    last = [o["op"] for o in case["ops"]][-1:]

    def judge(kind, name, ev, trig, minlen, tracked, agg):
        want = expected(trig, ref.nc, minlen)
        have = [(x.scenario_index.global_id, x.start.datetime, x.end.datetime if x.end is not None else None) for x in ev.events]
        byscen = lambda j: [(a, b) for s, a, b in have if s == j]
        ctx.probe("trigger:" + kind)
        for j in range(ref.nc):
            ww = [(dates[a], dates[b]) for s, a, b, o in want if s == j]
            if not ctx.ok(byscen(j) == ww, "events:" + ("count" if len(byscen(j)) != len(ww) else "dates"),
                          lambda: f"{name} ({kind}, minimum {minlen}) scenario {j}: {byscen(j)} / {ww}"):
                return False
        for x in ev.events:
            if not ctx.ok(x.duration == (x.end.datetime - x.start.datetime).days, "events:duration", lambda: f"{name}: {x.duration}"):
                return False
        ctx.state(kind, minlen, any(o for *_, o in want), any(not o for *_, o in want), last, bool(fired), case["final"])
        vals = {}
        if tracked is not None:
            for x in ev.events:
                j = x.scenario_index.global_id
                a = dates.index(x.start.datetime)
                b = dates.index(x.end.datetime)
                v = np.array([np.broadcast_to(ref.pv(tracked, t), (ref.nc,))[j] for t in range(a, b)])
                h = np.asarray(x.values, float)
                if not clean and len(h) == len(v) + 1 and b == T:
                    h = h[:-1]       # the aborted step may have been seen
                if not ctx.ok(h.shape == v.shape and close(h, v, 1e-9), "events:tracked", lambda: f"{name} ({tracked}) scenario {j} {a}-{b}: {h} / {v}"):
                    return False
                vals[(j, a)] = v
        df = ev.to_dataframe()
        if not ctx.ok(len(df) == len(want), "events:frame", lambda: f"{name}: {len(df)} rows / {len(want)}"):
            return False
        for row, x in zip(df.itertuples(index=False), ev.events):
            if not ctx.ok(row.scenario_id == x.scenario_index.global_id and pd.Timestamp(row.start) == x.start.datetime and pd.Timestamp(row.end) == x.end.datetime, "events:frame", lambda: f"{name}: {row}"):
                return False
            if agg is not None and tracked is not None and clean:
                a = agg1(agg, vals[(row.scenario_id, dates.index(pd.Timestamp(row.start)))])
                if not ctx.ok(close(row.value, a, 1e-7), "events:frame-value", lambda: f"{name} {agg}: {row} / {a}"):
                    return False
        return want, vals

    def durations(name, rec, want, agg):
        exp = np.full(ref.nc, np.nan)
        for j in range(ref.nc):
            d = [(dates[b] - dates[a]).days for s, a, b, o in want if s == j]
            if d:
                exp[j] = agg1(agg, d)
        have = np.asarray(rec.values(), float)
        ctx.probe("duration")
        return ctx.ok(have.shape == exp.shape and close(have, exp, 1e-7), "durations", lambda: f"{name} {agg}: {have} / {exp}")

    recs = doc["recorders"]
    failed = fired[0]["comp"] if fired and fired[0]["phase"] == "finish" else None
    found = {}
    for name, d in recs.items():
        if d["type"] == "event":
            kind = (doc["parameters"].get(d["threshold"]) or recs.get(d["threshold"]))["type"]
            res = judge(kind, name, m.recorders[name], triggers(ref, m, d["threshold"], T), d.get("minimum_event_length", 1), d.get("tracked_parameter"),
                        d.get("event_agg_func", d.get("agg_func")))
            if res is False:
                return
            found[name] = res
    for name, d in recs.items():
        if d["type"] == "eventduration":
            if not durations(name, m.recorders[name], found[d["event_recorder"]][0], d.get("recorder_agg_func", d.get("agg_func", "mean"))):
                return
        elif d["type"] == "eventstatistic" and clean:
            want, vals = found[d["event_recorder"]]
            exp = np.full(ref.nc, np.nan)
            for j in range(ref.nc):
                v = [agg1(d.get("event_agg_func", d.get("agg_func", "mean")), vals[(s, a)]) for s, a, b, o in want if s == j]
                if v:
                    exp[j] = agg1(d.get("recorder_agg_func", d.get("agg_func", "mean")), v)
            have = np.asarray(m.recorders[name].values(), float)
            ctx.probe("statistic")
            if not ctx.ok(have.shape == exp.shape and close(have, exp, 1e-7), "statistics", lambda: f"{name}: {have} / {exp}"):
                return
    for name, (c, ev, du) in coded.items():
        trig = [np.broadcast_to(PRED[c["pred"]](np.asarray(s["vol" if c["storage"] else "flow"][c["node"]]), c["threshold"]), (ref.nc,)) for s in trace]
        res = judge("thr-storage" if c["storage"] else "thr-node", name, ev, trig, c["min"], c["tracked"], None)
        if res is False:
            return
        if du is not None and not durations(name + "d", du, res[0], c["dur"]):
            return


def shrink(case):
    yield from shrink_ops(case)
    if case.get("fault"):
        yield dict(case, fault=None)
    if case["final"] != "run":
        yield dict(case, final="run")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    for i in range(len(case["code"])):
        yield dict(case, code=case["code"][:i] + case["code"][i + 1:])
    yield from shrink_case(case, keep=[c["node"] for c in case["code"]] + [c["tracked"] for c in case["code"] if c["tracked"]])
