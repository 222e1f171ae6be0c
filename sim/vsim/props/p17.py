"""P17: every in-memory recorder is the fold of what was simulated in its own run."""
from ..comps import Plan
from ..gen import FIXED_INDEX, G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, drive, gen_fault, gen_history, shrink_ops
from ..oracles import Net
from ..paramref import ParamRef
from ..recref import RecRef, check_recorders
from ..web import weave
from ..world import World, note, trace_digest

N = {"quick": 1300, "thorough": 25000}
RULE = "a distinct event log of a judged run in which at least one recorder was compared with its fold"
STATE_MEASURE = "distinct (recorder kind, time step kind, history operation, fault, final drive) tuples"

FUNCS = ["mean", "sum", "max", "min", "median", "product", "count_nonzero", "MEAN"]


def any_func(r):
    k = r.randrange(10)
    if k < 6:
        return r.pick(FUNCS)
    if k < 8:
        q = r.pick([0, 5, 10, 50, 75.5, 95, 100])
        return {"func": "percentile", "args": [q]} if r.p(0.5) else {"func": "percentile", "kwargs": {"q": q}}
    return {"func": "percentileofscore", "kwargs": {"score": r.num(0, 10), "kind": r.pick(["rank", "weak", "strict", "mean"])}}


def gen(r, i, tier):
    g = G(r, steps=(2, 20), faultparams=1 if r.p(0.3) else 0, recs=(2, 6), reaches=(1, 3), dims=(0, 2), yearedge=0.5)
    doc = g.build()
    weave(r, g, doc, r.randint(1, 5), feedback=0.7, fault=0.05)
    more(r, g, doc)
    doc["recorders"] = g.recs
    return {"doc": doc, "ops": gen_history(r, doc, g, 0, 2) if r.p(0.6) else [], "solver": r.pick(solvers_for(doc)),
            "fault": gen_fault(r, doc, g) if r.p(0.15) else None, "final": r.pick(["run", "run", "run", "steps", "restart"]), "from": r.randrange(g.nsteps)}


def more(r, g, doc):
    plain = [n["name"] for n in doc["nodes"] if n["type"] in ("Link", "Output", "Input", "Catchment", "River", "DelayNode", "LossLink")]
    stores = [s["name"] for s in g.stores]
    vals = list(doc["parameters"]) or [g.series(0, 10)]
    idx = [p for p in vals if doc["parameters"].get(p, {}).get("type") in FIXED_INDEX or "threshold" in doc["parameters"].get(p, {}).get("type", "") or doc["parameters"].get(p, {}).get("type") == "controlcurveindex"]
    # thresholds that give an index only
    nonum = [p for p in idx if "threshold" in doc["parameters"][p]["type"] and "values" not in doc["parameters"][p] and not doc["parameters"][p]["type"].startswith("multiple")]
    nums = [p for p in vals if p not in nonum]

    # a deficit is different before and after the step
    held = [p for p in nums if doc["parameters"][p]["type"] != "deficit"] or [g.series(0, 10)]

    def fn(kw):
        if r.p(0.7):
            kw["agg_func"] = any_func(r)
        return kw

    for _ in range(r.randint(2, 7)):
        k = r.weighted({"hydropower": 1, "totalhydroenergy": 1, "level": 1 if stores else 0, "area": 1 if stores else 0, "fdcdev": 1, "kde": 0.4 if stores else 0, "nan": 1 if nonum else 0,
                        "series": 3, "yearly": 2, "counts": 1.5 if idx else 0, "window": 1.5, "daily": 0.7, "aggregated": 1})
        tf = {"temporal_agg_func": any_func(r)} if r.p(0.7) else {}
        if k in ("hydropower", "totalhydroenergy"):
            kw = {"node": r.pick(plain), "turbine_elevation": r.num(0, 5), "efficiency": r.num(0.5, 1)}
            if r.p(0.7):
                kw["water_elevation_parameter"] = r.pick(nums)
            if r.p(0.4):
                kw["flow_unit_conversion"] = r.num(0.5, 2)
            if r.p(0.4):
                kw["energy_unit_conversion"] = 1e-3
            if r.p(0.3):
                kw["density"] = 998.0
            g.rec(k, **fn(kw), **(tf if k == "hydropower" else {}))
        elif k in ("level", "area"):
            s = r.pick(g.stores)
            nd = next(n for n in doc["nodes"] if n["name"] == s["name"])
            if k not in nd:
                nd[k] = r.num(1, 50) if r.p(0.3) else (g.param("interpolatedvolume", node=s["name"], volumes=[-10, s["_max"] * 0.5, s["_max"] * 100], values=[r.num(0, 5), r.num(5, 9), r.num(9, 20)]) if r.p(0.5) else r.pick(held))
            g.rec("numpyarray" + k, node=s["name"], **fn(dict(tf)))
        elif k == "fdcdev":
            ps = [5.0, 50.0, 90.0][:r.randint(1, 3)]
            kw = {"node": r.pick(plain), "percentiles": ps}
            cols = r.pick([1, "all", "scen" if g.scen else 1])
            ncols = 1
            if cols == "all":
                from ..scen import combos

                ncols = len(combos(doc))
            elif cols == "scen":
                s = r.pick(g.scen)
                kw["scenario"], ncols = s["name"], r.pick([1, s["size"]])
            which = r.pick([("lower_target_fdc",), ("upper_target_fdc",), ("lower_target_fdc", "upper_target_fdc")])
            for w in which:
                kw[w] = [[r.num(0.5, 12) for _ in range(ncols)] for _ in ps]
                if ncols == 1 and r.p(0.5):
                    kw[w] = [x[0] for x in kw[w]]
            if r.p(0.5):
                kw["temporal_agg_func"] = r.pick(FUNCS)
            g.rec("flowdurationcurvedeviation", **fn(kw))
        elif k == "kde":
            g.rec("gaussiankdestorage", node=r.pick(stores), target_volume_pc=r.num(0.2, 0.9), **({"use_reflection": False} if r.p(0.5) else {}))
        elif k == "nan":
            g.rec("numpyarrayparameter", parameter=r.pick(nonum), ignore_nan=r.p(0.6), **fn(dict(tf)))
        elif k == "series":
            kk = r.pick(["numpyarraynode", "numpyarrayparameter", "totalflownode", "meanflownode", "totalparameter", "meanparameter"] + (["numpyarraystorage", "storagedurationcurve"] if stores else []))
            kw = {"factor": r.num(0.5, 3)} if r.p(0.4) and kk not in ("numpyarrayparameter", "numpyarraystorage", "storagedurationcurve") else {}
            if kk == "totalparameter" and r.p(0.5):
                kw["integrate"] = True
            kw.update({"parameter": r.pick(nums)} if "parameter" in kk else {"node": r.pick(stores if "storage" in kk else plain)})
            if kk == "storagedurationcurve":
                kw["percentiles"] = sorted({r.pick([0, 5, 25, 50, 75.5, 90, 100]) for _ in range(3)})
            if kk == "numpyarraynode" and r.p(0.3):
                kw["ignore_nan"] = True
            g.rec(kk, **fn(kw), **(tf if kk in ("numpyarraynode", "numpyarrayparameter", "numpyarraystorage") else {}))
        elif k == "yearly":
            if idx and r.p(0.5):
                kw = {"parameters": r.some(idx, 1, 3), "threshold": r.randint(1, 2)}
                if r.p(0.4):
                    kw["exclude_months"] = r.some(list(range(1, 13)), 1, 4)
                if r.p(0.4):
                    kw["include_from_month"], kw["include_from_day"] = r.randint(1, 9), r.randint(1, 28)
                if r.p(0.4):
                    kw["include_to_month"], kw["include_to_day"] = r.randint(6, 12), r.randint(1, 28)
                g.rec("annualcountindexthreshold", **fn(kw), **tf)
            else:
                mem = r.some(plain, 1, 3)
                g.rec("annualtotalflow", **fn({"nodes": mem}), **({"factors": [r.num(0.5, 2) for _ in mem]} if r.p(0.5) else {}), **tf)
        elif k == "counts":
            kk = r.pick(["timestepcountindexparameter", "annualcountindexparameter", "numpyarrayindexparameter"])
            g.rec(kk, **fn({"parameter": r.pick(idx)}), **({} if kk.startswith("numpy") else {"threshold": r.randint(1, 2)}))
        elif k == "window":
            if r.p(0.5):
                g.rec("rollingwindowparameter", parameter=r.pick(nums), window=r.randint(1, 8), temporal_agg_func=r.pick(FUNCS))
            else:
                g.rec("rollingmeanflownode", node=r.pick(plain), timesteps=r.randint(1, 8))
        elif k == "daily":
            g.rec("numpyarraydailyprofileparameter", parameter=r.pick(nums), **fn(dict(tf)))
        elif k == "aggregated":
            base = [n for n, d in g.recs.items() if d["type"] in ("numpyarraynode", "totalflownode", "meanflownode", "numpyarrayparameter", "totalparameter", "meanparameter", "numpyarraystorage", "minimumvolumestorage",
                                                                  "annualtotalflow", "annualcountindexthreshold", "timestepcountindexparameter", "aggregated", "flowdurationcurve", "hydropower")]
            if base:
                kw = {"recorder_agg_func": r.pick(["mean", "sum", "max", "min", "product"])}
                g.rec("aggregated", recorders=r.some(base, 1, 4), **(fn(kw) if r.p(0.7) else {"agg_func": r.pick(["mean", "sum", "max", "min"])}))


def run(case, ctx):
    doc = case["doc"]
    starts = timestep_starts(doc["timestepper"])
    n = len(starts)
    Plan.clear()
    net = Net(doc)
    w = World(doc, solver=case["solver"], proxy=bool(case.get("fault")))
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    if case.get("fault"):
        arm(w, [case["fault"]])
    if case["final"] == "run":
        e = w.run()
    else:
        if case["final"] == "steps":
            e = w.ready() or drive(w, n)
        else:
            k = min(case["from"], n - 1)
            e = w.ready() or w.reset(start=starts[k][0]) or drive(w, n - k)
        if w.trace:
            try:
                w.model.finish()
            except BaseException as x:
                e = e or x
    fired = disarm()
    for f in fired:
        ctx.fault(f"{f['exc']}@{f['phase']}")
    if type(e).__name__ == "LinAlgError" and any(d["type"] == "gaussiankdestorage" for d in doc["recorders"].values()):
        ctx.probe("kde-of-a-constant")  # no density exists: the statistic is undefined and says so
        return
    if e is not None and not fired:
        ctx.bad("run-failed:" + type(e).__name__, repr(e))
        return
    note(ctx, w.trace)
    trace_digest(ctx, w.trace)
    last = [o["op"] for o in case["ops"]][-1:]
    for nm, d in doc["recorders"].items():
        ctx.state(d["type"], str(doc["timestepper"]["timestep"])[-1:].isalpha(), last, bool(fired), case["final"])
    if not w.trace or fired and fired[0]["phase"] in ("setup", "reset"):
        return
    ref = RecRef(doc, net, w.trace, ParamRef(doc, net, w.trace), starts)
    upto, totals = None, True
    if fired:
        f = fired[0]
        clean = f["phase"] in ("before", "value") or f["comp"].startswith(("node:", "__solver"))
        if f["phase"] == "finish":
            # every step was recorded, but statistics are only completed by finish
            upto, totals = None, False
        elif clean:
            upto, totals = len(w.trace) + w.trace[0]["i"], f["phase"] != "finish"
        else:
            upto, totals = w.trace[-1]["i"], False
    check_recorders(ref, w.model, ctx, upto=upto, totals=totals)


def shrink(case):
    yield from shrink_ops(case)
    if case.get("fault"):
        yield dict(case, fault=None)
    if case["final"] != "run":
        yield dict(case, final="run")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    yield from shrink_case(case)
