"""P11: coupled models step together and read each other's values of the right step - also after aborted runs."""
import copy
import json
import os

import numpy as np
import pandas as pd

from ..comps import Observer, Plan
from ..gen import G, refs, shrink_doc, solvers_for, timestep_starts
from ..history import arm, disarm, gen_fault, install_node_faults
from ..oracles import Net, close, initial_volume
from ..world import SolverProxy, World, diff_results, diff_trace, note, results, strip, trace_digest

N = {"quick": 900, "thorough": 12000}
RULE = "a distinct event log of a run of a set of models in which at least one value was taken from another model"
STATE_MEASURE = "distinct (number of models, kinds and directions of references, how the set was loaded, history operations, fault phase and model) tuples"

CROSS = ("othermodelparametervalue", "othermodelindexparametervalueindex", "othermodelnodeflow", "othermodelnodestorage")


class GS(G):
    """A model with the clock and the scenarios of another one."""

    master = None

    def time(self):
        m = self.master
        if m is None:
            return super().time()
        self.ts, self.starts, self.nsteps, self.start, self.end = dict(m.ts), m.starts, m.nsteps, m.start, m.end

    def scenarios(self):
        m = self.master
        if m is None:
            return super().scenarios()
        self.scen = copy.deepcopy(m.scen)
        self.doc_comb = copy.deepcopy(m.doc_comb)


def gen(r, i, tier):
    k = r.weighted({2: 5, 3: 3, 4: 1})
    gs, docs, solvers = [], [], []
    for j in range(k):
        g = GS(r, suffix=f"m{j}", steps=(2, 9), faultparams=1, dims=(0, 2), max_combos=3, recs=(1, 5), long=0.05, reaches=(1, 2), multidomain=0)
        g.master = gs[0] if gs else None
        docs.append(g.build())
        gs.append(g)
    names = [f"model{j}" for j in range(k)]
    if r.p(0.3):
        names = names[::-1]          # the order of the set is that of its list, not of its names
    couple(r, gs, docs, names)
    for j in range(k):
        solvers.append(r.pick(solvers_for(docs[j])))
    case = {"docs": docs, "names": names, "solvers": solvers, "load": r.pick(["doc", "doc", "file", "code", "code"]), "scramble": r.p(0.5), "ops": [], "fault": None}
    for _ in range(r.weighted({0: 3, 1: 3, 2: 1.5})):
        op = {"op": r.weighted({"run": 2, "abort": 6, "reset": 1, "setup": 1, "solo": 1.5, "clock": 1.5, "scenarios": 1})}
        j = r.randrange(k)
        op["j"] = j
        if op["op"] == "abort":
            op["fault"] = gen_fault(r, docs[j], gs[j])
        elif op["op"] == "clock":
            op["what"] = r.pick(["start", "end", "delta"])
        case["ops"].append(op)
    if r.p(0.25):
        j = r.randrange(k)
        case["fault"] = dict(gen_fault(r, docs[j], gs[j]), j=j)
    return case


def couple(r, gs, docs, names):
    k = len(docs)
    xs = [[] for _ in range(k)]
    for _ in range(r.randint(2, 3 * k)):
        j = r.randrange(k)
        q = r.pick([a for a in range(k) if a != j])
        d = docs[q]
        kind = r.pick(CROSS)
        kw = {"other_model": names[q]}
        if kind == "othermodelparametervalue":
            c = [p for p, v in d["parameters"].items() if v["type"] not in ("deficit", "annualhyperbolalicense", CROSS[1])]
            if not c:
                continue
            kw["parameter"] = r.pick(c) if r.p(0.7) or not xs[q] else r.pick([x for x in xs[q] if d["parameters"][x]["type"] != CROSS[1]] or c)
        elif kind == "othermodelindexparametervalueindex":
            c = [p for p, v in d["parameters"].items() if v["type"] in ("simindex", "nodethreshold", "storagethreshold", "parameterthreshold", "controlcurveindex", "multiplethresholdindex", CROSS[1])]
            if not c:
                continue
            kw["parameter"] = r.pick(c)
        elif kind == "othermodelnodeflow":
            kw["node"] = r.pick([n["name"] for n in d["nodes"] if n["type"] in ("Link", "Output", "Input", "Catchment", "River", "DelayNode", "LossLink", "BreakLink", "PiecewiseLink", "RiverGauge", "AggregatedNode")])
        else:
            c = [n["name"] for n in d["nodes"] if "torage" in n["type"] or n["type"] == "Reservoir"]
            if not c:
                continue
            kw["node"] = r.pick(c)
        x = gs[j].param(kind, **kw)
        xs[j].append(x)
        if kind == CROSS[1]:
            continue
        if r.p(0.6):
            gs[j].rec("numpyarrayparameter", parameter=x)
        # and let it steer the model that reads it
        spots = [n for n in docs[j]["nodes"] if n["type"] in ("Output", "Link") and isinstance(n.get("max_flow"), float) and n["max_flow"] > 0 and not n.get("min_flow")]
        if spots and r.p(0.8):
            n = r.pick(spots)
            scale = {"othermodelnodestorage": 0.02}.get(kind, 1.0)
            if scale != 1.0:
                x = gs[j].param("scaledprofile", scale=scale, profile=x)
            n["max_flow"] = gs[j].param("min", parameter=gs[j].param("max", parameter=x, threshold=round(n["max_flow"] * 0.15, 3)), threshold=n["max_flow"])
    for g, d in zip(gs, docs):
        d["parameters"], d["recorders"] = g.params, g.recs


class Seq(Observer):
    def __init__(self, model, j, log):
        super().__init__(model)
        self.j, self.log, self.early = j, log, []

    def before(self):
        self.log.append((self.j, int(self.model.timestepper.current.index)))
        super().before()


class Sub:
    def __init__(self, model, j, log):
        self.model = model
        self.proxy = SolverProxy(model.solver, f"__solverm{j}")
        model.solver = self.proxy
        self.obs = Seq(model, j, log)

    @property
    def trace(self):
        return self.obs.trace


def load(case, log):
    from pywr.core import Model
    from pywr.model import MultiModel

    docs = []
    for d in case["docs"]:
        d = strip(copy.deepcopy(d))
        if case["scramble"] and case["load"] != "code":
            d["timestepper"] = {"start": "1990-03-01", "end": "1990-04-17", "timestep": 1 if case["docs"][0]["timestepper"]["timestep"] == 3 else 3}
        docs.append(d)
    ts = case["docs"][0]["timestepper"]
    if case["load"] == "code":
        mm = MultiModel()
        for d, nm, s in zip(docs, case["names"], case["solvers"]):
            mm.add_model(nm, Model.load_from_dict(d, solver=s))
    elif case["load"] == "doc":
        doc = {"timestepper": dict(ts), "models": [{"name": nm, "data": d, "solver": s} for d, nm, s in zip(docs, case["names"], case["solvers"])]}
        keep = copy.deepcopy(doc)
        mm = MultiModel.load_from_dict(doc)
        assert doc == keep, "MultiModel.load_from_dict changed the document"
    else:
        for d, nm in zip(docs, case["names"]):
            with open(nm + ".json", "w") as fh:
                json.dump(d, fh)
        with open("set.json", "w") as fh:
            json.dump({"timestepper": dict(ts), "models": [{"name": nm, "filename": nm + ".json", "solver": s} for nm, s in zip(case["names"], case["solvers"])]}, fh)
        mm = MultiModel.load(os.path.abspath("set.json"))
    return mm, [Sub(m, j, log) for j, m in enumerate(mm.models.values())]


def attempt(mm, subs, fn=None):
    try:
        (fn or mm.run)()
    except BaseException as e:
        return e
    return None


def run(case, ctx):
    docs = case["docs"]
    k = len(docs)
    n = len(timestep_starts(docs[0]["timestepper"]))
    Plan.clear()
    log = []
    mm, subs = load(case, log)
    if [n_ for n_ in mm.models] != case["names"]:
        ctx.bad("order", f"models {list(mm.models)}, listed as {case['names']}")
        return
    for op in case["ops"]:
        history(case, op, mm, subs, log, ctx, n)
    flt = case.get("fault")
    done = aborted(case, flt, mm, subs, log, ctx, n) if flt else None
    if flt and done is not None:
        for s in subs:
            note(ctx, s.trace)
    del log[:]
    before = [s.obs.finishes for s in subs]
    e = attempt(mm, subs)
    ctx.state(k, sorted({(p["type"], case["names"].index(p["other_model"]) < j) for j, d in enumerate(docs) for p in d["parameters"].values() if p["type"] in CROSS}),
              case["load"], case["scramble"], [o["op"] for o in case["ops"]], flt and (flt["phase"], flt["j"]))
    for s in subs:
        note(ctx, s.trace)
        trace_digest(ctx, s.trace)
    if not ctx.ok(e is None, "run-failed:" + type(e).__name__, lambda: f"after {[o['op'] for o in case['ops']]}: {e!r}"):
        return
    want = [(j, t) for t in range(n) for j in range(k)]
    if not ctx.ok(log == want, "lock-step", lambda: f"steps taken (model, step): {log[:20]}, want {want[:20]} ({len(log)} / {len(want)})"):
        return
    ctx.ok(all(s.obs.finishes == b + 1 for s, b in zip(subs, before)), "finish", lambda: f"times finished: {[s.obs.finishes - b for s, b in zip(subs, before)]}")
    for j, s in enumerate(subs):
        st = timestep_starts(docs[0]["timestepper"])
        got = [(x["date"][:10], x["days"]) for x in s.trace]
        if not ctx.ok(len(got) == n and all(a == str(b.date()) and abs(c - d) < 1e-3 for (a, c), (b, d) in zip(got, st)), "clock", lambda: f"model {j}: {got[:5]}, declared {st[:5]}"):
            return
        if not ctx.ok(s.model.timestepper.current.index == n, "clock-end", lambda: f"after the run the clock of model {j} is at step {s.model.timestepper.current.index} of {n}"):
            return
    exp = [expected(case, j, subs, n) for j in range(k)]
    for j, s in enumerate(subs):
        for p, tab in exp[j].items():
            d = docs[j]["parameters"][p]
            what = "pi" if d["type"] == CROSS[1] else "pv"
            for t in range(n):
                if not ctx.ok(close(s.trace[t][what][p], tab[t], 1e-9), "value",
                              lambda: f"step {t}: {p} of model {j} ({d['type']} of {d.get('parameter') or d.get('node')} in model {case['names'].index(d['other_model'])}) is {s.trace[t][what][p]}, want {np.asarray(tab[t])}"):
                    return
    # each model is what it would be on its own, given those values
    for j, s in enumerate(subs):
        d = copy.deepcopy(docs[j])
        for p, tab in exp[j].items():
            d["parameters"][p] = {"type": "simtableindex" if d["parameters"][p]["type"] == CROSS[1] else "simtable", "values": [[float(v) for v in row] for row in tab]}
        Plan.clear()
        w = World(d, solver=case["solvers"][j], proxy=True, suffix=f"m{j}")
        e = w.run()
        note(ctx, w.trace)
        if not ctx.ok(e is None, "alone-failed:" + type(e).__name__, repr(e)):
            return
        df = diff_trace(s.trace, w.trace, 1e-6) or diff_results(results(s.model), results(w.model), 1e-6)
        if not ctx.ok(df is None, "differs-from-alone", lambda: f"model {j} of {k} in the set / alone with the same values: {df}"):
            return


def expected(case, j, subs, n):
    out = {}
    for p, d in case["docs"][j]["parameters"].items():
        if d["type"] not in CROSS:
            continue
        q = case["names"].index(d["other_model"])
        tr = subs[q].trace
        nc = len(subs[j].model.scenarios.combinations)
        zero = np.zeros(nc)
        what, nm = {"othermodelparametervalue": ("pv", d.get("parameter")), CROSS[1]: ("pi", d.get("parameter")), "othermodelnodeflow": ("flow", d.get("node")), "othermodelnodestorage": ("vol", d.get("node"))}[d["type"]]
        rows = []
        for t in range(n):
            if q < j:
                rows.append(tr[t][what][nm])
            elif t:
                rows.append(tr[t - 1][what][nm])
            elif what == "vol":
                rows.append(start_volume(case["docs"][q], nm, subs[q]))
            else:
                rows.append(zero)
        out[p] = [np.asarray(x, float) for x in rows]
    return out


def start_volume(doc, nm, sub):
    nodes = {x["name"]: x for x in doc["nodes"]}
    nd = nodes[nm]
    members = nd["storage_nodes"] if nd["type"] == "AggregatedStorage" else [nm]
    return np.full(len(sub.model.scenarios.combinations), sum(initial_volume(nodes[m], doc["parameters"]) for m in members))


def aborted(case, f, mm, subs, log, ctx, n):
    """A run with a fault in one of the models: the error is that fault, and everybody stopped at the same place."""
    k = len(subs)
    del log[:]
    arm(subs[f["j"]], [f])
    before = [s.obs.finishes for s in subs]
    e = attempt(mm, subs)
    fired = disarm()
    for x in fired:
        ctx.fault(f"{x['exc']}@{'node' if x['comp'].startswith('node:') else x['comp'][:2]}.{x['phase']}")
    if not fired:
        ctx.ok(e is None, "run-failed:" + type(e).__name__, lambda: f"{e!r} without a fault")
        return None
    x = fired[0]
    if not ctx.ok(e is x["err"], "error-lost", lambda: f"{x['comp']} of model {f['j']} raised {x['err']!r} in {x['phase']}; the run reported {e!r}"):
        return e
    want = [(j, t) for t in range(n) for j in range(k)]
    ctx.ok(log == want[:len(log)], "lock-step", lambda: f"steps begun before the error: {log[:20]}")
    lens = [len(s.trace) for s in subs]
    if x["phase"] in ("value", "before", "after") and log:
        t = log[-1][1] if log else 0
        q = f["j"]
        # models before it have finished the step, those after it have not begun it
        ok = all(lens[j] == t + 1 for j in range(q)) and lens[q] in (t, t + 1) and all(lens[j] == t for j in range(q + 1, k))
        # a fault in a component may strike before the first observer call of that model in this step
        ok = ok or (log[-1][0] == q - 1 and all(lens[j] == t + 1 for j in range(q)) and all(lens[j] == t for j in range(q, k))) or \
            (q == 0 and log[-1][0] == k - 1 and all(m == t + 1 for m in lens))
        ctx.ok(ok, "lock-step-aborted", lambda: f"fault in model {q} at step {t}: steps completed {lens}")
    ctx.ok(all(s.obs.finishes == b + 1 for s, b in zip(subs, before) if s.obs.resets), "finish-aborted", lambda: f"times finished: {[s.obs.finishes - b for s, b in zip(subs, before)]} after {x['comp']}.{x['phase']} of model {f['j']}")
    return e


def history(case, op, mm, subs, log, ctx, n):
    k = op["op"]
    s = subs[min(op["j"], len(subs) - 1)]
    ctx.log("op", k)
    if k == "run":
        e = attempt(mm, subs)
        ctx.ok(e is None, "run-failed:" + type(e).__name__, repr(e))
    elif k == "abort":
        aborted(case, dict(op["fault"], j=min(op["j"], len(subs) - 1)), mm, subs, log, ctx, n)
    elif k == "reset":
        if not mm.dirty:
            attempt(mm, subs, mm.reset)
    elif k == "setup":
        attempt(mm, subs, mm.setup)
    elif k == "solo":
        # one of the models run by itself, whatever that gives
        if not mm.dirty:
            attempt(mm, subs, s.model.run)
    elif k == "clock":
        ts = s.model.timestepper
        old = {"start": ts.start, "end": ts.end, "delta": ts.delta}
        if op["what"] == "delta":
            ts.delta = 4 if old["delta"] not in (4, "4D") else 5
        else:
            st = timestep_starts(case["docs"][0]["timestepper"])
            if len(st) < 2:
                return
            setattr(ts, op["what"], st[1][0] if op["what"] == "start" else st[-2][0])
        for _ in range(2):
            del log[:]
            e = attempt(mm, subs)
            ctx.fault("unequal-clocks")
            bad = [t for t in range(min(len(x.trace) for x in subs)) if len({(x.trace[t]["date"], round(x.trace[t]["days"], 3)) for x in subs}) > 1]
            ctx.ok((isinstance(e, RuntimeError) or (op["what"] == "delta" and isinstance(e, (ValueError, IndexError)))) and not bad, "unequal-clocks", lambda: f"{op['what']} of model {op['j']} differs: {e!r}, unequal steps {bad[:3]}")
        setattr(ts, op["what"], old[op["what"]])
    elif k == "scenarios":
        m = s.model
        if not len(m.scenarios.scenarios) or len(m.scenarios.get_combinations()) < 2:
            return
        old = m.scenarios.user_combinations
        cur = [list(c.indices) for c in m.scenarios.get_combinations()]
        m.scenarios.user_combinations = cur[:-1]
        m.dirty = True
        for _ in range(2):
            e = attempt(mm, subs)
            ctx.fault("unequal-scenarios")
            ctx.ok(isinstance(e, ValueError), "unequal-scenarios", lambda: f"model {op['j']} has other combinations: {e!r}")
        m.scenarios.user_combinations = None if old is None else np.array(old)
        m.dirty = True


def shrink(case):
    k = len(case["docs"])
    for j in range(len(case["ops"])):
        c = copy.deepcopy(case)
        c["ops"].pop(j)
        yield c
    if case.get("fault"):
        yield dict(case, fault=None)
    if k > 2:
        j = k - 1
        nm = case["names"][j]
        c = copy.deepcopy(case)
        if not any(p.get("other_model") == nm for d in c["docs"][:-1] for p in d["parameters"].values()) and not (c.get("fault") and c["fault"]["j"] == j) and all(o["j"] != j for o in c["ops"]):
            for key in ("docs", "names", "solvers"):
                c[key].pop()
            yield c
    for load in ("code", "doc"):
        if case["load"] != load:
            yield dict(case, load=load)
    if case["scramble"]:
        yield dict(case, scramble=False)
    for j in range(k):
        if case["solvers"][j] != "glpk":
            c = copy.deepcopy(case)
            c["solvers"][j] = "glpk"
            yield c
    # cross references to constants
    for j in range(k):
        for p, d in case["docs"][j]["parameters"].items():
            if d["type"] in CROSS and d["type"] != CROSS[1]:
                c = copy.deepcopy(case)
                c["docs"][j]["parameters"][p] = {"type": "constant", "value": 3.0}
                yield c
    for j in range(k):
        keep = {d.get("parameter") or d.get("node") for x in case["docs"] for d in x["parameters"].values() if d["type"] in CROSS and d["other_model"] == case["names"][j]}
        for d in shrink_doc(case["docs"][j], tuple(keep)):
            have = {x["name"] for x in d["nodes"]} | set(d["parameters"])
            if not keep <= have:
                continue
            c = copy.deepcopy(case)
            c["docs"][j] = d
            if d["timestepper"] != case["docs"][j]["timestepper"] or d.get("scenarios") != case["docs"][j].get("scenarios") or d.get("scenario_combinations") != case["docs"][j].get("scenario_combinations"):
                for q in range(k):
                    c["docs"][q]["timestepper"] = d["timestepper"]
                    for key in ("scenarios", "scenario_combinations"):
                        c["docs"][q].pop(key, None)
                        if key in d:
                            c["docs"][q][key] = copy.deepcopy(d[key])
            yield c
