"""P04: a scenario's results do not depend on which others are run, how they were chosen or in what order."""
import copy

import numpy as np
import pandas as pd

from ..comps import Plan
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, gen_history, shrink_ops
from ..oracles import close
from ..scen import combos, input_value, labels, sizes
from ..world import World, diff_trace, note, rec_result, same, trace_digest

N = {"quick": 1200, "thorough": 12000}
RULE = "a distinct event log of two runs of one network under different selections of scenario combinations sharing at least one"
STATE_MEASURE = "distinct (dimensions, selection kinds, sizes, outcome) tuples"


def gen(r, i, tier):
    g = G(r, steps=(4, 16), dims=(1, 3), max_combos=r.pick([4, 8, 12]), recs=(4, 9), faultparams=1 if r.p(0.2) else 0, long=0.05, data=2.5)
    doc = g.build()
    sel = {}
    full = [[]]
    for s in sizes(doc):
        full = [c + [j] for c in full for j in range(s)]
    mine = [list(c) for c in combos(doc)]
    k = r.pick(["one", "one", "subset", "mixed", "slices", "reorder"])
    if k == "one":
        sel = {"comb": [r.pick(mine)]}
    elif k == "subset":
        sel = {"comb": r.some(mine, 1, 6)}
    elif k == "reorder":
        c = [list(x) for x in mine]
        r.shuffle(c)
        sel = {"comb": c[:12]}
    elif k == "mixed":
        c = r.some(mine, 1, 3) + r.some(full, 1, 5)
        u = []
        for x in c:
            if x not in u:
                u.append(x)
        r.shuffle(u)
        sel = {"comb": u}
    else:
        one = r.pick(mine)
        sl = []
        for s, j in zip(sizes(doc), one):
            a, b = r.randint(0, j), r.randint(j + 1, s)
            sl.append(r.pick([[a, b], [j, j + 1], [a, b, 1], None if s <= 3 else [a, b], [j, None], [j % 2, None, 2]]))
        sel = {"slices": sl}
    return {"doc": doc, "sel": sel, "kind": k, "solver": r.pick(solvers_for(doc)), "ops": gen_history(r, doc, g, 1, 1) if r.p(0.3) else []}


def other(doc, sel):
    d = copy.deepcopy(doc)
    d.pop("scenario_combinations", None)
    for s in d["scenarios"]:
        s.pop("slice", None)
    if "comb" in sel:
        d["scenario_combinations"] = sel["comb"]
    else:
        for s, sl in zip(d["scenarios"], sel["slices"]):
            if sl is not None:
                s["slice"] = sl
    return d


def per_scenario(model, labs, nsteps):
    """recorder -> attribute -> list (one per combination) of what it reports for it."""
    out = {}
    n = len(labs)
    for r in model.recorders:
        if r.name == "__observer":
            continue
        res = {}
        rr = rec_result(r)
        for what in ("values", "data", "fdc", "sdc", "fdc_deviations"):
            v = rr.get(what)
            if isinstance(v, np.ndarray) and v.ndim and v.shape[-1] == n:
                res[what] = [v[..., j] for j in range(n)]
            elif what == "values" and v is not None:
                res[what] = [v] * n
        fn = getattr(r, "to_dataframe", None)
        if fn is not None:
            try:
                df = fn()
            except Exception as e:
                df = None
                res["to_dataframe"] = ["error:" + type(e).__name__] * n
            if df is not None and "scenario_id" in df.columns:
                cols = [c for c in df.columns if c not in ("scenario_id",)]
                res["events"] = [[[str(x) if isinstance(x, (pd.Timestamp, pd.Period)) else x for x in row] for row in df[df.scenario_id == j][cols].values.tolist()] for j in range(n)]
            elif df is not None and len(df.columns) == n:
                res["labels"] = [tuple(c) if isinstance(c, tuple) else (c,) for c in df.columns]
                res["frame"] = [df.iloc[:, j].to_numpy(dtype=float) for j in range(n)]
        out[r.name] = res
    return out


def run(case, ctx):
    doc = case["doc"]
    if "scenarios" not in doc:
        return
    if len(case["sel"].get("slices", sizes(doc))) != len(sizes(doc)) or any(len(c) != len(sizes(doc)) for c in case["sel"].get("comb", [])):
        return
    if any(k >= s for c in case["sel"].get("comb", []) for k, s in zip(c, sizes(doc))):
        return
    doc2 = other(doc, case["sel"])
    ca, cb = combos(doc), combos(doc2)
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    a = World(doc, solver=case["solver"], proxy=bool(case["ops"]))
    b = World(doc2, solver=case["solver"], proxy=bool(case["ops"]))
    for op in case["ops"]:
        apply_op(a, op, ctx, n)
    ea, eb = a.run(), b.run()
    note(ctx, a.trace)
    note(ctx, b.trace)
    trace_digest(ctx, a.trace)
    ctx.log(cb)
    ctx.state(sizes(doc), case["kind"], len(ca), len(cb), type(ea).__name__)
    if not ctx.ok(ea is None and eb is None, "run-failed:" + type(ea or eb).__name__, lambda: f"{ea!r} / {eb!r}"):
        return
    for w, d, c, who in ((a, doc, ca, "first"), (b, doc2, cb, "second")):
        got = [tuple(int(x) for x in s.indices) for s in w.model.scenarios.combinations]
        if not ctx.ok(got == c, "combinations", lambda: f"{who} model runs {got}, declared {c}"):
            return
        gid = [s.global_id for s in w.model.scenarios.combinations]
        if not ctx.ok(gid == list(range(len(c))), "global-ids", str(gid)):
            return
        # every scenario-dependent input under its own index
        for p in d["parameters"]:
            for t, s in enumerate(w.trace):
                want = [input_value(d, p, t, s["date"], x) for x in c]
                if want[0] is None:
                    break
                if not ctx.ok(close(s["pv"][p], want, 1e-9), "input-index", lambda: f"{who} step {t} {p} {d['parameters'][p]['type']}: {s['pv'][p]} / declared {want} for {c}"):
                    return
    ra, rb = per_scenario(a.model, ca, n), per_scenario(b.model, cb, n)
    for w, d, res, who in ((a, doc, ra, "first"), (b, doc2, rb, "second")):
        lab = labels(d)
        for rn, x in res.items():
            if "labels" in x and not ctx.ok([tuple(map(str, y)) for y in x["labels"]] == [tuple(map(str, y)) for y in lab], "labels", lambda: f"{who} {rn}: {x['labels']} / {lab}"):
                return
    for j, c in enumerate(cb):
        if c not in ca:
            continue
        i = ca.index(c)
        for x, y in zip(a.trace, b.trace):
            for what in ("flow", "vol", "pc", "pv", "pi", "prev"):
                for nm in x[what]:
                    p, q = np.asarray(x[what][nm], float)[i], np.asarray(y[what][nm], float)[j]
                    if not close(p, q, 1e-6):
                        ctx.bad("scenario-differs", f"step {x['i']} {x['date']} {what} of {nm} for combination {c}: {p} among {ca} / {q} among {cb}")
                        return
        ctx.checks += len(a.trace)
        for rn in ra:
            for what in ra[rn]:
                if what == "labels" or what not in rb[rn]:
                    continue
                if not ctx.ok(same(ra[rn][what][i], rb[rn][what][j], 1e-6), "recorder-differs",
                              lambda: f"{rn} ({doc['recorders'][rn]['type']}) {what} for combination {c}: {ra[rn][what][i]} among {ca} / {rb[rn][what][j]} among {cb}"):
                    return


def shrink(case):
    yield from shrink_ops(case)
    if len(case["sel"].get("comb", [])) > 1:
        for k in range(len(case["sel"]["comb"])):
            yield dict(case, sel={"comb": case["sel"]["comb"][:k] + case["sel"]["comb"][k + 1:]})
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    for c in shrink_case(case):
        if len(c["doc"].get("scenarios", [])) == len(case["doc"]["scenarios"]):
            yield c
