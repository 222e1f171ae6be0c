"""P18: what the optimiser is told about a candidate is what a freshly loaded model with its values gives, whatever was evaluated before."""
import copy
import json
import math
import os
import pickle
import warnings

import numpy as np

from ..comps import Plan
from ..gen import G, shrink_doc, solvers_for, timestep_starts
from ..history import arm, disarm, gen_fault
from .. import data
from ..world import SolverProxy, strip

N = {"quick": 1600, "thorough": 12000}
RULE = "a distinct event log of a sequence of evaluations of at least two candidates, all compared with fresh models"
STATE_MEASURE = "distinct (wrapper, kinds of variable, bounds of constraints, history operation, fault phase, outcome) tuples"
TOL = 1e-6
TYPES = ("constant", "monthlyprofile", "rbfprofile", "annualharmonicseries", "offset", "controlcurve", "binarystep", "rectifier", "logistic")
ATTRS = {"Input": ("max_flow", "cost"), "Output": ("max_flow", "cost"), "Link": ("max_flow", "cost"), "River": ("max_flow", "cost"), "Catchment": ("flow",),
         "Storage": ("max_volume", "cost", "min_volume"), "Reservoir": ("max_volume", "cost", "min_volume"), "LossLink": ("loss_factor", "max_flow", "cost"), "RiverGauge": ("mrf", "mrf_cost"),
         "AggregatedNode": ("max_flow",), "VirtualStorage": ("max_volume", "cost"), "AnnualVirtualStorage": ("max_volume",), "RollingVirtualStorage": ("max_volume",)}


# -- cases ------------------------------------------------------------------------------
def gen(r, i, tier):
    g = G(r, steps=(2, 9), faultparams=1, dims=(0, 1), max_combos=3, recs=(3, 7), data=0.4, long=0.03, reaches=(1, 2))
    doc = g.build()
    vs = variables(r, doc, g)
    aims(r, doc)
    cands = []
    for _ in range(r.randint(2, 4)):
        cands.append({n: draw(r, doc["parameters"][n]) for n in vs})
    k = r.pick([1, 1, 1, 2, 3])
    ops = []
    for _ in range(r.randint(3, 7 if tier == "quick" else 12)):
        op = {"op": r.weighted({"eval": 10, "fault": 3, "user": 2, "crash": 0.7, "clear": 0.4, "generate": 0.6, "extreme": 1}), "w": r.randrange(k), "c": r.randrange(len(cands))}
        if op["op"] in ("eval", "fault"):
            op["how"] = r.pick(["direct", "problem"])
        if op["op"] == "fault":
            op["fault"] = gen_fault(r, doc, g)
        if op["op"] == "user":
            op["what"] = r.pick(["run", "steps", "setup", "variables", "reset"])
            op["k"] = r.randint(1, g.nsteps)
        ops.append(op)
    ops.append({"op": "eval", "w": r.randrange(k), "c": r.randrange(len(cands)), "how": "direct"})
    return {"doc": doc, "vars": vs, "cands": cands, "ops": ops, "workers": k, "kind": r.pick(["platypus", "platypus", "pygmo"]), "source": r.pick(["dict", "file"]),
            "solver": r.pick(solvers_for(doc)), "twin": r.p(0.15), "seed": r.randrange(1 << 30)}


def variables(r, doc, g):
    """Makes some of the model's numbers decision variables."""
    P = doc["parameters"]
    for nd in r.some(doc["nodes"], 1, 5):
        keys = [k for k in ATTRS.get(nd["type"], ()) if isinstance(nd.get(k), (int, float)) and not isinstance(nd.get(k), bool)]
        if not keys or nd.get("_novar"):
            continue
        k = r.pick(keys)
        v = float(nd[k])
        name = f"v{len(P)}x"
        if k == "max_volume" and "initial_volume_pc" not in nd and "initial_volume" in nd and nd["type"].endswith(("Storage", "Reservoir")):
            pass
        P[name] = {"type": "constant", "value": v}
        if r.p(0.25) and k in ("max_flow", "flow", "cost"):
            act = r.pick(["binarystep", "rectifier", "logistic"])
            P[name + "a"] = {"type": act, "value": r.num(-1, 1), **({"output": 1.2} if act == "binarystep" else {"max_output": 1.3})}
            P[name] = {"type": "aggregated", "agg_func": "product", "parameters": [v, name + "a"]}
        elif r.p(0.2):
            P[name] = {"type": "offset", "parameter": name + "b", "offset": round(0.3 * v, 4)}
            P[name + "b"] = {"type": "constant", "value": round(0.7 * v, 4)}
        elif r.p(0.2):
            P[name].update(scale=2.0, offset=round(0.1 * v, 4), value=round(0.45 * v, 4))
        nd[k] = name
    if r.p(0.5):
        for nd in r.some([n for n in doc["nodes"] if n["type"] == "AggregatedNode" and isinstance(n.get("factors"), list)], 0, 1):
            for j, f in enumerate(nd["factors"]):
                if isinstance(f, (int, float)) and r.p(0.7):
                    P[f"v{len(P)}f"] = {"type": "constant", "value": float(f)}
                    nd["factors"][j] = f"v{len(P) - 1}f"
    cands = [n for n, p in P.items() if p["type"] in TYPES and (p["type"] != "controlcurve" or "values" in p) and (p["type"] != "constant" or isinstance(p.get("value"), (int, float)))]
    mine = [n for n in cands if n.startswith("v")]
    pick = sorted(set(r.some(mine, 1, 4) if mine else []) | set(r.some(cands, 1 if not mine else 0, 4)))
    if not pick:
        P["vx"] = {"type": "constant", "value": 5.0}
        pick = ["vx"]
    for n in pick:
        p = P[n]
        p["is_variable"] = True
        t = p["type"]
        if t in ("constant", "offset"):
            v = p["value"] if t == "constant" else p.get("offset", 0.0)
            p["lower_bounds"], p["upper_bounds"] = sorted((round(0.4 * v - 0.01, 4), round(1.6 * v + 0.01, 4)))
        elif t == "monthlyprofile":
            p["lower_bounds"] = r.pick([0.0, [round(0.4 * x, 4) for x in p["values"]]])
            p["upper_bounds"] = [round(1.6 * x + 0.01, 4) for x in p["values"]]
        elif t == "rbfprofile":
            p["lower_bounds"], p["upper_bounds"] = [round(0.9 * x, 4) for x in p["values"]], [round(1.1 * x + 0.01, 4) for x in p["values"]]
            if r.p(0.6):
                p["variable_days_of_year_range"] = r.randint(1, 20)
        elif t == "annualharmonicseries":
            p.update(mean_lower_bounds=0.0, mean_upper_bounds=round(2 * p["mean"] + 1, 3), amplitude_lower_bounds=0.0, amplitude_upper_bounds=round(p["mean"] / 4 + 0.1, 3))
        elif t == "controlcurve":
            p["variable_indices"] = sorted(r.some(list(range(len(p["values"]))), 1, 3)) or [0]
            vs = [p["values"][j] for j in p["variable_indices"]]
            p["lower_bounds"], p["upper_bounds"] = [round(min(0.4 * v, 1.6 * v) - 0.01, 4) for v in vs], [round(max(0.4 * v, 1.6 * v) + 0.01, 4) for v in vs]
        elif t in ("binarystep", "rectifier", "logistic"):
            p["lower_bounds"], p["upper_bounds"] = -2.0, 1.5
    return pick


def bounds(p):
    """-> (lower, upper) of the reals, (lower, upper) of the integers, as declared."""
    t = p["type"]
    if t in ("constant", "offset", "binarystep", "rectifier", "logistic"):
        return ([p["lower_bounds"]], [p["upper_bounds"]]), ([], [])
    if t in ("monthlyprofile", "rbfprofile"):
        n = len(p["values"])
        lo = p["lower_bounds"] if isinstance(p["lower_bounds"], list) else [p["lower_bounds"]] * n
        k = p.get("variable_days_of_year_range", 0)
        d = p["days_of_year"][1:] if k else []
        return (lo, p["upper_bounds"]), ([x - k for x in d], [x + k for x in d])
    if t == "annualharmonicseries":
        n = len(p["amplitudes"])
        return ([p["mean_lower_bounds"]] + [p["amplitude_lower_bounds"]] * n + [0.0] * n, [p["mean_upper_bounds"]] + [p["amplitude_upper_bounds"]] * n + [2 * math.pi] * n), ([], [])
    return (p["lower_bounds"], p["upper_bounds"]), ([], [])


def draw(r, p):
    (lo, hi), (ilo, ihi) = bounds(p)
    return {"d": [round(a + (b - a) * r.random(), 5) for a, b in zip(lo, hi)], "i": [round(a + (b - a) * r.random(), 3) for a, b in zip(ilo, ihi)]}


def write(doc, cand):
    """The document with a candidate's values in place of its own."""
    d = copy.deepcopy(doc)
    for n, v in cand.items():
        p = d["parameters"][n]
        t = p["type"]
        x = v["d"]
        if t == "offset":
            p["offset"] = x[0]
        elif t in ("constant", "binarystep", "rectifier", "logistic"):
            p["value"] = x[0]
        elif t in ("monthlyprofile", "rbfprofile"):
            p["values"] = list(x)
            if v["i"]:
                p["days_of_year"] = [1] + [int(np.round(y)) for y in v["i"]]
                p.pop("variable_days_of_year_range")
        elif t == "annualharmonicseries":
            k = len(p["amplitudes"])
            p["mean"], p["amplitudes"], p["phases"] = x[0], x[1:k + 1], x[k + 1:]
        else:
            for j, y in zip(p["variable_indices"], x):
                p["values"][j] = y
    for p in d["parameters"].values():      # the fresh model has no variables
        p.pop("is_variable", None)
    return d


def aims(r, doc):
    R = doc["recorders"]
    names = [n for n, p in R.items() if not p["type"].startswith("sim")]
    r.shuffle(names)
    if not names:
        R["rx"] = {"type": "totalflownode", "node": doc["nodes"][0]["name"]}
        names = ["rx"]
    for j, n in enumerate(names[:r.randint(1, 3)]):
        R[n]["is_objective"] = r.pick(["min", "max", "minimise", "maximise", "minimize", "maximize"])
    for n in r.some(names, 0, 3):
        k = r.pick(["lower", "upper", "both", "equal"])
        b = r.pick([0.0, 1.0, r.num(-5, 60)])
        if k in ("lower", "both", "equal"):
            R[n]["constraint_lower_bounds"] = b
        if k in ("upper", "equal"):
            R[n]["constraint_upper_bounds"] = b
        if k == "both":
            R[n]["constraint_upper_bounds"] = b + r.num(0.5, 20)


# -- the oracle -------------------------------------------------------------------------
def reference(case, doc, folder, cand, solver=None, args=None):
    """Values of all recorders in a model loaded with the candidate's values -> dict or the exception."""
    from pywr.core import Model

    d = write(doc, cand)
    try:
        m = Model.load_from_dict(d, path=folder, solver=solver or case["solver"], **({"solver_args": args} if args else {}))
        m.run()
        return {r.name: float(r.aggregated_value()) for r in m.recorders if r.is_objective or r.is_constraint}
    except Exception as e:
        return e


def expected(case, doc, order, vals):
    """What the wrapper has to return for these recorder values."""
    R = doc["recorders"]
    objs, cons = order
    out = []
    for n in objs:
        out.append(vals[n] if R[n]["is_objective"][:3] == "min" else -vals[n])
    eq, ineq, plat = [], [], []
    for n in cons:
        lo, hi = R[n].get("constraint_lower_bounds"), R[n].get("constraint_upper_bounds")
        x = vals[n]
        if lo is not None and lo == hi:
            eq.append(x - lo)
            plat.append((x, "eq", lo))
            continue
        if lo is not None:
            ineq.append(lo - x)
            plat.append((x, "ge", lo))
        if hi is not None:
            ineq.append(x - hi)
            plat.append((x, "le", hi))
    return out, eq, ineq, plat


def near(a, b, tol=TOL):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return a == b or abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def nearall(a, b, tol=TOL):
    return len(a) == len(b) and all(near(float(x), float(y), tol) for x, y in zip(a, b))


# -- running a case ---------------------------------------------------------------------
class Shim:
    """What the fault installer wants to see of a world."""

    def __init__(self, model):
        self.model = model


class Worker:
    """One process of the optimiser: its own cache of models, its own copy of the wrapper."""

    def __init__(self, blob):
        self.cache, self.w = {}, pickle.loads(blob)


def run(case, ctx):
    warnings.simplefilter("ignore")
    import pywr.optimisation as opt
    from pywr.optimisation.platypus import PlatypusWrapper
    from pywr.optimisation.pygmo import PygmoWrapper

    doc = strip(case["doc"])
    folder = os.path.abspath(data.write(case["doc"].get("_data") or {}))
    Plan.clear()
    kind = case["kind"]
    kw = {"solver": case["solver"]}
    if case["source"] == "file":
        src = os.path.join(folder, "model.json")
        with open(src, "w") as f:
            json.dump(doc, f)
    else:
        src = json.loads(json.dumps(doc))
        kw["path"] = folder
    klass = PlatypusWrapper if kind == "platypus" else PygmoWrapper
    opt.MODEL_CACHE = {}
    try:
        first = klass(src, model_kwargs=kw)
        first.model
    except Exception as e:
        r = reference(case, doc, folder, {})
        if not isinstance(r, Exception):
            raise
        ctx.probe("base-fails")
        ctx.log("base", type(e).__name__)
        return
    twin = None
    if case["twin"]:        # another problem in the same processes
        other = copy.deepcopy(doc)
        for p in other["parameters"].values():
            if p["type"] == "constant":
                p["value"] *= 0.9
        twin = (klass(other, model_kwargs={"solver": case["solver"], "path": folder}), other)
    blob = pickle.dumps(first)
    workers = [Worker(blob) for _ in range(case["workers"])]
    workers[0].cache, workers[0].w = opt.MODEL_CACHE, first
    ref = {}
    # what the problem says about itself
    P, R = doc["parameters"], doc["recorders"]
    vnames = [v.name for v in first.model_variables]
    ctx.ok(sorted(vnames) == sorted(case["vars"]), "variables", lambda: f"variables {vnames}, declared {case['vars']}")
    objs = [r.name for r in first.model_objectives]
    ctx.ok(sorted(objs) == sorted(n for n, p in R.items() if "is_objective" in p), "objectives", lambda: f"objectives {objs}")
    cons = [r.name for r in first.model_constraints]
    ctx.ok(sorted(cons) == sorted(n for n, p in R.items() if "constraint_lower_bounds" in p or "constraint_upper_bounds" in p), "constraints", lambda: f"constraints {cons}")
    if ctx.violations:
        return
    lo, hi = [], []
    for n in vnames:
        (a, b), (c, d) = bounds(P[n])
        lo += list(a) + list(c)
        hi += list(b) + list(d)
    _, eq, ineq, plat = expected(case, doc, (objs, cons), {n: 0.0 for n in R})
    for n in vnames:
        ctx.state(kind, "variable", P[n]["type"], bool(bounds(P[n])[1][0]))
    for _, k, _b in plat:
        ctx.state(kind, "constraint", k)
    if kind == "pygmo":
        a, b = first.get_bounds()
        ctx.ok(nearall(a, lo, 1e-12) and nearall(b, hi, 1e-12), "bounds", lambda: f"bounds {list(a)} {list(b)}, declared {lo} {hi}")
        ctx.ok((first.get_nobj(), first.get_nec(), first.get_nic()) == (len(objs), len(eq), len(ineq)), "sizes", lambda: f"{first.get_nobj()} objectives, {first.get_nec()} + {first.get_nic()} constraints; declared {len(objs)}, {len(eq)} + {len(ineq)}")
    else:
        ty = list(first.problem.types)
        ctx.ok(nearall([t.min_value for t in ty], lo, 1e-12) and nearall([t.max_value for t in ty], hi, 1e-12), "bounds", lambda: f"bounds {ty}, declared {lo} {hi}")
        ctx.ok((first.problem.nobjs, first.problem.nconstrs) == (len(objs), len(plat)), "sizes", lambda: f"{first.problem.nobjs} objectives, {first.problem.nconstrs} constraints")
    done = 0
    for op in case["ops"]:
        w = workers[op["w"]]
        opt.MODEL_CACHE = w.cache
        cand = case["cands"][op["c"]]
        k = op["op"]
        ctx.state(kind, k, op.get("what"), (op.get("fault") or {}).get("phase"), op.get("how"))
        if k == "crash":        # the process dies; another takes its place
            workers[op["w"]] = Worker(blob)
            ctx.fault("worker-crash")
        elif k == "clear":
            opt.clear_global_model_cache()
            w.cache = opt.MODEL_CACHE
        elif k == "user":
            user(w.w.model, op, case, ctx)
        elif k == "generate":
            if kind == "platypus":
                generate(w, case, doc, vnames, lo, hi, op, ctx)
        elif k == "extreme":    # a candidate without a solution, perhaps
            try:
                evaluate(w, kind, vector(vnames, {n: {"d": [b * 1e3 if P[n]["type"] == "constant" else b for b in bounds(P[n])[0][j % 2]], "i": list(bounds(P[n])[1][0])} for j, n in enumerate(vnames)}), "direct", ctx)
            except Exception as e:
                ctx.fault("failed-evaluation")
                ctx.log("extreme", type(e).__name__)
        else:
            x = vector(vnames, cand)
            f = op.get("fault")
            if f:
                m = w.w.model
                if not isinstance(m.solver, SolverProxy):
                    m.solver = SolverProxy(m.solver, "__solver")
                arm(Shim(m), [f])
            try:
                got = evaluate(w, kind, x, op["how"], ctx)
                e = None
            except BaseException as err:
                got, e = None, err
            fired = disarm() if f else []
            if twin and done == 1:
                again(twin, case, folder, vnames, kind, cand, (objs, cons), ctx)
            if fired:
                ctx.fault(f"{f['phase']}:{f['exc']}")
                ctx.log("fault", type(e).__name__)
                ctx.ok(e is not None, "failure-hidden", lambda: f"the evaluation in which {f['comp']} failed ({f['phase']}) returned {got}")
                continue
            if op["c"] not in ref:
                ref[op["c"]] = reference(case, doc, folder, cand)
            r = ref[op["c"]]
            done += 1
            ctx.steps += len(timestep_starts(doc["timestepper"]))
            ctx.days += sum(d for _, d in timestep_starts(doc["timestepper"]))
            if isinstance(r, Exception) or e is not None:
                ctx.log("failed", type(e).__name__)
                if not isinstance(r, Exception) and not isinstance(e, Exception):
                    raise e
                if type(e) is not type(r) and stable(case, doc, folder, cand, r):
                    ctx.ok(False, "outcome", f"evaluation {done} of candidate {op['c']}: {e!r}; a fresh model: {r!r}")
                    return
                continue
            ctx.nontrivial = done > 1
            ctx.log(op["c"], [round(v, 7) + 0.0 for v in got[0]], [round(v, 7) + 0.0 for v in got[1]])
            names = ([o.name for o in w.w.model_objectives], [c.name for c in w.w.model_constraints])
            ctx.ok(names == (objs, cons) and [v.name for v in w.w.model_variables] == vnames, "order", lambda: f"worker {op['w']} has other objectives, constraints or variables")
            o, eq, ineq, plat = expected(case, doc, (objs, cons), r)
            wantc = [x for x, _, _ in plat] if kind == "platypus" else eq + ineq
            good = nearall(got[0], o) and nearall(got[1], wantc)
            if not good and not stable(case, doc, folder, cand, r):
                ctx.probe("several-optima")
                continue
            if not ctx.ok(nearall(got[0], o), "objective", lambda: f"evaluation {done} ({op['how']}) of candidate {op['c']}: objectives {got[0]}; a fresh model: {o} ({objs})"):
                return
            if not ctx.ok(nearall(got[1], wantc), "constraint", lambda: f"evaluation {done} ({op['how']}) of candidate {op['c']}: constraints {got[1]}; a fresh model: {wantc} ({cons})"):
                return
            if got[2] is not None:
                fe = sum(0 if near(x, b) else abs(x - b) for x, t, b in plat if t == "eq") + sum(max(0, b - x) for x, t, b in plat if t == "ge") + sum(max(0, x - b) for x, t, b in plat if t == "le")
                margin = min([abs(x - b) for x, _, b in plat] or [1.0])
                if margin > 1e-6 and not any(math.isnan(x) for x, _, _ in plat):
                    ctx.ok(got[2] == (fe == 0), "feasible", lambda: f"candidate {op['c']}: feasible={got[2]}; constraints {plat}")


def stable(case, doc, folder, cand, r):
    """Whether every solver gives what the fresh model gave (if not, several solutions are right)."""
    for solver, args in (("glpk", None), ("glpk", {"use_presolve": True}), ("glpk-edge", None), ("lpsolve", None)):
        if solver in solvers_for(doc):
            o = reference(case, doc, folder, cand, solver, args)
            if isinstance(r, Exception) != isinstance(o, Exception):
                return False
            if not isinstance(r, Exception) and not all(near(o[n], r[n]) for n in r):
                return False
    return True


def vector(names, cand):
    out = []
    for n in names:
        out += list(cand[n]["d"]) + list(cand[n]["i"])
    return out


def evaluate(w, kind, x, how, ctx):
    """-> (objectives, constraints, feasible or None)"""
    if kind == "pygmo":
        v = np.array(x)
        n = w.w.get_nobj()
        if how == "problem":
            import pygmo

            f = list(pygmo.problem(w.w).fitness(v))
        else:
            f = list(w.w.fitness(v))
        ctx.ok(list(v) == list(x), "candidate-altered", "the candidate passed in was changed")
        return f[:n], f[n:], None
    import platypus

    p = w.w.problem
    if how == "problem":
        s = platypus.Solution(p)
        s.variables[:] = list(x)
        p(s)
        return list(s.objectives), list(s.constraints), bool(s.feasible)
    v = list(x)
    got = w.w.evaluate(v)
    ctx.ok(v == list(x), "candidate-altered", "the candidate passed in was changed")
    if p.nconstrs:
        return list(got[0]), list(got[1]), None
    return list(got), [], None


def again(twin, case, folder, vnames, kind, cand, order, ctx):
    """The other problem: the same names, other numbers."""
    import pywr.optimisation as opt

    w = type("W", (), {})()
    w.w = twin[0]
    try:
        got = evaluate(w, kind, vector([v.name for v in w.w.model_variables], cand), "direct", ctx)
    except Exception as e:
        got = e
    r = reference(case, twin[1], folder, cand)
    if isinstance(got, Exception) or isinstance(r, Exception):
        return
    o, eq, ineq, plat = expected(case, twin[1], order, r)
    if not nearall(got[0], o) and stable(case, twin[1], folder, cand, r):
        ctx.ok(False, "objective", f"another problem in the same process: objectives {got[0]}; a fresh model: {o}")


def user(m, op, case, ctx):
    """Someone uses the optimiser's model between two evaluations."""
    k = op["what"]
    try:
        if k == "run":
            m.run()
        elif k == "steps":
            m.reset()
            for _ in range(op["k"]):
                m.step()
        elif k == "setup":
            m.setup()
        elif k == "reset":
            m.reset()
        else:
            for v in m.variables:
                c = case["cands"][op["c"]].get(v.name)
                if c:
                    v.set_double_variables(np.array(c["d"]))
            for _ in range(op["k"]):
                m.step()
    except Exception as e:
        ctx.log("user", k, type(e).__name__)


def generate(w, case, doc, vnames, lo, hi, op, ctx):
    """Candidates injected into the population: the model as it is, then the given ones, then random ones."""
    from pywr.optimisation.platypus import PywrRandomGenerator
    import random

    random.seed(case["seed"])
    given = [case["cands"][op["c"]]]
    sols = [{n: {"doubles": [v * 3 for v in c[n]["d"]], "integers": [int(v) + 50 for v in c[n]["i"]]} for n in vnames} for c in given]
    cur = [list(map(float, v.get_double_variables())) if v.double_size else [] for v in w.w.model_variables]
    gen_ = PywrRandomGenerator(wrapper=w.w, use_current=True, solutions=sols)
    p = w.w.problem
    a = gen_.generate(p)
    want = []
    for v, c in zip(w.w.model_variables, cur):
        want += c + (list(map(int, v.get_integer_variables())) if v.integer_size else [])
    ctx.ok(nearall(list(a.variables), want, 1e-12), "generated", lambda: f"current values {want}, generated {list(a.variables)}")
    b = gen_.generate(p)
    want = []
    for n, c in zip(vnames, [sols[0][n] for n in vnames]):
        (l, u), (il, iu) = bounds(doc["parameters"][n])
        want += [min(max(x, y), z) for x, y, z in zip(c["doubles"], l, u)] + [min(max(x, y), z) for x, y, z in zip(c["integers"], il, iu)]
    ctx.ok(nearall(list(b.variables), want, 1e-12), "generated", lambda: f"given values within the bounds {want}, generated {list(b.variables)}")
    c = gen_.generate(p)
    ctx.ok(all(x <= y <= z for x, y, z in zip(lo, c.variables, hi)), "generated", lambda: f"random values outside the bounds: {list(c.variables)}")


def shrink(case):
    n = len(case["ops"])
    for j in range(n - 1):
        yield dict(case, ops=case["ops"][:j] + case["ops"][j + 1:])
    if case["workers"] > 1:
        yield dict(case, workers=1, ops=[dict(o, w=0) for o in case["ops"]])
    if case["twin"]:
        yield dict(case, twin=False)
    if case["kind"] != "platypus":
        yield dict(case, kind="platypus")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    for j, o in enumerate(case["ops"]):
        if o.get("how") == "problem":
            yield dict(case, ops=case["ops"][:j] + [dict(o, how="direct")] + case["ops"][j + 1:])
    for v in case["vars"]:
        if len(case["vars"]) > 1:
            c = copy.deepcopy(case)
            c["vars"].remove(v)
            for k in ("is_variable", "lower_bounds", "upper_bounds", "variable_indices", "variable_days_of_year_range", "mean_lower_bounds", "mean_upper_bounds", "amplitude_lower_bounds", "amplitude_upper_bounds"):
                if c["doc"]["parameters"][v]["type"] != "rbfprofile" or k != "lower_bounds":
                    c["doc"]["parameters"][v].pop(k, None)
            for d in c["cands"]:
                d.pop(v)
            yield c
    for n, p in case["doc"]["recorders"].items():
        if any(k.startswith("constraint_") for k in p):
            c = copy.deepcopy(case)
            for k in ("constraint_lower_bounds", "constraint_upper_bounds"):
                c["doc"]["recorders"][n].pop(k, None)
            yield c
    keep = [n for n, p in case["doc"]["recorders"].items() if "is_objective" in p]
    for d in shrink_doc(case["doc"], keep):
        if all(v in d["parameters"] and d["parameters"][v].get("is_variable") for v in case["vars"]) and any("is_objective" in p for p in d["recorders"].values()):
            yield dict(copy.deepcopy(case), doc=d)
