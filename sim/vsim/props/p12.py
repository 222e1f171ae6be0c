"""P12: every component is evaluated once per step, after what it depends on; cycles are refused."""
import copy

import numpy as np

from ..comps import Plan
from ..gen import G, refs, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, drive, gen_history, shrink_ops
from ..oracles import Net
from ..paramref import ParamRef, check_params
from ..web import weave
from ..world import World, note, trace_digest

N = {"quick": 1400, "thorough": 25000}
RULE = "a distinct event log of a run in which the call order of every probe component was compared with its dependencies"
STATE_MEASURE = "distinct (mode, history operation, depth of the dependency graph, edit through the API, number of scenarios) tuples"

STEPS = ("before", "value", "after")


def gen(r, i, tier):
    g = G(r, steps=(1, 6), faultparams=r.randint(1, 3), recs=(1, 4), reaches=(1, 2), dims=(0, 2), stateful=0.7, comb=0.1)
    doc = g.build()
    weave(r, g, doc, r.randint(5, 16), feedback=0.7, fault=0.7)
    for k in range(r.randint(0, 2)):
        g.rec("simfault", param=r.pick(list(g.params)))
    doc["recorders"] = g.recs
    case = {"solver": r.pick(solvers_for(doc)), "ops": gen_history(r, doc, g, 0, 1) if r.p(0.35) else [], "edits": [], "late": r.p(0.3), "cycle": None,
            "drive": r.pick(["run", "run", "steps"])}
    for _ in range(r.randint(0, 3) if r.p(0.5) else 0):
        e = gen_edit(r, doc, case["edits"])
        if e:
            case["edits"].append(e)
    case["doc"] = doc
    if r.p(0.2):
        case["cycle"] = gen_cycle(r, doc)
    shuffle_doc(r, doc)
    return case


def shuffle_doc(r, doc):
    for sec in ("parameters", "recorders"):
        items = list(doc[sec].items())
        m = r.pick(["keep", "reverse", "shuffle"])
        if m == "reverse":
            items.reverse()
        elif m == "shuffle":
            r.shuffle(items)
        doc[sec] = dict(items)


def graph(doc, extra=()):
    names = set(doc["parameters"]) | set(doc["recorders"])
    out = {}
    for sec in ("parameters", "recorders"):
        for k, d in doc[sec].items():
            s = set()
            refs({a: b for a, b in d.items() if a not in ("node", "nodes", "storage_node", "scenario", "name", "type", "comment")}, names, s)
            s.discard(k)
            out[k] = s
    for a, b in extra:
        if a in out and b in out:
            out[a].add(b)
    return out


def reach(gr, a):
    seen, todo = set(), list(gr.get(a, ()))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(gr.get(x, ()))
    return seen


# -- edits through the Python interface --------------------------------------------------

def apply_doc(doc, edits):
    """The document the edits amount to, with the extra dependency edges."""
    d = copy.deepcopy(doc)
    extra = []
    for e in edits:
        if e["edit"] == "edge":
            if all(x in d["parameters"] or x in d["recorders"] for x in (e["a"], e["b"])):
                extra.append((e["a"], e["b"]))
            continue
        p = d["parameters"].get(e["p"])
        if p is None or any(isinstance(v, str) and v not in d["parameters"] for v in (e["v"] if isinstance(e["v"], list) else [e["v"]])):
            continue
        if e["edit"] == "set":
            p[e["key"]] = e["v"]
        elif e["edit"] == "add":
            p["parameters"] = p["parameters"] + [e["v"]]
        elif e["edit"] == "remove" and p["parameters"].count(e["v"]) == 1 and len(p["parameters"]) > 1:
            p["parameters"] = [x for x in p["parameters"] if x != e["v"]]
    return d, extra


def gen_edit(r, doc, done):
    d, extra = apply_doc(doc, done)
    gr = graph(d, extra)
    P = d["parameters"]
    names = list(P) + list(d["recorders"])
    kind = r.pick(["edge", "edge", "set", "add", "remove"])
    used = set()  # what the network rests on stays as it is
    for nd in d["nodes"]:
        s = set()
        refs(nd, set(P), s)
        for x in s:
            used |= {x} | reach(gr, x)
    if kind == "edge":
        a, b = r.pick(names), r.pick(names)
        if a == b or a in reach(gr, b) or (P.get(a) or d["recorders"][a])["type"] == "constant":
            return None
        return {"edit": "edge", "a": a, "b": b}
    if kind == "set":
        cands = [(p, k) for p, x in P.items() if p not in used for k in ("threshold", "control_curves", "numerator", "denominator")
                 if k in x and not (k == "threshold" and x["type"] not in ("nodethreshold", "storagethreshold", "parameterthreshold", "recorderthreshold"))
                 and not (k == "control_curves" and x["type"] not in ("controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated", "controlcurveindex"))]
        if not cands:
            return None
        p, k = r.pick(cands)
        if not movable(P[p], k) or any(e.get("p") == p for e in done):
            return None
        if k == "threshold":
            v = r.num(1, 9) if r.p(0.3) else pick_free(r, gr, P, p)
        elif k == "control_curves":
            v = [r.num(0.1, 0.95, 4) for _ in range(len(P[p][k]))]
            v.sort(reverse=True)
            j = r.randrange(len(v))
            w = [x for x, y in P.items() if y["type"] in ("min",) and y.get("threshold", 9) <= 0.98]
            w = [x for x in w if x != p and p not in reach(gr, x)]
            if w:
                v[j] = r.pick(w)
        else:
            v = pick_free(r, gr, P, p)
            if k == "denominator":
                w = [x for x in P if P[x]["type"] == "max" and P[x].get("threshold", 0) >= 0.5 and x != p and p not in reach(gr, x)]
                v = r.pick(w) if w else None
        if v is None:
            return None
        return {"edit": "set", "p": p, "key": k, "v": v}
    cands = [p for p, x in P.items() if x["type"] == "aggregated" and p not in used and not any(e.get("p") == p for e in done)]
    if not cands:
        return None
    p = r.pick(cands)
    if kind == "add":
        v = pick_free(r, gr, P, p)
        return {"edit": "add", "p": p, "v": v} if v and v not in P[p]["parameters"] else None
    if len(P[p]["parameters"]) > 1:
        v = r.pick(P[p]["parameters"])
        if P[p]["parameters"].count(v) == 1:
            return {"edit": "remove", "p": p, "v": v}
    return None


def movable(d, key):
    """Whether none of the operands under key is also an operand under another name (or twice)."""
    ops = d[key] if isinstance(d[key], list) else [d[key]]
    flat = []
    for k, v in d.items():
        if k not in ("type", "node", "storage_node", "scenario"):
            flat += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, str)]
    return all(not isinstance(x, str) or flat.count(x) == 1 for x in ops)


def pick_free(r, gr, P, p):
    c = [x for x in P if x != p and p not in reach(gr, x) and P[x]["type"] not in ("deficit",) and "index" not in P[x]["type"] and "threshold" not in P[x]["type"] and x not in gr[p]]
    return r.pick(c) if c else None


def apply_api(model, doc, edits):
    d = copy.deepcopy(doc)
    for e in edits:
        if e["edit"] == "edge":
            pick = {}
            for x in (e["a"], e["b"]):
                pick[x] = model.parameters[x] if x in d["parameters"] else (model.recorders[x] if x in d["recorders"] else None)
            if None not in pick.values():
                if e.get("a") < e.get("b"):
                    pick[e["a"]].children.add(pick[e["b"]])
                else:
                    pick[e["b"]].parents.add(pick[e["a"]])
            continue
        if e["p"] not in d["parameters"]:
            continue
        vs = e["v"] if isinstance(e["v"], list) else [e["v"]]
        if any(isinstance(v, str) and v not in d["parameters"] for v in vs):
            continue
        o = [model.parameters[v] if isinstance(v, str) else v for v in vs]
        p = model.parameters[e["p"]]
        if e["edit"] == "set":
            setattr(p, e["key"], o if isinstance(e["v"], list) else o[0])
        elif e["edit"] == "add":
            p.add(o[0])
        elif e["edit"] == "remove":
            cur = d["parameters"][e["p"]]["parameters"]
            if cur.count(e["v"]) == 1 and len(cur) > 1:
                p.remove(o[0])


def gen_cycle(r, doc):
    """A dependency added backwards along an existing chain."""
    gr = graph(doc)
    cands = [(a, b) for a in doc["parameters"] for b in reach(gr, a) if b in doc["parameters"]]
    k = r.pick(["api", "api", "late", "json", "json", "recorder", "self"])
    sim = [p for p, d in doc["parameters"].items() if d["type"] == "simfault"]
    if k == "self":
        return {"how": r.pick(["api", "late"]), "a": (x := r.pick(list(doc["parameters"]))), "b": x}
    if k in ("api", "late"):
        if not cands:
            return None
        a, b = r.pick(cands)
        return {"how": k, "a": a, "b": b}
    if k == "json":
        c = [(a, b) for a, b in cands if doc["parameters"][b]["type"] in ("simfault", "aggregated", "negative", "max", "min", "offset")]
        if r.p(0.2) and sim:
            x = r.pick(sim)
            return {"how": "json", "a": x, "b": x}
        if not c:
            return None
        a, b = r.pick(c)
        return {"how": "json", "a": a, "b": b}
    th = [p for p, d in doc["parameters"].items() if d["type"] == "recorderthreshold"]
    if not th:
        return None
    return {"how": "recorder", "a": r.pick(th)}


def cyclic_doc(doc, c):
    d = copy.deepcopy(doc)
    if c["how"] == "recorder":
        rc = d["parameters"][c["a"]]["recorder"]
        d["recorders"][rc] = {"type": "numpyarrayparameter", "parameter": c["a"]}
        return d
    b = d["parameters"][c["b"]]
    if b["type"] == "simfault":
        b["kids"] = list(b.get("kids", [])) + [c["a"]]
    elif b["type"] == "aggregated":
        b["parameters"] = list(b["parameters"]) + [c["a"]]
    else:
        b["parameter"] = c["a"]
    return d


# -- running --------------------------------------------------------------------------

def watch_nodes(model):
    seen = set()
    for nd in model.graph.nodes():
        for ph in ("before", "after"):
            orig = getattr(nd, ph)

            def wrap(*a, _o=orig, _n=nd.fully_qualified_name, _p=ph, **k):
                Plan.log.append(("node." + _p, _n, model.timestepper.current.index, None)) if Plan.log is not None else None
                return _o(*a, **k)

            try:
                setattr(nd, ph, wrap)
            except AttributeError:
                continue  # plain compiled nodes (the two sides of a storage) cannot be watched
            seen.add(nd.fully_qualified_name)
    return seen


def run(case, ctx):
    doc = case["doc"]
    n = len(timestep_starts(doc["timestepper"]))
    Plan.clear()
    c = case.get("cycle")
    if c and c["how"] in ("json", "recorder"):
        Plan.log = []
        try:
            w = World(cyclic_doc(doc, c), solver=case["solver"])
            e = w.run()
        except Exception as x:
            e = x
        ctx.log("cycle", c["how"], e is not None)
        ctx.ok(e is not None, "cycle-accepted", lambda: f"{c} was accepted")
        ctx.ok(not [x for x in Plan.log if x[0] in STEPS], "cycle-ran", lambda: f"{c}: components were called: {Plan.log[:3]}")
        ctx.probe("cycle:" + c["how"])
        ctx.state("cycle", c["how"])
        ctx.nontrivial = True
        Plan.log = None
    w = World(doc, solver=case["solver"], proxy=True)
    nodes = watch_nodes(w.model)
    final, extra = doc, []
    if not case["late"]:
        apply_api(w.model, doc, case["edits"])
        final, extra = apply_doc(doc, case["edits"])
    if c and c["how"] == "api":
        refuse(w, c, final, extra, ctx)
    for op in case["ops"]:
        apply_op(w, op, ctx, n)
    if case["late"]:
        apply_api(w.model, doc, case["edits"])
        final, extra = apply_doc(doc, case["edits"])
        if case["edits"]:
            e = w.setup()
            if e is not None:
                ctx.bad("setup-failed:" + type(e).__name__, repr(e))
    if c and c["how"] == "late":
        refuse(w, c, final, extra, ctx)
    Plan.log = []
    e = w.run() if case["drive"] == "run" else (w.ready() or drive(w, n))
    log, Plan.log = Plan.log, None
    if e is not None:
        ctx.bad("run-failed:" + type(e).__name__, repr(e))
    note(ctx, w.trace)
    trace_digest(ctx, w.trace)
    for x in log:
        ctx.log(*x)
    gr = graph(final, extra)
    check_log(w, log, gr, final, n, ctx, nodes)
    check_params(ParamRef(final, Net(final), w.trace), ctx)
    depth = max((len(reach(gr, a)) for a in gr), default=0)
    ctx.state("order", [o["op"] for o in case["ops"]][-1:], min(depth, 20) // 3, [x["edit"] for x in case["edits"]][-1:], case["late"], len(w.model.scenarios.combinations))


def refuse(w, c, doc, extra, ctx):
    """A circular dependency made through the API must be refused before any component is called."""
    gr = graph(doc, extra)
    if not (c["a"] in gr and c["b"] in gr and (c["a"] == c["b"] or c["b"] in reach(gr, c["a"]))) or c["a"] in gr[c["b"]]:
        return
    a, b = [w.model.parameters[x] for x in (c["a"], c["b"])]
    b.children.add(a)
    Plan.log = []
    e = w.setup() if c["how"] == "late" else w.run()
    ctx.ok(e is not None and isinstance(e, Exception), "cycle-accepted", lambda: f"{c} was accepted")
    ctx.ok(not [x for x in Plan.log if x[0] in STEPS], "cycle-ran", lambda: f"{c}: components were called: {Plan.log[:3]}")
    Plan.log = None
    ctx.probe("cycle:" + c["how"])
    ctx.log("cycle", c["how"], e is not None)
    ctx.state("cycle", c["how"], c["a"] == c["b"])
    b.children.remove(a)
    e = w.setup()
    if e is not None:
        ctx.bad("setup-failed-after-cycle:" + type(e).__name__, repr(e))


def check_log(w, log, gr, doc, n, ctx, nodes):
    m = w.model
    nc = len(m.scenarios.combinations)
    sims = [k for sec in ("parameters", "recorders") for k, d in doc[sec].items() if d["type"] == "simfault"]
    series = [k for k, d in doc["parameters"].items() if d["type"] == "simseries"]
    watched = set(sims) | set(series)
    need = {a: [b for b in reach(gr, a) if b in watched] for a in sims}
    steps = {}
    for pos, (ph, comp, tsi, si) in enumerate(log):
        if tsi is not None and not comp.startswith("node:"):
            steps.setdefault(tsi, []).append((pos, ph, comp, si))
    if not ctx.ok(sorted(steps) == list(range(n)), "steps", lambda: f"steps seen {sorted(steps)} of {n}"):
        return
    last_end = -1
    for t in range(n):
        at = {}
        for pos, ph, comp, si in steps[t]:
            at.setdefault((ph, comp), []).append((pos, si))
        first = min(p for p, *_ in steps[t])
        if not ctx.ok(first > last_end, "interleaved", lambda: f"step {t} began before the last one ended"):
            return
        last_end = max(p for p, *_ in steps[t])
        for comp in sims:
            for ph in ("before", "after"):
                k = len(at.get((ph, comp), ()))
                if not ctx.ok(k == 1, f"calls:{ph}", lambda: f"step {t}: {ph} of {comp} called {k} times"):
                    return
        for comp in nodes:
            for ph in ("node.before", "node.after"):
                k = len(at.get((ph, comp), ()))
                if not ctx.ok(k == 1, f"calls:{ph}", lambda: f"step {t}: {ph} of {comp} called {k} times"):
                    return
        for comp in watched:
            if comp in doc["parameters"]:
                ids = sorted(si for _, si in at.get(("value", comp), ()))
                if not ctx.ok(ids == list(range(nc)), "calls:value", lambda: f"step {t}: {comp} evaluated for scenarios {ids} of {nc}"):
                    return
        solve0 = at[("before", "__solver")][0][0]
        solve1 = at[("after", "__solver")][0][0]
        if not ctx.ok(len(at[("before", "__solver")]) == 1, "calls:solve", lambda: f"step {t}: solved {len(at[('before', '__solver')])} times"):
            return
        for (ph, comp), ev in at.items():
            lo, hi = min(p for p, _ in ev), max(p for p, _ in ev)
            if comp == "__solver":
                continue
            ok = hi < solve0 if ph in ("before", "value", "node.before") else lo > solve1
            if not ctx.ok(ok, f"phase:{ph}", lambda: f"step {t}: {ph} of {comp} on the wrong side of the solution"):
                return
        starts = [p for (ph, comp), ev in at.items() if ph in ("before", "node.before") and comp != "__solver" for p, _ in ev]
        vals = [p for (ph, comp), ev in at.items() if ph == "value" for p, _ in ev]
        if vals and not ctx.ok(max(starts) < min(vals), "phase:start-of-step", lambda: f"step {t}: a value was computed before every component had its start-of-step call"):
            return
        nend = [p for (ph, comp), ev in at.items() if ph == "node.after" for p, _ in ev]
        cend = [p for (ph, comp), ev in at.items() if ph == "after" and comp != "__solver" for p, _ in ev]
        if cend and not ctx.ok(max(nend) < min(cend), "phase:end-of-step", lambda: f"step {t}: a component's end-of-step call came before a node's"):
            return
        for a, bs in need.items():
            for b in bs:
                for ph in STEPS:
                    x, y = at.get((ph, a)), at.get((ph, b))
                    if x and y and not ctx.ok(max(p for p, _ in y) < min(p for p, _ in x), f"order:{ph}", lambda: f"step {t}: {ph} of {a} came before that of {b}, which it depends on"):
                        return


def shrink(case):
    yield from shrink_ops(case)
    if case.get("cycle"):
        yield dict(case, cycle=None)
    for i in range(len(case["edits"])):
        yield dict(case, edits=case["edits"][:i] + case["edits"][i + 1:])
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    if case["drive"] != "run":
        yield dict(case, drive="run")
    keep = [x for e in case["edits"] for k in ("a", "b", "p", "v") for x in (e.get(k) if isinstance(e.get(k), list) else [e.get(k)]) if isinstance(x, str)]
    if case.get("cycle"):
        keep += [case["cycle"].get("a"), case["cycle"].get("b")]
    yield from shrink_case(case, keep=set(x for x in keep if x))
