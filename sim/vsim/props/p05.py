"""P05: steps = run, and the steps of several models may be interleaved in any way."""
import copy
import gc

from ..comps import Plan
from ..gen import G, shrink_doc, solvers_for, timestep_starts
from ..history import arm, disarm, gen_fault, install_node_faults
from ..world import World, diff_results, diff_snap, diff_trace, note, results, trace_digest

N = {"quick": 700, "thorough": 12000}
RULE = "a distinct interleaving (event log) of the steps of at least one model compared step by step with the same model run alone"
STATE_MEASURE = "distinct (schedule prefix of model ids, failing?, outcome) tuples"
TOL = 1e-6


def gen(r, i, tier):
    k = r.pick([1, 2, 2, 3, 3, 4])
    docs, solvers, faults, gs = [], [], [], []
    twins = k > 1 and r.p(0.35)
    for j in range(k):
        if twins and j > 0:
            docs.append(copy.deepcopy(docs[0]))
            solvers.append(solvers[0] if r.p(0.5) else r.pick(solvers_for(docs[0])))
            faults.append(None)
            gs.append(gs[0])
            continue
        g = G(r, suffix="" if twins else f"m{j}", steps=(3, 10), faultparams=1, dims=(0, 1), max_combos=3, recs=(2, 6), long=0.05, reaches=(1, 2))
        d = g.build()
        docs.append(d)
        solvers.append(r.pick(solvers_for(d)))
        gs.append(g)
        faults.append(gen_fault(r, d, g, phases=["value", "before", "after"]) if not twins and k > 1 and r.p(0.35) else None)
        if faults[-1] and faults[-1]["phase"] not in ("value", "before", "after"):
            faults[-1] = None
    # the schedule: who does what next.  Everyone gets all their steps.
    left = [gs[j].nsteps for j in range(k)]
    started = [False] * k
    sched = []
    style = r.pick(["random", "random", "roundrobin", "bursts", "blocks"])
    cur = 0
    while any(left):
        alive = [j for j in range(k) if left[j]]
        if style == "random":
            j = r.pick(alive)
        elif style == "roundrobin":
            cur = (cur + 1) % k
            j = cur if left[cur] else r.pick(alive)
        elif style == "bursts":
            if cur not in alive or r.p(0.3):
                cur = r.pick(alive)
            j = cur
        else:
            j = alive[0]
        if not started[j] and r.p(0.3):
            sched.append([j, "setup"])
        started[j] = True
        sched.append([j, "step"])
        left[j] -= 1
        x = r.random()
        if x < 0.06:   # another model of the process is run in full, loaded or dropped meanwhile
            sched.append([r.randrange(k), "other-run"])
        elif x < 0.10:
            sched.append([r.randrange(k), "load-drop"])
        elif x < 0.13:
            sched.append([r.randrange(k), "infeasible-other"])
        elif x < 0.16:
            sched.append([r.randrange(k), "broken-load"])
    return {"docs": docs, "solvers": solvers, "faults": faults, "sched": sched, "twins": twins}


def alone(doc, solver, fault, sfx):
    Plan.clear()
    w = World(doc, solver=solver, proxy=True, suffix=sfx)
    if fault:
        arm(w, [fault])
    e = w.run()
    return w, e


def run(case, ctx):
    docs, k = case["docs"], len(case["docs"])
    sf = ["" if case["twins"] else f"m{j}" for j in range(k)]
    ref = []
    for j in range(k):
        w, e = alone(docs[j], case["solvers"][j], case["faults"][j], sf[j])
        fired = disarm()
        for f in fired:
            ctx.fault(f"{f['exc']}@{f['phase']}")
        # a model that cannot run alone because of its document is another property's business
        if e is not None and not fired:
            ctx.bad("run-failed:" + type(e).__name__, repr(e))
            return
        ref.append((w.trace, e, results(w.model) if e is None else None))
    Plan.clear()
    ws = [World(docs[j], solver=case["solvers"][j], proxy=True, suffix=sf[j]) for j in range(k)]
    flt = [f for f in case["faults"] if f]
    for w in ws:
        install_node_faults(w, flt)
    Plan.arm(flt)
    dead = [None] * k
    taken = [0] * k
    prefix = []
    for j, what in case["sched"]:
        if j >= k:
            continue
        prefix.append((j, what))
        ctx.log(j, what)
        if what == "setup":
            if ws[j].model.dirty and dead[j] is None:
                e = ws[j].setup()
                if e is not None:
                    ctx.bad("setup-failed:" + type(e).__name__, repr(e))
                    return
        elif what == "step":
            if dead[j] is not None or taken[j] >= len(timestep_starts(docs[j]["timestepper"])):
                continue
            e = ws[j].step()
            if e is not None:
                dead[j] = e
                ctx.state(tuple(p[0] for p in prefix[-4:]), True, type(e).__name__)
                if not ctx.ok(ref[j][1] is not None and type(e) is type(ref[j][1]) and str(e) == str(ref[j][1]), "outcome",
                              lambda: f"model {j} fails after {taken[j]} steps with {e!r}; alone: {ref[j][1]!r}"):
                    return
                continue
            taken[j] += 1
            t = ws[j].trace
            ctx.state(tuple(p[0] for p in prefix[-4:]), False, ws[j].model.timestepper.current.index == 0)
            if not ctx.ok(len(t) == taken[j] and len(ref[j][0]) >= taken[j], "steps-taken", lambda: f"model {j}: {len(t)} observed after {taken[j]} steps; alone {len(ref[j][0])}"):
                return
            d = diff_snap(t[-1], ref[j][0][taken[j] - 1], TOL)
            if not ctx.ok(d is None, "step-differs", lambda: f"model {j} of {k} after {prefix[-6:]}: {d} (stepped / alone)"):
                return
            # other models must not have moved: what they show now is what they showed after their own last step
            for q in range(k):
                if q != j and taken[q] and dead[q] is None:
                    x = ws[q].trace[-1]
                    for nm in list(x["vol"])[:3]:
                        if not ctx.ok(bool((ws[q].model.nodes[nm].volume == x["vol"][nm]).all()) if nm in ws[q].model.nodes else True, "moved", lambda: f"{nm} of model {q} changed by a step of model {j}"):
                            return
        else:
            saved, Plan.faults = Plan.faults, []
            try:
                doc = docs[j]
                if what == "broken-load":
                    doc = copy.deepcopy(doc)
                    doc["nodes"].append({"name": "__broken", "type": "Output", "max_flow": "no such parameter"})
                    try:
                        World(doc, solver=case["solvers"][j])
                    except Exception as e:
                        ctx.fault("broken-document")
                    continue
                o = World(doc, solver=case["solvers"][j], observe=False)
                if what == "other-run":
                    o.run()
                elif what == "infeasible-other":
                    for nd in o.model.nodes:
                        if type(nd).__name__ == "Output":
                            nd.min_flow = 1e7
                    if o.run() is not None:
                        ctx.fault("infeasible")
                del o
                gc.collect()
            finally:
                Plan.faults = saved
    Plan.arm([])
    for j in range(k):
        note(ctx, ws[j].trace)
        trace_digest(ctx, ws[j].trace)
        n = len(timestep_starts(docs[j]["timestepper"]))
        if dead[j] is not None or taken[j] < n or ref[j][1] is not None:
            continue
        # no step beyond the end, and finishing now reports what the single run reported
        e = ws[j].step()
        ctx.ok(isinstance(e, StopIteration) and len(ws[j].trace) == n, "step-past-end", lambda: f"model {j}: {e!r}, {len(ws[j].trace)} steps of {n}")
        ws[j].model.finish()
        d = diff_results(results(ws[j].model), ref[j][2], TOL)
        ctx.ok(d is None, "recorder", lambda: f"model {j}: {d} (stepped / run)")
    # and a full run afterwards, in any of them, again gives what it gives alone
    for j in range(k):
        if ref[j][1] is None:
            e = ws[j].run()
            d = repr(e) if e is not None else (diff_trace(ws[j].trace, ref[j][0], TOL) or diff_results(results(ws[j].model), ref[j][2], TOL))
            ctx.ok(d is None, "rerun", lambda: f"model {j}: {d}")


def shrink(case):
    k = len(case["docs"])
    if k > 1:
        for j in range(k):
            c = copy.deepcopy(case)
            for key in ("docs", "solvers", "faults"):
                c[key].pop(j)
            if not case["twins"] and j < k - 1:
                continue
            c["sched"] = [[a - (a > j), w] for a, w in c["sched"] if a != j]
            yield c
    for m in (2, 1):
        h = max(1, len(case["sched"]) // (2 * m))
        for a in range(0, len(case["sched"]), h):
            c = copy.deepcopy(case)
            del c["sched"][a:a + h]
            yield c
    for i, (a, w) in enumerate(case["sched"]):
        if w != "step":
            c = copy.deepcopy(case)
            del c["sched"][i]
            yield c
    for j in range(k):
        if case["faults"][j]:
            c = copy.deepcopy(case)
            c["faults"][j] = None
            yield c
    for j in range(k):
        for d in shrink_doc(case["docs"][j]):
            c = copy.deepcopy(case)
            c["docs"][j] = d
            if case["twins"]:
                c["docs"] = [copy.deepcopy(d) for _ in range(k)]
                if j:
                    break
            yield c
