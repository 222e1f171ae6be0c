"""P13: what a document means does not depend on its order, its nesting, or the way it reaches the model."""
import copy
import io
import json
import os
import pathlib
import random
import shutil
import warnings

import numpy as np

from ..comps import Observer, Plan
from ..gen import G, refs, shrink_case, solvers_for, timestep_starts
from .. import data
from ..world import diff_results, note, results, same, brief, strip, trace_digest

N = {"quick": 1800, "thorough": 20000}
RULE = "a distinct event log of a document loaded and run twice: as written, and rearranged, through another channel or after failed loads"
STATE_MEASURE = "distinct (rearrangements, channel, component types rearranged, history operations, load fault) tuples"
CORPUS = "/repo/tests/models"
BROKEN = ("invalid.json", "invalid_include.json", "simple1_broken.json")
ORDER = ("nodes", "edges", "parameters", "recorders", "tables", "keys")
VIA = ("dict", "dict", "dict", "loads", "loads-bytes", "path", "pathlib", "bytes-path", "text-file", "binary-file", "stringio", "bytesio", "slow-file",
       "includes", "includes", "includes-dict", "multi-data", "multi-file", "multi-text")


# -- cases ------------------------------------------------------------------------------
def gen(r, i, tier):
    case = {"seed": r.randrange(1 << 30)}
    if r.p(0.25):
        try:
            names = sorted(f for f in os.listdir(CORPUS) if f.endswith(".json") and f not in BROKEN)
        except OSError:
            names = []
        if names:
            case["corpus"] = r.pick(names)
    if "corpus" not in case:
        g = G(r, steps=(3, 10), dims=(0, 1), max_combos=3, recs=(4, 10), data=1.5, long=0.05)
        case["doc"] = g.build()
        case["solver"] = r.pick(solvers_for(case["doc"]))
        annotate(case["doc"], r)
        if r.p(0.1):
            case["doc"]["solver"] = {"name": case["solver"], **({"use_presolve": True} if case["solver"] == "glpk" and r.p(0.5) else {})}
    else:
        case["solver"] = r.pick(["glpk", "glpk", "glpk-edge", "lpsolve"])
    case["via"] = r.pick(VIA)
    case["forms"] = [r.randrange(1 << 30) if r.p(0.75 if k in ("parameters", "recorders", "nodes") else 0.5) else None for k in ORDER]
    if case["via"] != "dict" and r.p(0.4):
        case["forms"] = [None] * len(ORDER)
    case["inline"] = {"seed": r.randrange(1 << 30), "n": r.pick([1, 2, 4, 9]), "named": r.p(0.4)} if r.p(0.5) else None
    case["hoist"] = {"seed": r.randrange(1 << 30), "n": r.pick([1, 2, 4, 9])} if r.p(0.5) else None
    case["scramble"] = r.p(0.4)
    case["ops"] = []
    for _ in range(r.weighted({0: 3, 1: 3, 2: 1.5})):
        case["ops"].append({"op": r.weighted({"truncated": 2, "unknown-type": 1.5, "missing-reference": 1.5, "circular": 1, "other": 2, "again": 2, "missing-include": 1, "read-error": 1.5, "missing-file": 0.5}), "seed": r.randrange(1 << 30)})
    return case


def annotate(doc, r):
    """What models say about themselves: has no bearing on the results, but belongs to the model."""
    for n in r.some(doc["nodes"], 1, 3):
        k = r.pick(["comment", "tags", "position"])
        n[k] = {"comment": f"about {n['name']}", "tags": {"a": 1, "b": [n["name"]]}, "position": {"schematic": [1.5, 2], "geographic": [3, 4]}}[k]
    for name in r.some(list(doc["parameters"]), 0, 3):
        k = r.pick(["comment", "tags"]) if doc["parameters"][name]["type"] != "dataframe" else "tags"     # (its comment is the table's)
        doc["parameters"][name][k] = {"comment": f"about {name}", "tags": {"c": name}}[k]
    for name in r.some([k for k, v in doc["recorders"].items() if not v["type"].startswith("sim")], 0, 3):
        k = r.pick(["comment", "tags", "is_objective", "epsilon", "constraint_upper_bounds", "constraint_lower_bounds"])
        doc["recorders"][name][k] = {"comment": f"about {name}", "tags": {"c": name}, "is_objective": r.pick(["min", "max", "minimise", "maximize"]), "epsilon": 0.25, "constraint_upper_bounds": 7.5, "constraint_lower_bounds": -2.5}[k]


def declared(model, doc, ctx):
    """What the document says about each component, read back from the model."""
    mine = {}
    for part, found in (("parameters", model.parameters), ("recorders", model.recorders)):
        for name, d in doc.get(part, {}).items():
            mine[name] = (next((c for c in found if c.name == name), None), d)
    for n in doc["nodes"]:
        mine[n["name"]] = (model.nodes[n["name"]], n)
    for name, (c, d) in mine.items():
        for k in ("comment", "tags", "position", "epsilon", "constraint_upper_bounds", "constraint_lower_bounds", "is_objective"):
            if k in d and c is not None:
                have = getattr(c, k)
                if k == "is_objective":
                    have = have[:3] if isinstance(have, str) else have
                    ctx.ok(have == d[k][:3], "declaration", lambda: f"{k} of {name}: declared {d[k]!r}, loaded {have!r}")
                elif k in ("tags", "position"):
                    ctx.ok(dict(have or {}) == d[k], "declaration", lambda: f"{k} of {name}: declared {d[k]!r}, loaded {have!r}")
                else:
                    ctx.ok(have == d[k], "declaration", lambda: f"{k} of {name}: declared {d[k]!r}, loaded {have!r}")


def document(case):
    """The document as its author wrote it, and the folder its files are in."""
    if "corpus" in case:
        d = os.path.abspath("models")
        if not os.path.isdir(d):
            shutil.copytree(CORPUS, d)
        with open(os.path.join(d, case["corpus"])) as f:
            doc = json.load(f)
        if "nodes" not in doc or "models" in doc or "timestepper" not in doc:
            return None, d
        doc.pop("solver", None)
        ts = doc["timestepper"]
        starts = timestep_starts(ts)
        if len(starts) > 25:
            ts["end"] = str(starts[24][0].date())
        # costs without ties, for otherwise several solutions are right
        rng = random.Random(case["seed"])
        for n in doc["nodes"]:
            if n["type"].lower() in ("input", "output", "link", "river", "catchment", "storage", "reservoir", "losslink"):
                c = n.get("cost", 0.0)
                if isinstance(c, (int, float)):
                    n["cost"] = c + rng.uniform(-0.01, 0.01)
        doc.setdefault("parameters", {})
        doc.setdefault("recorders", {})
        return doc, d
    d = os.path.abspath(data.write(case["doc"].get("_data") or {}))
    return json.loads(json.dumps(strip(case["doc"]))), d


# -- rearranging ------------------------------------------------------------------------
def mixed(d, rng):
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def deep(v, rng):
    if isinstance(v, dict):
        return {k: (x if k == "data" else deep(x, rng)) for k, x in mixed(v, rng).items()}
    if isinstance(v, list):
        return [deep(x, rng) for x in v]
    return v


def rearrange(doc, forms):
    for what, seed in zip(ORDER, forms):
        if seed is None:
            continue
        rng = random.Random(seed)
        if what in ("nodes", "edges"):
            rng.shuffle(doc[what])
        elif what == "keys":
            for part in ("parameters", "recorders", "tables"):
                if part in doc:
                    doc[part] = {k: deep(v, rng) for k, v in doc[part].items()}
            doc["nodes"] = [deep(n, rng) for n in doc["nodes"]]
            doc = mixed(doc, rng)
        elif what in doc:
            doc[what] = mixed(doc[what], rng)
    return doc


def spots(doc, names):
    """Where each of these names stands in the document -> {name: [(container, key)]}."""
    out = {n: [] for n in names}

    def walk(v):
        for k, x in list(v.items() if isinstance(v, dict) else enumerate(v)):
            if isinstance(x, str):
                if x in out and k not in ("name", "type", "url", "column", "comment"):
                    out[x].append((v, k))
            elif isinstance(x, (dict, list)):
                walk(x)

    for n in doc["nodes"]:
        walk(n)
    for part in ("parameters", "recorders"):
        for v in doc[part].values():
            walk(v)
    return out


def inline(doc, how):
    """Writes components which are referred to once where they are used."""
    rng = random.Random(how["seed"])
    done = []
    nn = {n["name"] for n in doc["nodes"]}
    for _ in range(how["n"]):
        cands = []
        for part in ("parameters", "recorders"):
            other = set(doc["recorders" if part == "parameters" else "parameters"]) | nn
            for name, at in spots(doc, [x for x in doc[part] if x not in other]).items():
                if len(at) == 1 and allowed(part, at[0]):
                    cands.append((part, name, at[0]))
        if not cands:
            break
        part, name, (v, k) = rng.choice(cands)
        d = doc[part].pop(name)
        if how["named"] or part == "recorders":     # nested recorders of one class need names
            d = {"name": name, **d}
        v[k] = d
        done.append((part, name, d.get("type")))
    return done


def allowed(part, at):
    v, k = at
    if part == "recorders" and k == "recorder":
        return False        # taken by name only
    return k not in ("scenario", "node", "storage_node", "table", "nodes", "storage_nodes")


def hoist(doc, how):
    """Gives nested components a name of their own."""
    rng = random.Random(how["seed"])
    found = []

    def walk(v, part):
        for k, x in list(v.items() if isinstance(v, dict) else enumerate(v)):
            if k == "data":
                continue
            if isinstance(x, dict) and "type" in x:
                found.append((v, k, "recorders" if part == "recorders" and (k == "recorder" or v is not None and isinstance(k, int)) else "parameters"))
            if isinstance(x, (dict, list)):
                walk(x, part)

    for n in doc["nodes"]:
        walk(n, "nodes")
    for part in ("parameters", "recorders"):
        for v in doc[part].values():
            walk(v, part)
    rng.shuffle(found)
    done = []
    for j, (v, k, part) in enumerate(found[:how["n"]]):
        d = v[k]
        name = d.pop("name", None) or f"hoisted{j}"
        if name in doc[part]:
            d["name"] = name
            continue
        doc[part][name] = d
        v[k] = name
        done.append((part, name, d["type"]))
    return done


# -- loading ----------------------------------------------------------------------------
class SlowFile(io.RawIOBase):
    """Hands out a few bytes at a time, and fails where it is told to."""

    def __init__(self, raw, rng, fail=None):
        self.raw, self.at, self.rng, self.fail = raw, 0, rng, fail

    def readable(self):
        return True

    def readinto(self, b):
        if self.fail is not None and self.at >= self.fail:
            raise OSError(5, "Input/output error")
        n = min(len(b), self.rng.choice([1, 3, 17, 4096]), len(self.raw) - self.at)
        b[:n] = self.raw[self.at:self.at + n]
        self.at += n
        return n


def split(doc, folder, rng, tag):
    """The document spread over several files -> its main part; (nodes or edges moved?)"""
    os.makedirs(os.path.join(folder, f"inc{tag}"), exist_ok=True)
    k = rng.choice([1, 1, 2, 3])
    parts = [{} for _ in range(k)]
    main = {}
    moved = False
    for key, v in doc.items():
        if key in ("nodes", "edges") and rng.random() < 0.6:
            lists = [[] for _ in range(k + 1)]
            for x in v:
                lists[rng.randrange(k + 1)].append(x)
            moved = True
            main[key] = lists[0]
            for p, l in zip(parts, lists[1:]):
                if l:
                    p[key] = l
            if not lists[0] and rng.random() < 0.5:
                del main[key]
        elif key in ("parameters", "recorders", "tables") and rng.random() < 0.7:
            main[key] = {}
            for n, x in v.items():
                j = rng.randrange(k + 1)
                (main if j == 0 else parts[j - 1]).setdefault(key, {})[n] = x
            if not main[key] and rng.random() < 0.5:
                del main[key]
        elif key in ("scenarios", "scenario_combinations", "timestepper") and rng.random() < 0.4:
            rng.choice(parts)[key] = v
        else:
            main[key] = v
    names = [f"{'inc%s/' % tag if rng.random() < 0.5 else ''}part{tag}-{j}.{'json' if rng.random() < 0.7 else 'JSON'}" for j in range(k)]
    chain = k > 1 and rng.random() < 0.4
    if chain:       # the first file includes the others
        parts[0]["includes"] = names[1:]
    for n, p in zip(names, parts):
        with open(os.path.join(folder, n), "w") as f:
            json.dump(p, f)
    inc = names[:1] if chain else names
    main["includes"] = inc + (main.get("includes") or [])
    if len(main["includes"]) > 1 and rng.random() < 0.3:
        main = {"includes": main.pop("includes"), **main}
    return main, moved


class Bad(Exception):
    pass


def load(doc, folder, via, kw, rng, tag, ctx, scramble=False):
    """Loads it -> (model to observe, thing to run, nodes moved?)."""
    from pywr.core import Model
    from pywr.model import MultiModel

    file = os.path.join(folder, f"model{tag}.json")
    moved = False
    if via.startswith("includes"):
        doc, moved = split(doc, folder, rng, tag)
        ctx.probe("split-" + str(len(doc["includes"])))
    text = json.dumps(doc, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5)
    multi = None
    with open(file, "w", encoding="utf-8") as f:
        f.write(text)
    if via in ("dict", "includes-dict", "multi-data"):
        passed = json.loads(text)
        if via == "multi-data":
            passed = {"timestepper": passed["timestepper"], "models": [{"name": "only", "data": passed, **({"solver": kw["solver"]} if "solver" in kw and rng.random() < 0.5 else {})}]}
            multi = MultiModel.load(passed, path=folder if rng.random() < 0.5 else file, **kw)
            text = json.dumps({"timestepper": doc["timestepper"], "models": [dict(passed["models"][0], data=doc)]})
        else:
            model = (Model.load if rng.random() < 0.5 else Model.load_from_dict)(passed, path=file, **kw)
        ctx.ok(json.dumps(passed) == json.dumps(json.loads(text)), "document-altered", lambda: f"loading changed the document passed in: {difference(json.loads(text), passed)}")
        if scramble:        # what the caller does with it afterwards is no concern of the model
            wipe(passed)
    elif via in ("loads", "loads-bytes"):
        model = Model.loads(text if via == "loads" else text.encode(), path=file, **kw)
    elif via in ("multi-file", "multi-text"):
        mdoc = {"timestepper": doc["timestepper"], "models": [{"name": "only", "filename": os.path.basename(file)}]}
        mfile = os.path.join(folder, f"multi{tag}.json")
        with open(mfile, "w") as f:
            json.dump(mdoc, f)
        if via == "multi-file":
            multi = MultiModel.load(mfile if rng.random() < 0.5 else pathlib.Path(mfile), **kw)
        else:
            multi = MultiModel.loads(json.dumps(mdoc), path=mfile, **kw)
    else:
        p = {"path": file, "pathlib": pathlib.Path(file), "bytes-path": os.fsencode(file)}.get(via, file)
        if via == "text-file":
            with open(file, "r", encoding="utf-8") as f:
                model = Model.load(f, path=file, **kw)
        elif via == "binary-file":
            with open(file, "rb") as f:
                model = Model.load(f, path=file, **kw)
        elif via == "stringio":
            model = Model.load(io.StringIO(text), path=file, **kw)
        elif via == "bytesio":
            model = Model.load(io.BytesIO(text.encode()), path=file, **kw)
        elif via == "slow-file":
            raw = SlowFile(text.encode(), rng)
            ctx.fault("short-reads")
            model = Model.load(raw if rng.random() < 0.5 else io.TextIOWrapper(io.BufferedReader(raw), "utf-8"), path=file, **kw)
        else:
            model = Model.load(p, **kw)
    if multi is not None:
        model = multi.models["only"]
    return model, multi or model, moved


def wipe(v):
    if isinstance(v, dict):
        for x in v.values():
            wipe(x)
        v.clear()
    elif isinstance(v, list):
        for x in v:
            wipe(x)
        v.clear()


def difference(a, b, at=""):
    if type(a) is not type(b):
        return f"{at}: {str(a)[:60]} -> {str(b)[:60]}"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{at}: keys {list(a)} -> {list(b)}"
        a, b = list(a.items()), list(b.items())
        for (k, x), (_, y) in zip(a, b):
            d = difference(x, y, f"{at}/{k}")
            if d:
                return d
    elif isinstance(a, list):
        if len(a) != len(b):
            return f"{at}: {len(a)} entries -> {len(b)}"
        for j, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{at}/{j}")
            if d:
                return d
    elif a != b:
        return f"{at}: {a!r} -> {b!r}"
    return None


class Out:
    """What a loaded model did."""

    def __init__(self, load_it):
        self.error, self.trace, self.recs, self.moved, self.model = None, [], {}, False, None
        try:
            self.model, thing, self.moved = load_it()
            obs = Observer(self.model)
            thing.run()
        except Exception as e:
            self.error = e
            return
        self.trace = obs.trace
        self.recs = results(self.model)


def differ(a, b, names, tol, every):
    """First difference of two outcomes."""
    if (a.error is None) != (b.error is None):
        return f"one of them fails: {a.error!r} / {b.error!r}"
    if a.error is not None:
        return None if type(a.error) is type(b.error) else f"errors {a.error!r} / {b.error!r}"
    if len(a.trace) != len(b.trace):
        return f"{len(a.trace)} steps / {len(b.trace)}"
    for x, y in zip(a.trace, b.trace):
        if (x["date"], x["days"]) != (y["date"], y["days"]):
            return f"clock {x['date']},{x['days']} / {y['date']},{y['days']}"
        for w in ("flow", "vol", "pc", "pv", "pi"):
            ks = set(x[w]) & set(y[w])
            if w in ("flow", "vol", "pc"):
                ks = set(x[w]) | set(y[w]) if every else ks & names
                if not every and any((n in x[w]) != (n in y[w]) for n in names):
                    return f"nodes {sorted(set(x[w]) ^ set(y[w]))} are in only one of the models"
            for n in sorted(ks):
                if n not in x[w] or n not in y[w]:
                    return f"node {n} is in only one of the models"
                if not same(np.asarray(x[w][n], float), np.asarray(y[w][n], float), tol):
                    return f"step {x['i']} ({x['date']}) {w} of {n}: {brief(np.asarray(x[w][n], float))} / {brief(np.asarray(y[w][n], float))}"
    return None


# -- running a case ---------------------------------------------------------------------
def run(case, ctx):
    warnings.simplefilter("ignore")
    doc, folder = document(case)
    if doc is None:
        return
    Plan.clear()
    kw = {"solver": case["solver"]} if "solver" not in doc else {}
    nodes = {n["name"] for n in doc["nodes"]}
    a = Out(lambda: load(copy.deepcopy(doc), folder, "dict", kw, random.Random(case["seed"]), "a", ctx))
    if a.error is not None and "corpus" in case:
        ctx.probe("corpus-not-runnable")
        ctx.log(case["corpus"], type(a.error).__name__)
        return
    if a.error is not None:
        ctx.probe("base-fails")
        ctx.log("base fails", repr(a.error)[:200])
    for j, op in enumerate(case["ops"]):
        history(case, doc, folder, kw, op, f"h{j}", a, nodes, ctx)
    b = json.loads(json.dumps(doc))
    changed = []
    if case.get("hoist"):
        changed += hoist(b, case["hoist"])
    if case.get("inline"):
        changed += inline(b, case["inline"])
    b = rearrange(b, case["forms"])
    for part, name, ty in changed:
        ctx.state("moved", part, ty)
    ctx.state(case["via"], tuple(f is not None for f in case["forms"]), bool(case.get("inline")), bool(case.get("hoist")), case.get("corpus"))
    rng = random.Random(case["seed"] + 1)
    o = Out(lambda: load(b, folder, case["via"], kw, rng, "b", ctx, case.get("scramble")))
    note(ctx, a.trace)
    trace_digest(ctx, a.trace)
    trace_digest(ctx, o.trace)
    moved = o.moved or any(case["forms"][j] is not None for j in (0, 1, 5))
    kept = {(p, n) for p in ("parameters", "recorders") for n in b.get(p, {})}
    if a.error is None and o.error is None:
        if "corpus" not in case:
            declared(o.model, b, ctx)
        for n in doc["parameters"]:
            if ("parameters", n) in kept:
                ctx.ok(any(p.name == n for p in o.model.parameters), "component-missing", lambda: f"parameter {n} is not in the model")
        ctx.ok({p.name for p in o.model.scenarios.scenarios} == {s["name"] for s in doc.get("scenarios", [])} or "scenarios" not in doc, "scenarios", "the scenarios differ")
        want = {n for n in a.recs if n in doc["recorders"] and ("recorders", n) in kept}
        ctx.ok(want <= set(o.recs), "component-missing", lambda: f"recorders {sorted(want - set(o.recs))} are not in the model")
    else:
        want = set()
    d = differ(a, o, nodes, 1e-6 if moved else 1e-9, not moved)
    if d is None and a.error is None:
        d = diff_results({n: a.recs[n] for n in want if n in o.recs}, {n: o.recs[n] for n in want if n in o.recs}, 1e-6)
    if d and moved and not unique(doc, folder, kw, a, nodes, ctx):
        ctx.probe("several-optima")
        return
    what = "channel" if all(f is None for f in case["forms"]) and not changed else "rearranged"
    ctx.ok(d is None, what, lambda: f"{case['via']}, {describe(case, changed)}: {d}")


def describe(case, changed):
    out = [w for w, f in zip(ORDER, case["forms"]) if f is not None]
    if changed:
        out.append("nested/named " + ", ".join(sorted({str(t) for _, _, t in changed})))
    return "+".join(out) or "as written"


def unique(doc, folder, kw, a, nodes, ctx):
    """Whether every solver finds the same solution for the document as written (if not, which one is found is not the document's)."""
    if a.error is not None:
        return True
    d = {k: v for k, v in doc.items() if k != "solver"}
    for solver, args in (("glpk", None), ("glpk", {"use_presolve": True}), ("glpk-edge", None), ("lpsolve", None)):
        if solver not in solvers_for(doc):
            continue
        o = Out(lambda: load(copy.deepcopy(d), folder, "dict", {"solver": solver, **({"solver_args": args} if args else {})}, random.Random(1), "u", ctx))
        if o.error is not None or differ(a, o, nodes, 1e-6, False):
            return False
    return True


def history(case, doc, folder, kw, op, tag, a, nodes, ctx):
    """Something else that is loaded in between; loads that fail have to say so."""
    from pywr.core import Model

    rng = random.Random(op["seed"])
    k = op["op"]
    text = json.dumps(doc)
    file = os.path.join(folder, f"{tag}.json")
    ctx.state("op", k)
    if k == "again":
        o = Out(lambda: load(copy.deepcopy(doc), folder, rng.choice(["dict", "path", "loads", "multi-data"]), kw, rng, tag, ctx))
        d = differ(a, o, nodes, 1e-9, True) or (a.error is None and diff_results({n: a.recs[n] for n in a.recs if n in doc["recorders"]}, {n: o.recs[n] for n in o.recs if n in doc["recorders"]}, 1e-9)) or None
        ctx.ok(d is None, "second-load", lambda: f"loaded a second time: {d}")
        return
    if k == "other":        # a document with the same names and other numbers
        other = vary(json.loads(text), rng)
        Out(lambda: load(other, folder, "dict", kw, rng, tag, ctx))
        return
    bad = json.loads(text)
    expect = Exception
    fail = None
    if k == "truncated":
        cut = rng.randrange(len(text))
        with open(file, "w") as f:
            f.write(text[:cut])
        go = rng.choice([lambda: Model.load(file, **kw), lambda: Model.loads(text[:cut], path=file, **kw), lambda: Model.load(io.StringIO(text[:cut]), path=file, **kw)])
        expect = ValueError
        ctx.fault("torn-document")
    elif k == "missing-file":
        go = lambda: Model.load(os.path.join(folder, "nonesuch.json"), **kw)
        expect = OSError
        ctx.fault("missing-document")
    elif k == "read-error":
        raw = SlowFile(text.encode(), rng, fail=rng.randrange(len(text)))
        go = lambda: Model.load(raw, path=file, **kw)
        expect = OSError
        ctx.fault("read-error")
    elif k == "missing-include":
        bad["includes"] = [f"nonesuch{tag}.json"] + list(bad.get("includes", []))
        if rng.random() < 0.5:
            with open(os.path.join(folder, f"nonesuch{tag}.json"), "w") as f:
                f.write(json.dumps({"parameters": {"zz": {"type": "constant", "value": 1.0}}})[:rng.randrange(1, 40)])
            expect = ValueError
            ctx.fault("torn-include")
        else:
            expect = OSError
            ctx.fault("missing-include")
        with open(file, "w") as f:
            json.dump(bad, f)
        go = (lambda: Model.load(file, **kw)) if rng.random() < 0.5 else (lambda: Model.load_from_dict(bad, path=file, **kw))
    else:
        part = rng.choice(["parameters", "recorders", "nodes"])
        if k == "unknown-type":
            if part == "nodes":
                rng.choice(bad["nodes"])["type"] = "nonesuch"
            else:
                bad[part]["zz"] = {"type": "nonesuch"}
        elif k == "missing-reference":
            if part == "recorders":
                bad[part]["zz"] = {"type": "numpyarraynode", "node": "nonesuch"}
            elif part == "parameters":
                bad[part]["zz"] = {"type": "aggregated", "agg_func": "sum", "parameters": [1.0, "nonesuch"]}
            else:
                bad["edges"].append([bad["nodes"][0]["name"], "nonesuch"])
        else:
            part = "parameters"
            m = rng.choice([1, 2, 3])
            for j in range(m):
                bad["parameters"][f"zz{j}"] = {"type": "aggregated", "agg_func": "sum", "parameters": [1.0, f"zz{(j + 1) % m}"]}
        if part != "nodes" and part in bad:
            bad[part] = mixed(bad[part], rng)
        go = lambda: Model.load_from_dict(bad, path=file, **kw)
        ctx.fault("bad-document")
        before = json.dumps(bad)
    try:
        m = go()
        e = None
    except Exception as err:
        e = err
    ctx.log(k, type(e).__name__)
    ctx.ok(isinstance(e, expect), "bad-document-accepted", lambda: f"{k}: {e!r}")
    if k in ("unknown-type", "missing-reference", "circular"):
        ctx.ok(json.dumps(bad) == before, "document-altered", lambda: f"a load that failed changed the document passed in: {difference(json.loads(before), bad)}")


def vary(v, rng, key=None):
    if isinstance(v, dict):
        return {k: (x if k in ("timestepper", "scenarios", "scenario_combinations", "metadata", "edges", "tables", "data") else vary(x, rng, k)) for k, x in v.items()}
    if isinstance(v, list):
        return [vary(x, rng, key) for x in v]
    if isinstance(v, float):
        return v * rng.uniform(0.9, 1.1)
    return v


def shrink(case):
    for j in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:j] + case["ops"][j + 1:])
    for key in ("inline", "hoist"):
        if case.get(key):
            yield dict(case, **{key: None})
            for n in (1, 2, 4):
                if n < case[key]["n"]:
                    yield dict(case, **{key: dict(case[key], n=n)})
    if case["scramble"]:
        yield dict(case, scramble=False)
    if case["via"] != "dict":
        yield dict(case, via="dict")
    for j, f in enumerate(case["forms"]):
        if f is not None:
            fs = list(case["forms"])
            fs[j] = None
            yield dict(case, forms=fs)
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    if "doc" in case:
        yield from shrink_case(case)
