"""P06: CSV and HDF5 outputs hold exactly what was simulated - whatever fails, buffers, compresses or was there before."""
import bz2
import csv
import gzip
import io
import os
import resource
import zlib

import numpy as np
import pandas as pd

from .. import scen
from ..comps import Plan
from ..disk import Disk, H5Disk, h5_open, open_fds
from ..gen import G, shrink_case, solvers_for, timestep_starts
from ..history import apply_op, arm, disarm, drive, gen_fault, gen_history, shrink_ops
from ..world import World, note, trace_digest

N = {"quick": 1100, "thorough": 20000}
RULE = "a distinct event log of a run whose output files were read back and compared with what was simulated"
STATE_MEASURE = "distinct (file kind, compression, buffering, what stopped the run, where it was stopped, history) tuples"
REAL = "everything, including the csv, gzip, bz2 and HDF5 libraries and the kernel's file system (RLIMIT_FSIZE, /dev/full)"
STUB = "answers of open/write/close for the output files and of the PyTables calls, where a fault is planned"

SKIP = ("deficit",)
DIALECTS = [{}, {}, {}, {"delimiter": ";"}, {"delimiter": "\t", "lineterminator": "\n"}, {"quoting": 1}, {"lineterminator": "\n"}]


def gen(r, i, tier):
    g = G(r, steps=(2, 16), faultparams=1, recs=(0, 2), reaches=(1, 2), dims=(0, 2), storages=(0, 2), comb=0.35, slices=0.5,
          freqs=("1", "1", "2", "5", "7", "M", "W", "7D"))
    doc = g.build()
    sx = g.sfx
    names = [n["name"] for n in doc["nodes"]]
    pars = [p for p, d in doc["parameters"].items() if d["type"] not in SKIP]
    simple = [n["name"] for n in doc["nodes"] if n["type"] in ("Input", "Output", "Link", "Catchment", "Storage", "Reservoir")]
    ncomb = len(scen.combos(doc))
    solver = r.pick(solvers_for(doc))
    outs = []
    for k in range(r.pick([1, 1, 2, 2, 3])):
        nm = f"out{k}{sx}"
        kind = r.weighted({"csv": 4, "tables": 3, "tables2": 4})
        d = {"type": {"tables2": "tablesrecorder2"}.get(kind, kind)}
        if kind == "csv":
            lib = r.pick([None, None, "gzip", "bz2"])
            d["url"] = f"o{k}.csv" + {"gzip": ".gz", "bz2": ".bz2", None: ""}[lib]
            if lib:
                d["complib"] = lib
                if r.p(0.6):
                    d["complevel"] = r.pick([1, 5, 9])
            if r.p(0.6):
                d["nodes"] = r.sample(names, r.randint(1, len(names)))
            d["scenario_index"] = r.randrange(ncomb)
            kw = r.pick(DIALECTS)
            if kw:
                d["csv_kwargs"] = kw
        else:
            d["url"] = f"o{k}.h5"
            where = r.pick(["/", "/", "/sim", "/a/b"])
            if where != "/":
                d["where"] = where
            if r.p(0.6):
                use = r.sample(names, r.randint(1, len(names)))
                if r.p(0.6):
                    use += [x for x in r.sample(simple, min(2, len(simple))) if x not in use]
                d["nodes"] = [n if r.p(0.8) else [f"/grp{k}/n_{n}", n] for n in use]
            if r.p(0.7) and pars:
                d["parameters"] = [p if r.p(0.8) else [f"/par{k}/q_{p}", p] for p in r.sample(pars, r.randint(1, min(6, len(pars))))]
            if r.p(0.25):
                d["time"] = r.pick([None, "/meta/time", "/clock"])
            if r.p(0.2):
                d["scenarios"] = r.pick([None, "/meta/scenarios", "/scn"])
            if r.p(0.4):
                d["filter_kwds"] = r.pick([{"complib": "zlib", "complevel": 1}, {"complib": "zlib", "complevel": 9, "fletcher32": True}, {"complib": "blosc", "complevel": 5}, {"complib": "bzip2", "complevel": 3}])
            if r.p(0.2):
                d["metadata"] = {"author": f"a{k}", "run": k}
            if r.p(0.2):
                d["create_directories"] = True
                d["url"] = f"deep{k}/er/" + d["url"]
            if solver in ("glpk", "lpsolve") and r.p(0.3):
                d["routes_flows"] = "routes_flows"
            if kind == "tables" and r.p(0.2):
                d["use_legacy_attribute_naming"] = True
            if kind == "tables2":
                b = r.pick(["default", "n", "n", "n", "size", "none"])
                if b == "n":
                    d["buffer_timesteps"] = r.pick([0, 1, 2, 3, 4, 5, 7, g.nsteps, g.nsteps + 3])
                elif b == "size":
                    d["buffer_size"] = r.pick([0, 1, 0.0005, 0.001, 0.002])
                elif b == "none":
                    d["buffer_size"] = None
        outs.append(nm)
        doc["recorders"][nm] = d
    ops = gen_history(r, doc, g, 0, 3)
    for op in ops:
        op["fin"] = r.pick([0, 1, 1, 2])
        if r.p(0.12):
            op["spoil"] = r.pick(["garbage", "longer", "remove"])
    final = r.weighted({"run": 3, "steps": 1.5, "restart": 1.2, "partial": 1.2, "abort": 3, "disk": 6, "limit": 1.6, "full": 0.6, "period": 1})
    case = {"doc": doc, "outs": outs, "ops": ops, "solver": solver, "final": final, "path": r.pick([None, None, "m"]), "k": r.randint(1, g.nsteps), "again": True,
            "pre": r.pick([None, None, "garbage", "longer"]), "fault": gen_fault(r, doc, g)}
    a = r.randrange(g.nsteps)
    b = r.randrange(a, g.nsteps)
    case["from"], case["to"] = str(g.starts[a][0].date()), str(g.starts[b][0].date())
    if final == "disk":
        o = r.pick(outs)
        d = doc["recorders"][o]
        f = os.path.basename(d["url"])
        n = g.nsteps
        if d["type"] == "csv":
            op = r.weighted({"open": 1, "write": 5, "close": 1.5})
            flt = {"file": f, "op": op, "n": 0 if op != "write" else r.pick([0, 0, 1, 2, r.randrange(6), r.randrange(3 * n + 3)]), "err": r.pick(["ENOSPC", "EIO", "EDQUOT", "EFBIG"] if op != "open" else ["EACCES", "ENOENT", "EIO", "ENOSPC"]), "sticky": r.p(0.6)}
            if op == "write" and r.p(0.5):
                flt["torn"] = r.pick([1, 3, 20, 100])
        else:
            op = r.weighted({"open": 1, "write": 6, "flush": 1.5, "close": 1.5, "create": 1.5})
            flt = {"file": f, "op": op, "n": r.pick([0, 1]) if op in ("open", "close", "flush") else r.pick([0, 1, 2, r.randrange(6), r.randrange(30), r.randrange(4 * n + 4)]), "err": r.pick(["ENOSPC", "EIO", "HDF5", "HDF5"]), "sticky": r.p(0.4)}
        case["disk"] = [flt]
        if r.p(0.25):       # something else fails as well
            case["also"] = True
    if final in ("disk", "run", "abort", "steps"):
        case["short"] = r.pick([0, 0, r.randrange(1, 1 << 20)])
        case["buffer"] = r.pick([None, None, 1, 16, 64, 300, 1000])
    if final == "limit" and r.p(0.8):      # mostly without HDF5 (see known-findings.json)
        case["outs"] = [o for o in outs if doc["recorders"][o]["type"] == "csv"] or outs
        for o in outs:
            if o not in case["outs"]:
                del doc["recorders"][o]
    case["limit"] = r.pick([0, 1, 100, 512, 1000, 2048, 4096, 10000, 30000, r.randrange(60000)])
    case["stepped"] = r.p(0.25)
    return case


class W(World):
    """Remembers how the model was driven last, and what the last solved step was."""

    ranlast = False

    def run(self):
        self.ranlast = True
        return super().run()

    def step(self):
        self.ranlast = False
        return super().step()

    def reset(self, start=None):
        self.ranlast = False
        return super().reset(start)

    def setup(self):
        self.ranlast = False
        return super().setup()


def base(doc, name):
    return doc["recorders"][name]


def spoil(how, path):
    if how == "remove":
        if os.path.exists(path):
            os.remove(path)
    else:
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        with open(path, "wb") as f:
            f.write(b"Datetime,x\n1990-01-01T00:00:00,42.0\n" * (1 if how == "garbage" else 4000))


def run(case, ctx):
    doc = case["doc"]
    n = len(timestep_starts(doc["timestepper"]))
    case = dict(case, outs=[o for o in case["outs"] if o in doc["recorders"]])
    Plan.clear()
    if case["final"] == "limit":
        if any(base(doc, o)["type"] != "csv" for o in case["outs"]):
            ctx = Lim(ctx)
    root = ctx.scratch
    folder = os.path.join(root, case["path"]) if case["path"] else root
    os.makedirs(folder, exist_ok=True)
    paths = {o: os.path.join(folder, base(doc, o)["url"]) for o in case["outs"]}
    for o, p in paths.items():
        if case.get("pre"):
            spoil(case["pre"], p)
    if case["final"] == "full":
        doc = dict(doc, recorders=dict(doc["recorders"]))
        for o in case["outs"]:
            if base(doc, o)["type"] == "csv" and not base(doc, o).get("complib"):
                doc["recorders"][o] = dict(base(doc, o), url="/dev/full")
                paths[o] = "/dev/full"
    w = W(doc, solver=case["solver"], proxy=True, path=folder if case["path"] else None)
    j = Judge(w, case, doc, paths, ctx)
    w.proxy.hook = j.solved
    if case["final"] == "full" and "/dev/full" in paths.values():
        e = w.run()
        ctx.fault("/dev/full")
        ctx.ok(isinstance(e, OSError), "error-lost", f"writing to a full device: {e!r}")
        j.closed("after a full device")
        ctx.nontrivial = True
        ctx.state("full")
        return
    for op in case["ops"]:
        r0, j.solved_i = w.obs.resets, None
        k, e = apply_op(w, op, ctx, n)
        j.after_op(op, k, e, r0)
        if op.get("spoil") and j.ended:
            for p in paths.values():
                spoil(op["spoil"], p)
    final(case, ctx, w, j, n)
    # and the same model still produces complete files
    if case["again"]:
        r0, j.solved_i = w.obs.resets, None
        e = w.run()
        ctx.ok(e is None, "rerun-failed:" + type(e).__name__, repr(e))
        if e is None:
            ctx.ok(len(w.trace) == n, "rerun-steps", f"{len(w.trace)} of {n}")
            j.judge("rerun", None, r0)


def final(case, ctx, w, j, n):
    doc, f = case["doc"], case["final"]
    r0, j.solved_i = w.obs.resets, None
    names = [os.path.basename(p) for p in j.paths.values()]
    e = None
    with Disk([x for x in names if ".csv" in x], case.get("disk", []), case.get("short", 0), case.get("buffer")) as dk, H5Disk([x for x in names if x.endswith(".h5")], case.get("disk", [])) as hd:
        j.disk = dk
        if f in ("run", "full"):
            e = w.run()
        elif f == "steps":
            e = w.ready() or drive(w, n)
        elif f == "partial":
            e = w.ready() or drive(w, min(case["k"], n))
        elif f == "restart":
            k = min(case["k"], n) - 1
            e = w.ready() or w.reset(start=timestep_starts(doc["timestepper"])[k][0]) or drive(w, n - k)
        elif f == "period":
            m = w.model
            s0, e0 = m.timestepper.start, m.timestepper.end
            m.timestepper.start, m.timestepper.end = pd.Timestamp(case["from"]), pd.Timestamp(case["to"])
            e = w.run()
        elif f == "abort" or (f == "disk" and case.get("also")):
            arm(w, [case["fault"]])
            e = (w.ready() or drive(w, n)) if case["stepped"] else w.run()
            for x in disarm():
                ctx.fault(f"{x['exc']}@{x['phase']}")
        elif f == "disk":
            e = (w.ready() or drive(w, n)) if case["stepped"] else w.run()
        elif f == "limit":
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], hard))
            try:
                e = w.run()
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        e2 = None
        if not w.ranlast:
            e2 = j.finish()
        if dk.shorts:
            ctx.fault("short-write", dk.shorts)
    fired = dk.fired + hd.fired
    for x in fired:
        ctx.fault(f"{x['err'].__class__.__name__}@{x['op']}" + ("-torn" if x.get("part") else ""))
    if f == "limit" and (e is not None):
        ctx.fault("file-size-limit")
    first = e if e is not None else e2
    if fired:
        ctx.ok(first is not None, "error-lost", f"{fired[0]['op']} of {fired[0]['file']} failed, no error was raised")
        if first is not None and not case.get("also"):
            ctx.ok(chain_has(first, [x["err"] for x in fired]), "error-replaced", f"{fired[0]['err']!r} was reported as {first!r}")
    elif f not in ("limit", "abort", "disk"):
        ctx.ok(first is None, "run-failed:" + type(first).__name__, repr(first))
    elif f == "disk" and first is not None and not case.get("also"):
        ctx.bad("run-failed:" + type(first).__name__, repr(first))
    damaged = {x["file"] for x in fired}
    if f == "limit" and first is not None:
        ctx.ok(isinstance(first, OSError) or any(x.endswith(".h5") for x in names), "error-replaced", repr(first))
        damaged = set(names)
    if f == "limit" and first is None:
        for p in j.paths.values():
            ctx.ok(os.path.getsize(p) <= case["limit"] or case["limit"] == 0, "limit", p)
    kinds = [(base(doc, o)["type"], base(doc, o).get("complib"), min(base(doc, o).get("buffer_timesteps", -1) or 0, 4)) for o in j.paths]
    ctx.state(f, kinds, [(x["op"], bool(x.get("sticky")), len(w.trace) * 3 // max(1, n)) for x in fired], type(first).__name__, [o["op"] for o in case["ops"]][-1:])
    j.judge(f, first, r0, damaged)
    if f == "period":
        w.model.timestepper.start, w.model.timestepper.end = s0, e0


def chain_has(e, errs):
    seen = 0
    while e is not None and seen < 10:
        if any(e is x for x in errs):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


class Lim:
    """HDF5 beyond a file-size limit: PyTables drops what the HDF5 library reports (see known-findings.json)."""

    def __init__(self, ctx):
        self.__dict__["_c"] = ctx

    def __getattr__(self, k):
        return getattr(self._c, k)

    def __setattr__(self, k, v):
        setattr(self._c, k, v)

    def bad(self, kind, msg):
        self._c.bad("hdf5-limit" if ".h5" in msg or "HDF5" in msg or kind.startswith("rerun-failed") else kind, msg)

    def ok(self, cond, kind, msg):
        self._c.checks += 1
        if not cond:
            self.bad(kind, msg)
        return cond


class Judge:
    def __init__(self, w, case, doc, paths, ctx):
        self.w, self.case, self.doc, self.paths, self.ctx = w, case, doc, paths, ctx
        self.solved_i = None
        self.routes = {}
        self.ended = False
        self.disk = None
        self.nodes = {d["name"]: d for d in doc["nodes"]}
        self.combos = scen.combos(doc)
        self.freq = None

    def solved(self, when, model):
        i = model.timestepper.current.index
        if when == "before":
            if not len(self.w.trace):
                self.routes = {}
            self.solved_i = None
        else:
            self.solved_i = i
            if getattr(self.w.proxy.real, "save_routes_flows", False):
                try:
                    self.routes[i] = np.array(self.w.proxy.real.routes_flows_array)
                except (AttributeError, TypeError, ValueError):
                    pass

    def finish(self):
        try:
            self.w.model.finish()
        except BaseException as e:
            return e
        return None

    def after_op(self, op, k, e, r0):
        self.ended = True
        if not self.w.ranlast:
            if not op.get("fin") or k in ("period", "delta"):
                self.ended = False
                return
            for _ in range(op["fin"]):
                x = self.finish()
                self.ctx.ok(x is None, "finish-failed", repr(x))
        self.freq = op["delta"] if k == "delta" else None
        self.judge(k, e, r0, changed={op.get("name")})
        self.freq = None

    # -- what the run computed -------------------------------------------------------
    def late(self):
        o = self.w.obs
        if o._plan is None:
            return None
        ts = self.w.model.timestepper.current
        if ts is None or self.solved_i != ts.index or any(s["i"] == ts.index for s in self.w.trace):
            return None
        n = len(o.trace)
        try:
            o.after()
        except BaseException:
            return None
        s = o.trace.pop()
        assert len(o.trace) == n
        return s

    def closed(self, what):
        for o, p in self.paths.items():
            fds = open_fds(p)
            self.ctx.ok(not fds, "left-open", f"{what}: {os.path.basename(p)} is still open")
            if p.endswith(".h5"):
                self.ctx.ok(not h5_open(p), "left-open", f"{what}: {os.path.basename(p)} is still open in PyTables")

    def judge(self, what, e, r0, damaged=(), changed=()):
        ctx, w = self.ctx, self.w
        self.closed(f"after {what} ({type(e).__name__})")
        note(ctx, w.trace)
        trace_digest(ctx, w.trace, 6)
        if w.obs.resets == r0 or (e is not None and not w.trace and self.solved_i is None):
            ctx.probe("stopped before the first step")
            return
        late = self.late() if e is not None else None
        self.trace = list(w.trace)
        ts = w.model.timestepper.current
        if e is not None and self.trace and ts is not None and self.trace[-1]["i"] == ts.index:
            late = self.trace.pop()     # the step that failed: the observer saw it, other components may not have
        for o, p in self.paths.items():
            d = base(self.doc, o)
            bad = os.path.basename(p) in damaged
            if bad and not os.path.exists(p):
                continue
            if not os.path.exists(p):
                ctx.bad("file-missing", f"after {what}: no {os.path.basename(p)}")
                continue
            if d["type"] == "csv":
                self.csv(what, o, d, p, e, late, bad)
            else:
                self.h5(what, o, d, p, e, late, bad, changed)

    # -- CSV ---------------------------------------------------------------------------
    def csv(self, what, o, d, p, e, late, bad):
        ctx, w = self.ctx, self.w
        raw = open(p, "rb").read()
        lib = d.get("complib")
        try:
            raw = {None: lambda x: x, "gzip": gzip.decompress, "bz2": bz2.decompress}[lib](raw)
        except (OSError, EOFError, zlib.error, ValueError) as x:
            if not bad:
                ctx.bad("unreadable", f"after {what}: {os.path.basename(p)}: {x!r}")
            return
        kw = dict(d.get("csv_kwargs", {}))
        text = raw.decode("utf-8")
        term = kw.get("lineterminator", "\r\n")
        torn = bool(text) and not text.endswith(term)
        rows = list(csv.reader(io.StringIO(text, newline=""), **kw))
        tail = rows.pop() if torn and rows else None
        if torn and not bad:
            ctx.bad("torn-row", f"after {what}: {os.path.basename(p)} ends with {tail}")
        names = d.get("nodes") or sorted(self.nodes_all())
        if not rows:
            if not bad:
                ctx.bad("no-header", f"after {what}: {os.path.basename(p)} is empty")
            return
        ctx.ok(rows[0] == ["Datetime"] + list(names), "header", f"after {what}: {rows[0]} / {names}")
        want = list(self.trace)
        if late is not None:
            want.append(late)
        got = rows[1:]
        k = d["scenario_index"]
        if not bad:
            ctx.ok(len(got) >= len(self.trace), "rows-missing", f"after {what}: {len(got)} rows for {len(self.trace)} completed steps in {os.path.basename(p)}")
        ctx.ok(len(got) <= len(want), "rows-invented", f"after {what}: {len(got)} rows for {len(want)} solved steps in {os.path.basename(p)}")
        for row, s in zip(got, want):
            exp = [pd.Timestamp(s["date"]).isoformat()] + [s["vol"][x][k] if x in s["vol"] else s["flow"][x][k] for x in names]
            good = len(row) == len(exp) and row[0] == exp[0]
            if good:
                for a, b in zip(row[1:], exp[1:]):
                    try:
                        a = float(a)
                    except ValueError:
                        good = False
                        break
                    if a != b and not (a != a and b != b) and not abs(a - b) <= 1e-12 * abs(b):
                        good = False
            if not ctx.ok(good, "row-wrong", f"after {what}: {os.path.basename(p)} has {row[:5]}, simulated was {exp[:5]}"):
                break

    def nodes_all(self):
        return [n.name for n in self.w.model.nodes]

    # -- HDF5 --------------------------------------------------------------------------
    def h5(self, what, o, d, p, e, late, bad, changed):
        import tables

        ctx, w = self.ctx, self.w
        f = os.path.basename(p)
        try:
            h = tables.open_file(p, "r")
        except Exception as x:
            if not bad:
                ctx.bad("unreadable", f"after {what}: {f}: {x!r}")
            return
        try:
            self._h5(what, d, f, h, e, late, bad, changed)
        except Exception as x:
            if not bad:
                ctx.bad("unreadable", f"after {what}: {f}: {x!r}")
            ctx.probe("damaged HDF5 file not readable: " + type(x).__name__)
        finally:
            h.close()

    def _h5(self, what, d, f, h, e, late, bad, changed):
        import tables

        ctx, w, doc = self.ctx, self.w, self.doc
        v2 = d["type"] == "tablesrecorder2"
        trace = self.trace
        n = len(w.model.timestepper)
        ctx.log(what, f, bad)
        # time
        tpath = d.get("time", "/time")
        listed = None
        if tpath is not None:
            try:
                tt = h.get_node(tpath)
            except tables.NoSuchNodeError:
                if bad:
                    return
                raise
            listed = [(int(x["index"]), int(x["year"]), int(x["month"]), int(x["day"])) for x in tt.read()]
            want = [self.stamp(s) for s in trace]
            more = want + ([self.stamp(late)] if late is not None else [])
            if bad:
                ctx.ok(listed == more[: len(listed)], "time-rows", f"after {what}: {f} lists {listed[-3:]}, simulated {more[-3:]}")
            else:
                ctx.ok(listed in (want, more), "time-rows", f"after {what}: {f} lists {len(listed)} {listed[-2:]}, simulated {len(want)} {want[-2:]}")
        # scenarios
        if not (bad and listed is None):
            self.scen(what, d, f, h, v2, bad)
        if d.get("metadata"):
            for k, v in d["metadata"].items():
                ctx.ok(getattr(h.root._v_attrs, k, None) == v, "metadata", k)
        # values
        where = d.get("where", "/")
        items = []
        for x in d.get("nodes") or self.nodes_all():
            a, nm = (None, x) if isinstance(x, str) else x
            items.append(((a or where + "/" + nm).replace("//", "/"), nm, "node"))
        for x in d.get("parameters") or []:
            a, nm = (None, x) if isinstance(x, str) else x
            items.append(((a or where + "/" + nm).replace("//", "/"), nm, "param"))
        shape = self.shape(n)
        steps = {s["i"]: s for s in trace}
        for path, nm, kind in items:
            for leaf, key in self.leaves(nm, kind, v2, trace):
                try:
                    ca = h.get_node(path + "/" + leaf if v2 else path)
                except tables.NoSuchNodeError:
                    if not bad:
                        ctx.bad("array-missing", f"after {what}: {path} {leaf} in {f}")
                    continue
                if not ctx.ok(tuple(ca.shape) == shape, "array-shape", f"after {what}: {path} in {f}: {ca.shape} / {shape}"):
                    continue
                legacy = d.get("use_legacy_attribute_naming")
                attr = ca._v_attrs["pywr-attribute" if legacy else "PYWR_ATTRIBUTE"] if not bad else None
                if attr is not None:
                    ctx.ok(str(attr).replace("-", "_") == leaf, "attribute", f"{path}: {attr}")
                data = ca.read().reshape(n, -1)
                self.rows(what, f, path + " " + leaf, data, steps, late, lambda s, nm=nm, key=key: self.value(s, nm, key), listed, bad, nm in changed and key in ("max", "min"))
        if e is None and not bad and listed is not None and len(listed) == n and d.get("scenarios", "/scenarios") is not None:
            self.frames(what, d, f, h, v2, listed, items)
        if d.get("routes_flows"):
            self.routes_check(what, d, f, h, n, trace, bad, listed)

    def frames(self, what, d, f, h, v2, listed, items):
        """The library's own reader gives the same values under the same labels."""
        from pywr.recorders import TablesRecorder, TablesRecorder2

        ctx = self.ctx
        try:
            dfs = list((TablesRecorder2 if v2 else TablesRecorder).generate_dataframes(h.filename, time=d.get("time", "/time"), scenarios=d.get("scenarios", "/scenarios")))
        except Exception as x:
            ctx.bad("frames-failed:" + type(x).__name__, f"after {what}: reading {f}: {x!r}")
            return
        ctx.ok(len(dfs) >= len({i[0] for i in items}), "frames", f"after {what}: {len(dfs)} frames for {len(items)} items in {f}")
        index = [pd.Timestamp(*x[1:]) for x in listed]
        byname = {}
        for path, nm, kind in items:
            for leaf, key in self.leaves(nm, kind, v2, self.trace):
                byname.setdefault(path.rsplit("/", 1)[1] + "." + leaf if v2 else path.rsplit("/", 1)[1], []).append(h.get_node(path + "/" + leaf if v2 else path))
        sc = [s["name"] for s in self.doc.get("scenarios", [])]
        for name, df in dfs:
            if len(byname.get(name, ())) != 1:
                continue
            data = byname[name][0].read().reshape(len(listed), -1)
            ctx.ok(list(df.index) == index, "frames", f"{name}: dates {list(df.index)[:3]}")
            if sc:
                ctx.ok([tuple(int(v) for v in c) for c in df.columns] == self.combos and list(df.columns.names) == sc, "frames", f"{name}: columns {list(df.columns)[:4]} / {self.combos[:4]}")
            ctx.ok(np.array_equal(df.to_numpy(), data, equal_nan=data.dtype.kind == "f"), "frames", f"{name}: values")

    def shape(self, n):
        doc = self.doc
        sc = doc.get("scenarios", [])
        if not sc:
            return (n, 1)
        if doc.get("scenario_combinations") is not None:
            return (n, len(self.combos))
        return (n,) + tuple(len(range(s["size"])[slice(*s["slice"])]) if s.get("slice") is not None else s["size"] for s in sc)

    def leaves(self, nm, kind, v2, trace):
        s = trace[0] if trace else None
        if kind == "param":
            idx = s is not None and nm in s["pi"]
            if s is None:
                from pywr.parameters import IndexParameter

                idx = isinstance(self.w.model.parameters[nm], IndexParameter)
            return [("parameter_index", "pi")] if idx else [("parameter", "pv")]
        from pywr._core import AbstractStorage

        stor = isinstance(self.w.model.nodes[nm], AbstractStorage)
        main = ("volume", "vol") if stor else ("flow", "flow")
        if not v2:
            return [main]
        q = main[0]
        return [main, ("max_" + q, "max"), ("min_" + q, "min")]

    def value(self, s, nm, key):
        """Expected row, or None where the document alone does not say."""
        if key in ("vol", "flow", "pv", "pi"):
            return s[key][nm]
        nd = self.nodes.get(nm)
        if nd is None or nd["type"] not in ("Input", "Output", "Link", "Catchment", "Storage", "Reservoir"):
            return None
        stor = nd["type"] in ("Storage", "Reservoir")
        if nd["type"] == "Catchment":
            v = nd.get("flow", 0.0)
        else:
            v = nd.get(("max_" if key == "max" else "min_") + ("volume" if stor else "flow"), (0.0 if key == "min" else None if stor else float("inf")))
        if isinstance(v, bool) or v is None or isinstance(v, dict):
            return None
        if isinstance(v, str):
            if self.doc["parameters"].get(v, {}).get("type") in SKIP + (None,):
                return None
            v = s["pv"].get(v)
            return v
        return np.full(len(self.combos), float(v))

    def rows(self, what, f, path, data, steps, late, val, listed, bad, loose):
        ctx = self.ctx
        lst = None if listed is None else {x[0] for x in listed}
        for i in range(len(data)):
            if i in steps:
                if bad and lst is not None and i not in lst:
                    exp = [val(steps[i]), np.zeros(data.shape[1])]
                elif bad and lst is None:
                    exp = [val(steps[i]), np.zeros(data.shape[1])]
                else:
                    exp = [val(steps[i])]
            elif late is not None and late["i"] == i:
                exp = [val(late), np.zeros(data.shape[1])]
            else:
                exp = [np.zeros(data.shape[1])]
            if loose or any(x is None for x in exp):
                continue
            ok = any(np.array_equal(data[i], np.asarray(x, float) if data.dtype.kind == "f" else np.asarray(x), equal_nan=data.dtype.kind == "f") for x in exp)
            if not ctx.ok(ok, "row-wrong" if i in steps else "rows-invented", f"after {what}: {f}:{path}[{i}] = {data[i][:4]}, simulated {np.asarray(exp[0])[:4]}"):
                return

    def stamp(self, s):
        """Index and date of a step as the clock calls it (periods are named by their end)."""
        d = self.freq or self.doc["timestepper"]["timestep"]
        if isinstance(d, int):
            t = pd.Timestamp(s["date"])
        else:
            t = pd.Period(s["date"], freq=d)
        return (s["i"], t.year, t.month, t.day)

    def scen(self, what, d, f, h, v2, bad):
        import tables

        ctx, doc = self.ctx, self.doc
        path = d.get("scenarios", "/scenarios")
        if path is None:
            return
        sc = doc.get("scenarios", [])
        try:
            t = h.get_node(path)
            got = [(x["name"].decode("utf-8"), int(x["size"])) for x in t.read()]
        except tables.NoSuchNodeError:
            if not bad:
                ctx.bad("scenario-table", f"after {what}: {path} missing in {f}")
            return
        want = [(s["name"], s["size"]) for s in sc] or [("__default__", 1)]
        if not sc:
            ctx.ok([g[1] for g in got] in ([], [1]), "scenario-table", f"{got}")
        else:
            ctx.ok(got == want, "scenario-table", f"after {what}: {got} / {want}")
        grp = path.rsplit("/", 1)[0]
        if doc.get("scenario_combinations") is not None:
            t = h.get_node(("/" if v2 else grp + "/") + "scenario_combinations")
            if v2:
                got = [tuple(int(v) for v in x) for x in t.read()]
                ctx.ok(list(t.attrs.columns) == [s["name"] for s in sc], "scenario-table", "columns")
            else:
                got = [tuple(int(x[s["name"]]) for s in sc) for x in t.read()]
            ctx.ok(got == self.combos, "scenario-table", f"combinations {got} / {self.combos}")
        elif any(s.get("slice") is not None for s in sc):
            t = h.get_node(grp + "/scenario_slices")
            got = {x["name"].decode("utf-8"): list(range(int(x["start"]), int(x["stop"]), int(x["step"]))) for x in t.read()}
            want = {s["name"]: list(range(s["size"])[slice(*s["slice"])]) for s in sc if s.get("slice") is not None}
            ctx.ok(got == want, "scenario-table", f"slices {got} / {want}")
        if v2 and sc:
            t = h.get_node("/scenario_ensemble_names")
            got = [tuple(v.decode() if isinstance(v, bytes) else str(v) for v in x) for x in t.read()]
            want = [tuple(str(v) for v in x) for x in scen.labels(doc)]
            ctx.ok(got == want, "scenario-table", f"names {got} / {want}")

    def routes_check(self, what, d, f, h, n, trace, bad, listed):
        import tables

        ctx = self.ctx
        where = d.get("where", "/")
        try:
            rt = [(x["start"].decode(), x["end"].decode()) for x in h.get_node("/routes").read()]
            ca = h.get_node(where, "routes_flows").read()
        except tables.NoSuchNodeError as x:
            if not bad:
                ctx.bad("routes-missing", f"after {what}: {x}")
            return
        if bad:
            return
        ctx.ok(ca.shape == (n, len(rt)) + self.shape(n)[1:], "array-shape", f"routes {ca.shape}")
        ca = ca.reshape(n, len(rt), -1)
        for s in trace:
            row = ca[s["i"]]
            raw = self.routes.get(s["i"])
            if raw is not None:
                if not ctx.ok(np.array_equal(row, raw.T, equal_nan=True), "routes-flows", f"after {what}: step {s['i']} {row[:3]} / {raw.T[:3]}"):
                    return
            for k, nm in ((0, "Input"), (0, "Catchment"), (1, "Output")):
                for x, nd in self.nodes.items():
                    if nd["type"] != nm:
                        continue
                    rows = [i for i, q in enumerate(rt) if q[k] == x]
                    got = row[rows].sum(axis=0) if rows else np.zeros(row.shape[1])
                    if not ctx.ok(bool(np.all(np.abs(got - s["flow"][x]) <= 1e-6 * (1 + np.abs(got)))), "routes-flows", f"after {what}: step {s['i']} routes of {x} {got[:3]}, its flow {s['flow'][x][:3]}"):
                        return


def shrink(case):
    import copy

    yield from shrink_ops(case)
    for o in case["outs"]:
        if len(case["outs"]) > 1:
            c = copy.deepcopy(case)
            c["outs"].remove(o)
            del c["doc"]["recorders"][o]
            yield c
    for o in case["outs"]:
        for key in list(base(case["doc"], o)):
            if key not in ("type", "url", "scenario_index"):
                c = copy.deepcopy(case)
                del c["doc"]["recorders"][o][key]
                yield c
    for key, v in (("pre", None), ("path", None), ("short", 0), ("buffer", None), ("stepped", False), ("also", None)):
        if case.get(key):
            yield dict(case, **{key: v})
    if case["final"] not in ("run", "disk"):
        yield dict(case, final="run")
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
    keep = {f["comp"] for f in [case["fault"]]}
    yield from shrink_case(case, keep=set(case["outs"]) | keep)
