"""Loads a generated document into the real system, drives it and collects what it did."""
import copy
import json
import math

import numpy as np
import pandas as pd

from . import data
from .comps import Observer, Plan, FaultError


class SolverProxy:
    """Stands in front of the real solver: a fault point before and after each solve."""

    def __init__(self, real, label="__solver"):
        self.real = real
        self.label = label
        self.hook = None       # hook(when, model) called before/after solve
        self.solves = 0

    def setup(self, model):
        self.solves = 0
        return self.real.setup(model)

    def reset(self):
        return self.real.reset()

    def solve(self, model):
        Plan.hit(self.label, "before", model.timestepper.current.index)
        if self.hook:
            self.hook("before", model)
        self.solves += 1
        r = self.real.solve(model)
        if self.hook:
            self.hook("after", model)
        Plan.hit(self.label, "after", model.timestepper.current.index)
        return r

    def __getattr__(self, name):
        return getattr(self.real, name)


class World:
    def __init__(self, doc, solver="glpk", solver_args=None, path=None, observe=True, proxy=False, suffix=""):
        from pywr.core import Model

        doc = doc if doc.get("_own") else copy.deepcopy(doc)
        doc.pop("_own", None)
        if doc.get("_data"):
            path = data.write(doc["_data"])
        doc = strip(doc)
        kw = {}
        if "solver" not in doc:
            kw["solver"] = solver
            if solver_args:
                kw["solver_args"] = dict(solver_args)
        self.model = Model.load_from_dict(doc, path=path, **kw)
        self.proxy = None
        if proxy:
            self.proxy = SolverProxy(self.model.solver, "__solver" + suffix)
            self.model.solver = self.proxy
        self.obs = Observer(self.model) if observe else None

    @property
    def trace(self):
        return self.obs.trace

    def run(self):
        """Full run -> None or the exception it raised."""
        try:
            self.model.run()
        except BaseException as e:  # injected interrupts included
            return e
        return None

    def step(self):
        try:
            self.model.step()
        except BaseException as e:
            return e
        return None

    def setup(self):
        try:
            self.model.setup()
        except BaseException as e:
            return e
        return None

    def ready(self):
        """Back to the beginning, by whichever call a user needs for that."""
        return self.setup() if self.model.dirty or self.model.timestepper.dirty else self.reset()

    def reset(self, start=None):
        try:
            self.model.reset(start=start)
        except BaseException as e:
            return e
        return None


def strip(doc):
    """Removes the generator's annotations (keys starting with '_')."""
    if isinstance(doc, dict):
        return {k: strip(v) for k, v in doc.items() if not (isinstance(k, str) and k.startswith("_"))}
    if isinstance(doc, list):
        return [strip(v) for v in doc]
    return doc


def is_expected_stop(e):
    return isinstance(e, (FaultError, KeyboardInterrupt, SystemExit, MemoryError))


def rec_result(r):
    """Everything a recorder reports, as plain comparable data."""
    out = {}
    for what in ("values", "aggregated_value", "to_dataframe", "data", "fdc", "sdc", "fdc_deviations"):
        fn = getattr(type(r), what, None)
        if fn is None:
            continue
        try:
            v = getattr(r, what)
            if callable(v):
                v = v()
            if isinstance(v, tuple):
                v = v[0]
            if isinstance(v, pd.DataFrame):
                if what == "to_dataframe":
                    out["index"] = [str(x) for x in v.index]
                    out["columns"] = [str(x) for x in v.columns]
                cells = v.to_numpy()
                if cells.dtype == object or cells.dtype.kind in "MmUS":
                    out[what] = [[_cell(c) for c in row] for row in v.itertuples(index=False)]
                else:
                    out[what] = np.array(cells, dtype=float)
            elif isinstance(v, pd.Series):
                out[what] = np.array(v.to_numpy(), dtype=float)
            else:
                out[what] = np.array(v, dtype=float)
        except (NotImplementedError,) as e:
            out[what] = "NotImplemented"
        except Exception as e:  # compared as a result
            out[what] = "error:" + type(e).__name__
    return out


def _cell(c):
    if isinstance(c, (float, np.floating)):
        return float(c)
    if isinstance(c, (int, np.integer)):
        return int(c)
    return str(c)


def results(model, skip=("__observer",)):
    return {r.name: rec_result(r) for r in model.recorders if r.name not in skip}


def same(a, b, tol):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return False
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return False
        inf = ~fa & ~np.isnan(a)
        if np.any(a[inf] != b[inf]):
            return False
        if tol == 0:
            return bool(np.all(a[fa] == b[fb]))
        d = np.abs(a[fa] - b[fb])
        return bool(np.all(d <= tol * (1.0 + np.maximum(np.abs(a[fa]), np.abs(b[fb])))))
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))
    return a == b


def diff_results(a, b, tol=1e-6):
    if a.keys() != b.keys():
        return f"recorders differ: {sorted(a)} / {sorted(b)}"
    for n in a:
        x, y = a[n], b[n]
        if x.keys() != y.keys():
            return f"recorder {n}: attributes {sorted(x)} / {sorted(y)}"
        for w in x:
            if not same(x[w], y[w], tol):
                return f"recorder {n}.{w}: {brief(x[w])} / {brief(y[w])}"
    return None


def brief(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v.ravel()[:12], precision=9, separator=",", max_line_width=10000)
    return str(v)[:250]


def diff_trace(ta, tb, tol=1e-6, only=("flow", "vol", "pc", "pv", "pi", "prev"), perm=None, skip=()):
    """First difference between two traces (perm maps scenario columns of b onto a)."""
    if len(ta) != len(tb):
        return f"number of steps {len(ta)} / {len(tb)}"
    for x, y in zip(ta, tb):
        d = diff_snap(x, y, tol, only, perm, skip)
        if d:
            return d
    return None


def diff_snap(x, y, tol=1e-6, only=("flow", "vol", "pc", "pv", "pi", "prev"), perm=None, skip=()):
    if (x["i"], x["ord"]) != (y["i"], y["ord"]) or abs(x["days"] - y["days"]) > 1e-12:
        return f"clock {x['i']},{x['date']},{x['days']} / {y['i']},{y['date']},{y['days']}"
    for w in only:
        ax, ay = x[w], y[w]
        if ax.keys() != ay.keys():
            return f"{w} keys differ: {sorted(set(ax) ^ set(ay))}"
        for n in ax:
            if n in skip:
                continue
            p, q = ax[n], ay[n]
            if perm is not None:
                q = q[perm]
            if not same(np.asarray(p, float), np.asarray(q, float), tol):
                return f"step {x['i']} ({x['date']}) {w} of {n}: {brief(np.asarray(p, float))} / {brief(np.asarray(q, float))}"
    return None


def trace_digest(ctx, trace, nd=7):
    for s in trace:
        ctx.log(s["i"], s["date"], s["days"],
                {n: _r(v, nd) for n, v in s["flow"].items()},
                {n: _r(v, nd) for n, v in s["vol"].items()},
                {n: _r(v, nd) for n, v in s["pv"].items()})


def _r(v, nd):
    return [None if x != x else (x if abs(x) > 1e15 else round(float(x), nd) + 0.0) for x in v]


def note(ctx, world_trace):
    """Counts simulated time."""
    ctx.steps += len(world_trace)
    ctx.days += sum(s["days"] for s in world_trace)
    if world_trace:
        ctx.nontrivial = True
