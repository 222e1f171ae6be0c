"""P09: the clock - every step once, in order, with its true fields - under any history of control calls."""
import copy
import datetime as dt

import numpy as np
import pandas as pd

from ..comps import Plan
from ..history import arm, disarm
from ..rng import mix
from ..world import World, note

N = {"quick": 3000, "thorough": 60000}
RULE = "a distinct sequence of clock control calls and steps, each compared with an independent clock"
STATE_MEASURE = "distinct (step length, operation, position, outcome) tuples"
REAL = "pywr Model, Timestepper, Timestep, node, parameter and recorder code, GLPK"
STUB = "input series and a fault component (vsim.comps)"

FREQS = [1, 1, 1, 2, 3, 5, 7, 10, 30, 31, "D", "1D", "2D", "7D", "10D", "M", "M", "W", "W", "W-WED", "Q", "6h", "60h", "39h", "td3", "td7"]


def gen_settings(r):
    y = r.pick([1999, 2000, 2001, 2003, 2004, 2011, 2012, 2100])
    f = r.pick(FREQS)
    if r.p(0.5):
        start = dt.date(y, 12, 31) - dt.timedelta(days=r.randint(0, 12))
    elif r.p(0.3):
        start = dt.date(y, 2, 29 if y % 4 == 0 and y != 2100 else 28) - dt.timedelta(days=r.randint(0, 5))
    else:
        start = dt.date(y, 1, 1) + dt.timedelta(days=r.randint(0, 364))
    n = r.pick([1, 2, 3, 5, 8, 12, 20])
    ln = {"M": 30, "W": 7, "W-WED": 7, "Q": 91, "6h": 0.25, "60h": 2.5, "39h": 1.625}.get(f)
    if ln is None:
        ln = f if isinstance(f, int) else int(f[2:]) if f.startswith("td") else int(f[:-1] or 1)
    end = start + dt.timedelta(days=int(n * ln) + r.pick([0, 0, -1, 1, 3]))
    if end < start:
        end = start
    return {"start": start.isoformat(), "end": end.isoformat(), "delta": f}


def gen(r, i, tier):
    s = gen_settings(r)
    ops = []
    for _ in range(r.randint(1, 7 if tier == "quick" else 12)):
        k = r.weighted({"run": 3, "step": 4, "reset": 2, "resetfrom": 3, "set": 2.5, "setall": 1.5, "abort": 2, "setup": 0.7, "past-end": 1, "outside": 0.6, "empty": 0.4})
        op = {"op": k}
        if k == "step":
            op["k"] = r.randint(1, 6)
        elif k == "resetfrom":
            op["frac"] = r.random()
            op["day"] = r.random()
            op["k"] = r.pick([0, 1, 2, 99])
        elif k == "set":
            n = gen_settings(r)
            op["what"] = r.pick(["start", "end", "delta"])
            op["shift"] = r.pick([-20, -7, -1, 1, 2, 7, 15, 40])
            op["delta"] = n["delta"]
            op["as"] = r.pick(["str", "timestamp", "datetime"])
        elif k == "setall":
            op["to"] = gen_settings(r)
        elif k == "abort":
            op["at"] = r.randint(0, 6)
            op["comp"] = r.pick(["fp", "fr"])
            op["phase"] = r.pick(["before", "after"] + (["value"] if op["comp"] == "fp" else []))
            op["exc"] = r.pick(["fault", "keyboard", "value", "memory"])
            op["how"] = r.pick(["run", "step"])
        ops.append(op)
    return {"settings": s, "ops": ops, "solver": r.pick(["glpk", "glpk", "glpk-edge", "lpsolve"]), "seed": r.randrange(1 << 30)}


def doc_of(s, seed):
    d = s["delta"]
    return {
        "metadata": {"title": "clock"},
        "timestepper": {"start": s["start"], "end": s["end"], "timestep": d if not str(d).startswith("td") else int(d[2:])},
        "nodes": [{"name": "a", "type": "Catchment", "flow": "f"}, {"name": "b", "type": "Output", "cost": -1.0, "max_flow": "fp"}],
        "edges": [["a", "b"]],
        "parameters": {"f": {"type": "simseries", "seed": seed, "lo": 1.0, "hi": 9.0, "mode": "iid"}, "fp": {"type": "simfault", "base": 50.0}},
        "recorders": {"r": {"type": "numpyarraynode", "node": "b"}, "fr": {"type": "simfault"}},
    }


def timeline(s):
    """Independent enumeration: [(start, length in days, calendar day)]."""
    start = dt.datetime.fromisoformat(s["start"])
    end = dt.datetime.fromisoformat(s["end"])
    f = s["delta"]
    out = []
    if f in ("M", "Q", "W", "W-WED"):
        if f == "M":
            t = start.replace(day=1)
        elif f == "Q":
            t = start.replace(day=1, month=(start.month - 1) // 3 * 3 + 1)
        else:
            first = 0 if f == "W" else 3            # the weekday a week begins on
            t = start - dt.timedelta(days=(start.weekday() - first) % 7)
        while t <= end:
            if f in ("M", "Q"):
                m = t.month - 1 + (1 if f == "M" else 3)
                nx = dt.datetime(t.year + m // 12, m % 12 + 1, 1)
            else:
                nx = t + dt.timedelta(days=7)
            out.append((t, (nx - t).days, nx - dt.timedelta(days=1)))
            t = nx
        return out
    if isinstance(f, int):
        h = 24 * f
    elif f.startswith("td"):
        h = 24 * int(f[2:])
    elif f.endswith("h"):
        h = int(f[:-1])
    else:
        h = 24 * int(f[:-1] or 1)
    t = start
    while t <= end:
        out.append((t, h / 24.0, t))
        t = t + dt.timedelta(hours=h)
    return out


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def check_step(ctx, ts, tl, k, where):
    start, days, cal = tl[k]
    doy = (cal - dt.datetime(cal.year, 1, 1)).days + 1
    di = doy - 1 + (1 if not leap(cal.year) and doy - 1 > 58 else 0)
    y2 = dt.datetime(start.year + 1, 1, 1)
    cur = min(days, (y2 - start).total_seconds() / 86400.0)
    want = {"index": k, "start": str(start), "days": days, "day": cal.day, "month": cal.month, "year": cal.year, "dayofyear": doy, "dayofyear_index": di,
            "week_index": min(di // 7, 51), "is_leap_year": leap(cal.year), "cur": round(cur, 6), "next": round(days - cur, 6)}
    got = {"index": ts.index, "start": str(ts.period.start_time.to_pydatetime()), "days": ts.days, "day": ts.day, "month": ts.month, "year": ts.year, "dayofyear": ts.dayofyear,
           "dayofyear_index": ts.dayofyear_index, "week_index": ts.week_index, "is_leap_year": bool(ts.is_leap_year), "cur": round(ts.days_in_current_year(), 6),
           "next": round(ts.days_in_next_year(), 6)}
    return ctx.ok(want == got, "step-fields", lambda: f"{where}: " + str({a: (got[a], want[a]) for a in want if got[a] != want[a]}) + " (reported, true)")


class Watch:
    """Collects the timestep every phase of every step is given."""

    def __init__(self, w):
        self.seen = []
        m = w.model
        fp, fr = m.parameters["fp"], m.recorders["fr"]
        self.log = Plan.log = []
        self.m = m
        nd = m.nodes["a"]
        ob, oa = nd.before, nd.after
        me = self

        def before(ts):
            me.seen.append(("before", ts))
            return ob(ts)

        def after(ts):
            me.seen.append(("after", ts))
            return oa(ts)

        nd.before, nd.after = before, after


def run(case, ctx):
    Plan.clear()
    s = dict(case["settings"])
    tl = timeline(s)
    if not tl:
        return
    w = World(doc_of(s, case["seed"]), solver=case["solver"], observe=False)
    m = w.model
    if str(s["delta"]).startswith("td"):
        m.timestepper.delta = dt.timedelta(days=int(s["delta"][2:]))
    watch = Watch(w)
    dirty = True          # the settings changed since the clock was last set up
    pos = 0
    total = 0

    def expect_steps(e, first, count, where, partial=None):
        """count complete steps from position first (partial: one more began and failed)"""
        nonlocal total
        got = watch.seen[:]
        watch.seen.clear()
        plan = []
        for k in range(first, first + count):
            plan += [("before", k), ("after", k)]
        if partial is not None:
            plan += [("before", partial[0])] + ([("after", partial[0])] if partial[1] else [])
        if not ctx.ok([(a, t.index) for a, t in got] == plan, "steps", lambda: f"{where} ({s}): saw {[(a, t.index, str(t.period)) for a, t in got]}, expected {plan}; {e!r}"):
            return False
        for a, t in got:
            if not check_step(ctx, t, tl, t.index, f"{where} {s}"):
                return False
        total += count
        ctx.steps += count
        ctx.days += sum(tl[k][1] for k in range(first, first + count))
        return True

    def check_recorder(first, count, where):
        df = m.recorders["r"].to_dataframe()
        starts = [p.start_time.to_pydatetime() for p in df.index]
        if not ctx.ok(starts == [t[0] for t in tl], "labels", lambda: f"{where}: labelled {starts} / {[t[0] for t in tl]}"):
            return False
        for k in range(first, first + count):
            v = 1.0 + 8.0 * mix(case["seed"], tl[k][0].toordinal(), 0)
            if not ctx.ok(abs(df.iloc[k, 0] - v) < 1e-6, "row", lambda: f"{where}: row {k} is {df.iloc[k, 0]}, the value of {tl[k][0]} is {v}"):
                return False
        idx = m.timestepper.datetime_index
        return ctx.ok(len(idx) == len(tl) and len(m.timestepper) == len(tl) and [p.start_time.to_pydatetime() for p in idx] == [t[0] for t in tl], "index", lambda: f"{where}: {list(idx)}")

    for op in case["ops"] + [{"op": "run"}]:
        k = op["op"]
        e = None
        where = f"op {k}"
        ctx.log(k, pos, len(tl), dirty, str(s["delta"]))
        ctx.state(str(s["delta"]), k, min(pos, 3), pos >= len(tl), dirty)
        if k in ("run",):
            e = w.run()
            if not ctx.ok(e is None, "run-failed:" + type(e).__name__, lambda: f"{s}: {e!r}"):
                return
            dirty = False
            if not expect_steps(e, 0, len(tl), where) or not check_recorder(0, len(tl), where):
                return
            pos = len(tl)
            if not ctx.ok(m.timestepper.current.index == len(tl), "current", lambda: f"{m.timestepper.current.index} after {len(tl)} steps"):
                return
        elif k in ("step", "past-end"):
            if dirty:
                dirty, pos = False, 0
            first, count = pos, 0
            for _ in range(op.get("k", len(tl) - pos + 2)):
                e = w.step()
                if pos >= len(tl):
                    if not ctx.ok(isinstance(e, StopIteration), "past-end", lambda: f"a step beyond the end of {s}: {e!r}"):
                        return
                    break
                if not ctx.ok(e is None, "step-failed:" + type(e).__name__, lambda: f"{s} at {pos}: {e!r}"):
                    return
                if not ctx.ok(m.timestepper.current.index == pos and m.timestep.index == pos, "current", lambda: f"{m.timestepper.current} after step {pos}"):
                    return
                pos += 1
                count += 1
            if not expect_steps(e, first, count, where) or not check_recorder(first, count, where):
                return
        elif k == "setup":
            e = w.setup()
            dirty, pos = False, 0
            if not ctx.ok(e is None, "setup-failed", repr(e)) or not expect_steps(e, 0, 0, where):
                return
        elif k == "reset":
            if dirty:
                continue
            e = w.reset()
            pos = 0
            if not ctx.ok(e is None and m.timestepper.current is None, "reset-failed", lambda: f"{e!r} {m.timestepper.current}"):
                return
        elif k in ("resetfrom", "outside"):
            if dirty:
                continue
            if k == "outside":
                d = dt.datetime.fromisoformat(s["start"]) - dt.timedelta(days=400)
                e = w.reset(start=pd.Timestamp(d))
                if not ctx.ok(isinstance(e, ValueError), "outside-accepted", lambda: f"reset to {d} of {s}: {e!r}"):
                    return
                e = w.reset()
                pos = 0
                continue
            q = int(op["frac"] * len(tl))
            d = tl[q][0] + dt.timedelta(hours=int(op["day"] * tl[q][1] * 24))
            e = w.reset(start=pd.Timestamp(d))
            if not ctx.ok(e is None, "reset-failed", lambda: f"reset to {d} of {s}: {e!r}"):
                return
            pos = q
            count = 0
            for _ in range(min(op["k"], len(tl) - q)):
                e = w.step()
                if not ctx.ok(e is None, "step-failed:" + type(e).__name__, lambda: f"{s} at {pos}: {e!r}"):
                    return
                pos += 1
                count += 1
            if not expect_steps(e, q, count, f"{where} {d}") or not check_recorder(q, count, where):
                return
        elif k in ("set", "setall"):
            new = dict(s)
            if k == "setall":
                new = dict(op["to"])
            elif op["what"] == "delta":
                new["delta"] = op["delta"]
            else:
                new[op["what"]] = (dt.datetime.fromisoformat(s[op["what"]]) + dt.timedelta(days=op["shift"])).date().isoformat()
            if not timeline(new) or len(timeline(new)) > 150 or new["start"] > new["end"]:
                continue
            s, tl = new, timeline(new)
            how = op.get("as", "str")
            conv = {"str": str, "timestamp": pd.Timestamp, "datetime": dt.datetime.fromisoformat}[how]
            for what in ("start", "end", "delta"):
                if k == "set" and what != op["what"]:
                    continue
                v = new[what]
                if what == "delta":
                    v = dt.timedelta(days=int(v[2:])) if str(v).startswith("td") else v
                else:
                    v = conv(v)
                setattr(m.timestepper, what, v)
            dirty = True
        elif k == "empty":
            s0, e0 = m.timestepper.start, m.timestepper.end
            m.timestepper.start, m.timestepper.end = e0 + pd.Timedelta(days=500), s0
            e = w.run()
            ctx.fault("empty-period")
            if not ctx.ok(e is not None, "empty-accepted", f"a period that ends before it starts ran: {watch.seen}") or not expect_steps(e, 0, 0, where):
                return
            m.timestepper.start, m.timestepper.end = s0, e0
            dirty = True
        elif k == "abort":
            at = op["at"]
            if op["how"] == "run":
                first, dirty = 0, False
            else:
                if dirty:
                    dirty, pos = False, 0
                first = pos
            arm(w, [{"comp": op["comp"], "phase": op["phase"], "at_ts": at, "exc": op["exc"]}])
            if op["how"] == "run":
                e = w.run()
            else:
                while pos < len(tl):
                    e = w.step()
                    if e is not None:
                        break
                    pos += 1
            fired = disarm()
            if fired:
                ctx.fault(f"{op['exc']}@{op['phase']}")
                # node phases come before component phases
                ok = expect_steps(e, first, at - first, where, (at, op["phase"] == "after"))
                pos = at + 1
                if not ok or not check_recorder(first, at - first, where):
                    return
                if not ctx.ok(m.timestepper.current.index == at, "current", lambda: f"{m.timestepper.current} after a failure in step {at}"):
                    return
            else:
                if not ctx.ok(e is None, "run-failed:" + type(e).__name__, lambda: f"{s}: {e!r}"):
                    return
                if not expect_steps(e, first, len(tl) - first, where):
                    return
                pos = len(tl)
    ctx.nontrivial = total > 0


def shrink(case):
    for i in range(len(case["ops"])):
        c = copy.deepcopy(case)
        del c["ops"][i]
        yield c
    if case["solver"] != "glpk":
        yield dict(case, solver="glpk")
