"""What each in-memory recorder must report, folded from the trace of the run alone."""
import numpy as np
import pandas as pd

from .oracles import cal_date, close
from .scen import combos


def agg1(func, a, ignore_nan=False):
    """Aggregates a vector the way the documentation names it."""
    a = np.asarray(a, float)
    if ignore_nan:
        a = a[~np.isnan(a)]
        if len(a) == 0:
            return np.nan
    args, kw = [], {}
    if isinstance(func, dict):
        args, kw, func = func.get("args", []), func.get("kwargs", {}), func["func"]
    f = func.lower()
    with np.errstate(all="ignore"):
        if f == "sum":
            return float(a.sum())
        if f == "min":
            return float(a.min())
        if f == "max":
            return float(a.max())
        if f == "mean":
            return float(a.sum() / len(a))
        if f == "median":
            if np.isnan(a).any():
                return np.nan
            s = np.sort(a)
            m = len(s) // 2
            return float(s[m]) if len(s) % 2 else float((s[m - 1] + s[m]) / 2)
        if f == "product":
            return float(np.prod(a))
        if f == "count_nonzero":
            return float((a != 0).sum())
        if f == "percentile":
            return float(pct(a, [args[0] if args else kw["q"]])[0])
        if f == "percentileofscore":
            score = args[0] if args else kw["score"]
            kind = kw.get("kind", "rank")
            if np.isnan(a).any():
                return np.nan
            lt, le = (a < score).sum(), (a <= score).sum()
            n = len(a)
            if kind == "strict":
                return 100.0 * lt / n
            if kind == "weak":
                return 100.0 * le / n
            if kind == "mean":
                return 50.0 * (lt + le) / n
            return 50.0 * (lt + le + (1 if le > lt else 0)) / n
    raise KeyError(f)


def pct(a, qs):
    """Linear-interpolation percentiles of a vector."""
    s = np.sort(np.asarray(a, float))
    if np.isnan(s).any():
        return np.full(len(qs), np.nan)
    out = []
    for q in qs:
        x = (len(s) - 1) * q / 100.0
        k = int(np.floor(x))
        k2 = min(k + 1, len(s) - 1)
        out.append(s[k] if k == k2 or s[k] == s[k2] else s[k] + (s[k2] - s[k]) * (x - k))
    return np.array(out)


def agg2(func, data, ignore_nan=False):
    return np.array([agg1(func, data[:, j], ignore_nan) for j in range(data.shape[1])])


class RecRef:
    def __init__(self, doc, net, trace, pref, starts):
        """starts: (start, days) of every step of the whole period."""
        self.doc, self.net, self.tr, self.pref = doc, net, trace, pref
        self.starts = starts
        self.nc = len(combos(doc))
        self.recs = doc["recorders"]
        self.params = doc["parameters"]
        self.n = len(starts)
        self.whole = [s["i"] for s in trace] == list(range(self.n))

    # -- values at one step -----------------------------------------------------------
    def pv(self, name, t):
        if self.params[name]["type"] == "deficit":
            return self.pref.deficit(name, t + 1)
        return self.tr[t]["pv"][name]

    def maxflow(self, nm, t):
        return np.broadcast_to(self.net.val(self.tr[t], self.net.nodes[nm].get("max_flow"), np.inf), (self.nc,))

    def row(self, d, t):
        """What a per-step recorder stores at step t of the trace."""
        ty = d["type"]
        s = self.tr[t]
        if ty in ("numpyarraynode", "flowdurationcurve", "seasonalflowdurationcurve", "flowdurationcurvedeviation"):
            return s["flow"][d["node"]] * d.get("factor", 1.0)
        if ty == "numpyarraynodedeficit":
            return self.maxflow(d["node"], t) - s["flow"][d["node"]]
        if ty in ("numpyarraynodesuppliedratio", "numpyarraynodecurtailmentratio"):
            m = self.maxflow(d["node"], t)
            with np.errstate(all="ignore"):
                q = np.where(m == 0, 1.0, s["flow"][d["node"]] / np.where(m == 0, 1.0, m))
            return q if "supplied" in ty else np.where(m == 0, 0.0, 1.0 - q)
        if ty == "numpyarraynodecost":
            return np.broadcast_to(self.net.val(s, self.net.nodes[d["node"]].get("cost"), 0.0), (self.nc,))
        if ty in ("numpyarraystorage", "storagedurationcurve", "gaussiankdestorage"):
            return s["pc"][d["node"]] if d.get("proportional") or ty == "gaussiankdestorage" else s["vol"][d["node"]]
        if ty == "numpyarraynormalisedstorage":
            pc = np.asarray(s["pc"][d["node"]])
            cc = np.broadcast_to(self.pv(d["parameter"], t), (self.nc,))
            with np.errstate(all="ignore"):
                return np.where(pc < cc, pc / cc - 1.0, (pc - cc) / (1.0 - cc))
        if ty == "numpyarraylevel":
            return np.broadcast_to(self.net.val(s, self.net.nodes[d["node"]].get("level"), 0.0), (self.nc,))
        if ty == "numpyarrayarea":
            return np.broadcast_to(self.net.val(s, self.net.nodes[d["node"]].get("area"), 0.0), (self.nc,))
        if ty == "numpyarrayparameter":
            return self.pv(d["parameter"], t)
        if ty == "numpyarrayindexparameter":
            return np.asarray(s["pi"][d["parameter"]], float)
        if ty in ("hydropower", "totalhydroenergy"):
            te = d.get("turbine_elevation", 0.0)
            head = self.pv(d["water_elevation_parameter"], t) - te if d.get("water_elevation_parameter") else np.full(self.nc, te)
            return (d.get("density", 1000) * s["flow"][d["node"]] * d.get("flow_unit_conversion", 1.0) * 9.81 * np.maximum(head, 0.0) * d.get("efficiency", 1.0)
                    * d.get("energy_unit_conversion", 1e-6))
        if ty == "rollingmeanflownode":
            k = int(d["timesteps"]) if d.get("timesteps") else int(d["days"] // self.tr[0]["days"])
            return np.mean([self.tr[j]["flow"][d["node"]] for j in range(max(0, t - k + 1), t + 1)], axis=0)
        if ty == "rollingwindowparameter":
            k = d["window"]
            a = np.array([self.pv(d["parameter"], j) for j in range(max(0, t - k + 1), t + 1)])
            return agg2(d.get("temporal_agg_func", "mean"), a)
        return None

    def rows(self, d):
        """Array of the whole period, zero where nothing was simulated."""
        out = np.zeros((self.n, self.nc))
        for t, s in enumerate(self.tr):
            v = self.row(d, t)
            if v is None:
                return None
            out[s["i"]] = v
        return out

    # -- yearly ------------------------------------------------------------------------
    def cal(self, t):
        return cal_date(self.doc, self.starts[self.tr[t]["i"]][0])

    def annual_flow(self, d):
        first = pd.Timestamp(self.starts[0][0]).year
        last = pd.Timestamp(self.doc["timestepper"]["end"]).year
        out = np.zeros((last - first + 1, self.nc))
        for t, s in enumerate(self.tr):
            a = pd.Timestamp(self.starts[s["i"]][0])
            cut = pd.Timestamp(a.year + 1, 1, 1)
            days = s["days"]
            here = min(days, (cut - a) / pd.Timedelta(days=1))
            q = sum(s["flow"][nm] * f for nm, f in zip(d["nodes"], d.get("factors") or [1.0] * len(d["nodes"])))
            out[a.year - first] += q * here
            if days > here and a.year + 1 - first < len(out):
                out[a.year + 1 - first] += q * (days - here)
        return out

    def annual_count(self, d):
        first = pd.Timestamp(self.doc["timestepper"]["start"]).year
        end, step = pd.Timestamp(self.doc["timestepper"]["end"]), self.doc["timestepper"]["timestep"]
        last = (pd.Period(end, step).end_time if step in ("W", "M") else end).year
        out = np.zeros((last - first + 1, self.nc))
        for t, s in enumerate(self.tr):
            c = self.cal(t)
            if d.get("exclude_months") and c.month in d["exclude_months"]:
                continue
            lo, hi = 1, 366
            if d.get("include_from_month") is not None and d.get("include_from_day") is not None:
                lo = pd.Timestamp(c.year, d["include_from_month"], d["include_from_day"]).dayofyear
            if d.get("include_to_month") is not None and d.get("include_to_day") is not None:
                hi = pd.Timestamp(c.year, d["include_to_month"], d["include_to_day"]).dayofyear
            if not lo <= c.dayofyear <= hi:
                continue
            hit = np.zeros(self.nc, bool)
            for p in d["parameters"]:
                hit |= np.asarray(s["pi"][p]) >= d["threshold"]
            out[c.year - first] += hit
        return out

    # -- everything a recorder reports ------------------------------------------------------
    def data(self, name):
        d = self.recs[name]
        ty = d["type"]
        if ty == "annualtotalflow":
            return self.annual_flow(d)
        if ty == "annualcountindexthreshold":
            return self.annual_count(d)
        if ty == "numpyarraydailyprofileparameter":
            out = np.zeros((366, self.nc))
            for t in range(len(self.tr)):
                c = self.cal(t)
                i = c.dayofyear - 1
                if not c.is_leap_year and i > 58:
                    i += 1
                out[i] = self.pv(d["parameter"], t)
            return out
        if ty == "totalhydroenergy":
            return None
        return self.rows(d)

    def curve(self, name):
        """Duration curve (percentile rows) of a finished whole run."""
        d = self.recs[name]
        a = self.rows(d)
        if d["type"] == "seasonalflowdurationcurve":
            m = [cal_date(self.doc, s[0]).month in d["months"] for s in self.starts]
            if not any(m):
                return None
            a = a[np.array(m)]
        return np.array([pct(a[:, j], d["percentiles"]) for j in range(self.nc)]).T

    def deviations(self, name):
        d = self.recs[name]
        fdc = self.curve(name)
        out = np.empty_like(fdc)
        sc = [s["name"] for s in self.doc.get("scenarios", [])]
        for j, c in enumerate(combos(self.doc)):
            k = c[sc.index(d["scenario"])] if d.get("scenario") else j
            for i in range(len(d["percentiles"])):
                best = 0.0
                for key, sign in (("upper_target_fdc", 1), ("lower_target_fdc", -1)):
                    if d.get(key) is None:
                        continue
                    tg = d[key][i]
                    tg = tg if not isinstance(tg, list) else tg[k if len(tg) > 1 else 0]
                    best = max(best, sign * (fdc[i, j] - tg) / tg)
                out[i, j] = best
        return out

    def values(self, name):
        """Value per scenario, or None where the recorder declares none."""
        d = self.recs[name]
        ty = d["type"]
        nan = d.get("ignore_nan", False)
        if ty == "rollingmeanflownode":
            return None
        if ty == "node":
            return self.tr[-1]["flow"][d["node"]] if self.tr else None
        if ty == "storage":
            return self.tr[-1]["vol"][d["node"]] if self.tr else None
        if ty == "totalflownode":
            return sum((s["flow"][d["node"]] * s["days"] for s in self.tr), np.zeros(self.nc)) * d.get("factor", 1.0)
        if ty == "meanflownode":
            return sum((s["flow"][d["node"]] for s in self.tr), np.zeros(self.nc)) * d.get("factor", 1.0) / max(1, len(self.tr))
        if ty == "totaldeficitnode":
            return sum(((self.maxflow(d["node"], t) - s["flow"][d["node"]]) * s["days"] for t, s in enumerate(self.tr)), np.zeros(self.nc))
        if ty == "deficitfrequencynode":
            return sum(((np.abs(self.maxflow(d["node"], t) - s["flow"][d["node"]]) > 1e-6).astype(float) for t, s in enumerate(self.tr)), np.zeros(self.nc)) / max(1, len(self.tr))
        if ty == "minimumvolumestorage":
            return np.min([s["vol"][d["node"]] for s in self.tr], axis=0) if self.tr else np.full(self.nc, np.inf)
        if ty == "minimumthresholdvolumestorage":
            return np.any([np.asarray(s["vol"][d["node"]]) <= d["threshold"] for s in self.tr], axis=0).astype(float) if self.tr else np.zeros(self.nc)
        if ty == "timestepcountindexparameter":
            return sum(((np.asarray(s["pi"][d["parameter"]]) >= d["threshold"]).astype(float) for s in self.tr), np.zeros(self.nc))
        if ty == "annualcountindexparameter":
            years = {}
            for t, s in enumerate(self.tr):
                y = self.cal(t).year
                years[y] = np.maximum(years.get(y, np.zeros(self.nc)), s["pi"][d["parameter"]])
            return sum(((v >= d["threshold"]).astype(float) for v in years.values()), np.zeros(self.nc))
        if ty in ("totalparameter", "meanparameter"):
            out = sum((self.pv(d["parameter"], t) * (s["days"] if d.get("integrate") else 1.0) for t, s in enumerate(self.tr)), np.zeros(self.nc)) * d.get("factor", 1.0)
            return out if ty == "totalparameter" else out / max(1, len(self.tr))
        if ty == "totalhydroenergy":
            return sum((self.row(d, t) * s["days"] for t, s in enumerate(self.tr)), np.zeros(self.nc))
        if ty == "aggregated":
            vs = [self.values(x) for x in d["recorders"]]
            if any(v is None or np.isnan(v).any() for v in vs):
                return None
            return agg2(d.get("recorder_agg_func", d.get("agg_func")), np.array(vs))
        if ty in ("annualtotalflow", "annualcountindexthreshold"):
            return agg2(d.get("temporal_agg_func", "sum"), self.data(name), nan)
        if ty in ("rollingwindowparameter", "numpyarrayindexparameter", "event", "eventduration", "eventstatistic", "gaussiankdestorage", "simfault"):
            return None
        # statistics over every step of the period need the whole period
        if not self.whole and ty != "numpyarraydailyprofileparameter":
            return None
        func = d.get("temporal_agg_func", d.get("fdc_agg_func", d.get("sdc_agg_func", "mean")))
        if ty in ("flowdurationcurve", "seasonalflowdurationcurve", "storagedurationcurve"):
            c = self.curve(name)
        elif ty == "flowdurationcurvedeviation":
            c = self.deviations(name)
        else:
            c = self.data(name)
        return None if c is None else agg2(func, c, nan)


def check_recorders(ref, model, ctx, skip=(), upto=None, totals=True, tol=1e-6):
    """Every recorder of the document against its fold. upto: rows from this step index on are not judged."""
    idx = pd.DatetimeIndex([pd.Timestamp(s[0]) for s in ref.starts])
    for name, d in ref.recs.items():
        ty = d["type"]
        if name in skip or ty == "simfault" or ty.startswith("event"):
            continue
        rec = model.recorders[name]
        want = None
        if ty not in ("node", "storage"):
            want = ref.data(name)
        if want is not None:
            have = np.asarray(rec.data, float)
            ctx.probe("rec:" + ty)
            if not ctx.ok(have.shape == want.shape, f"shape:{ty}", lambda: f"{name} ({ty}): {have.shape} / {want.shape}"):
                return False
            if upto is not None and ty.startswith(("annual", "numpyarraydaily")):
                pass
            else:
                k = len(want) if upto is None else upto
                if not ctx.ok(close(have[:k], want[:k], tol), f"series:{ty}", lambda: f"{name} ({ty}): first difference at row {first(have, want)}: {have[first(have, want)]} / {want[first(have, want)]}"):
                    return False
            if hasattr(type(rec), "to_dataframe") and ty not in ("gaussiankdestorage", "flowdurationcurve", "seasonalflowdurationcurve", "storagedurationcurve", "flowdurationcurvedeviation"):
                df = rec.to_dataframe()
                if not ctx.ok(df.shape == have.shape and close(df.to_numpy(float), have, 0), f"frame:{ty}", lambda: f"{name} ({ty}): the data frame differs from the data"):
                    return False
                if len(want) == ref.n and not ty.startswith(("annual", "numpyarraydaily")):
                    dt = df.index.to_timestamp() if isinstance(df.index, pd.PeriodIndex) else df.index
                    if not ctx.ok(list(dt) == list(idx), f"frame-dates:{ty}", lambda: f"{name} ({ty}): {list(df.index)[:3]} / {list(idx)[:3]}"):
                        return False
                if ty.startswith("annual"):
                    y0 = pd.Timestamp(ref.starts[0][0]).year if ty == "annualtotalflow" else pd.Timestamp(ref.doc["timestepper"]["start"]).year
                    ys = [x.year for x in df.index]
                    if not ctx.ok(ys == list(range(y0, y0 + len(want))), f"frame-years:{ty}", lambda: f"{name}: {ys}"):
                        return False
        if not totals:
            continue
        if ref.whole and upto is None:
            if ty in ("flowdurationcurve", "seasonalflowdurationcurve", "storagedurationcurve", "flowdurationcurvedeviation"):
                c = ref.curve(name)
                if c is None:
                    continue
                have = np.asarray(rec.sdc if ty == "storagedurationcurve" else rec.fdc, float)
                ctx.probe("rec:" + ty + ".curve")
                if not ctx.ok(have.shape == c.shape and close(have, c, tol), f"curve:{ty}", lambda: f"{name} ({ty}): {have} / {c}"):
                    return False
                if ty == "flowdurationcurvedeviation":
                    v, h = ref.deviations(name), np.asarray(rec.fdc_deviations, float)
                    if not ctx.ok(h.shape == v.shape and close(h, v, tol), f"curve:{ty}.deviation", lambda: f"{name} ({ty}): {h} / {v}"):
                        return False
            if ty == "gaussiankdestorage":
                check_kde(ref, name, rec, ctx)
                continue
        elif ty in ("flowdurationcurve", "seasonalflowdurationcurve", "storagedurationcurve", "flowdurationcurvedeviation", "gaussiankdestorage"):
            continue
        if upto is not None and (ty.startswith(("numpyarray", "annual")) or ty in ("node", "storage", "aggregated")):
            continue
        v = ref.values(name)
        if v is None:
            continue
        have = np.asarray(rec.values(), float)
        ctx.probe("rec:" + ty + ".values")
        if not ctx.ok(have.shape == np.shape(v) and close(have, v, tol), f"values:{ty}", lambda: f"{name} ({ty}): {have} / {np.asarray(v)}"):
            return False
        if np.isinf(v).any():
            continue
        a = agg1(d.get("agg_func", "mean"), v, d.get("ignore_nan", False))
        got = rec.aggregated_value()
        if not ctx.ok(close(got, a, tol), f"aggregated:{ty}", lambda: f"{name} ({ty}, {d.get('agg_func')}): {got} / {a}"):
            return False
    return True


def check_kde(ref, name, rec, ctx):
    from scipy.stats import norm

    d = ref.recs[name]
    x = ref.rows(d).ravel()
    sd = np.std(x, ddof=1) if len(x) > 1 else 0.0
    if not sd > 1e-9:
        return
    h = sd * len(x) ** (-1.0 / 5)
    tg = d["target_volume_pc"]

    def prob(c):
        return float(np.mean(norm.cdf((tg - c) / h) - norm.cdf((0.0 - c) / h)))

    p = prob(x)
    if d.get("use_reflection", True):
        p += prob(-x) + prob(2.0 - x)
    ctx.probe("rec:gaussiankdestorage")
    ctx.ok(close(rec.aggregated_value(), p, 1e-6), "values:gaussiankdestorage", lambda: f"{name}: {rec.aggregated_value()} / {p}")


def first(a, b):
    for i in range(min(len(a), len(b))):
        if not close(a[i], b[i], 1e-7):
            return i
    return 0
