"""What each parameter must be worth at a step, from what was simulated: its operands' values in the
same step and the flows and volumes at the end of the previous step of the same run."""
import math

import numpy as np

from .oracles import initial_volume
from .scen import combos, input_value

AGG = {
    "sum": lambda a: np.sum(a, axis=0), "min": lambda a: np.min(a, axis=0), "max": lambda a: np.max(a, axis=0),
    "mean": lambda a: np.mean(a, axis=0), "median": lambda a: np.median(a, axis=0), "product": lambda a: np.prod(a, axis=0),
}

# kinds whose value rests on earlier steps (or the volume a step starts with)
FEEDBACK = {
    "flow", "flowdelay", "rollingmeanflownode", "interpolatedflow", "deficit", "nodethreshold", "storagethreshold", "recorderthreshold",
    "multiplethresholdindex", "storage", "interpolatedvolume", "controlcurve", "controlcurveindex", "controlcurveinterpolated",
    "controlcurvepiecewiseinterpolated", "polynomial2dstorage",
}
# how to tell same-step operands (parameter names) of a definition
OPERANDS = ("parameter", "parameters", "params", "control_curves", "index_parameter", "numerator", "denominator", "profile", "threshold", "thresholds",
            "upper_parameter", "lower_parameter", "base")


def compare(pred, x, y):
    p = (pred or "LT").upper()
    if p in ("LT", "<"):
        return x < y
    if p in ("GT", ">"):
        return x > y
    if p in ("LE", "<="):
        return x <= y
    if p in ("GE", ">="):
        return x >= y
    return x == y


def lerp(cur, lo, hi, vlo, vhi):
    """Between (lo, vlo) and (hi, vhi), held at the ends."""
    out = np.empty_like(cur)
    for i in range(len(cur)):
        l, h = lo[i], hi[i]
        if cur[i] <= l:
            out[i] = vlo
        elif cur[i] >= h:
            out[i] = vhi
        else:
            out[i] = vlo + (vhi - vlo) * (cur[i] - l) / (h - l)
    return out


class ParamRef:
    def __init__(self, doc, net, trace, nsteps_days=None):
        self.doc, self.net, self.tr = doc, net, trace
        self.params = doc["parameters"]
        self.nc = len(combos(doc))
        self.combos = combos(doc)
        self.trig = {}
        self.trig_upto = {}
        from .gen import timestep_starts

        self.starts = [s for s, _ in timestep_starts(doc["timestepper"])]

    # -- the past --------------------------------------------------------------------
    def prev(self, node, t):
        return self.tr[t - 1]["flow"][node] if t > 0 else np.zeros(self.nc)

    def vol0(self, node, t):
        if t > 0:
            return self.tr[t - 1]["vol"][node]
        nd = self.net.nodes[node]
        if nd["type"].lower() == "aggregatedstorage":
            return np.full(self.nc, sum(initial_volume(self.net.nodes[m], self.params) for m in nd["storage_nodes"]))
        return np.full(self.nc, initial_volume(nd, self.params))

    def pc0(self, node, t, raw=False):
        """Percentage a step starts with, as control curves see it."""
        if t > 0:
            pc = self.tr[t - 1]["pc"][node]
        else:
            nd = self.net.nodes[node]
            if nd["type"].lower() == "aggregatedstorage":
                mx = []
                for m in nd["storage_nodes"]:
                    x = self.net.nodes[m]["max_volume"]
                    if isinstance(x, str):
                        if self.params[x]["type"] != "constant":
                            x = self.net.nodes[m]["initial_volume"] / self.net.nodes[m]["initial_volume_pc"]
                        else:
                            x = self.params[x]["value"]
                    mx.append(x)
                pc = self.vol0(node, 0) / sum(mx)
            elif "initial_volume_pc" in nd:
                pc = np.full(self.nc, float(nd["initial_volume_pc"]))
            else:
                mx = nd["max_volume"]
                if isinstance(mx, str):
                    if self.params[mx]["type"] != "constant":
                        return None
                    mx = self.params[mx]["value"]
                pc = np.full(self.nc, initial_volume(nd, self.params) / mx)
        if raw:
            return pc
        pc = np.where(np.isnan(pc), 1.0, pc)
        return np.clip(pc, 0.0, 1.0)

    # -- operands ----------------------------------------------------------------------
    def val(self, spec, t):
        if isinstance(spec, str):
            if self.params[spec]["type"] == "deficit":
                return self.deficit(spec, t)
            return self.tr[t]["pv"][spec]
        return np.full(self.nc, float(spec))

    def deficit(self, name, t):
        nd = self.params[name]["node"]
        if t == 0:
            return np.zeros(self.nc)
        return self.net.val(self.tr[t - 1], self.net.nodes[nd].get("max_flow"), np.inf) - self.tr[t - 1]["flow"][nd]

    def rec_prev(self, rec, t):
        d = self.doc["recorders"][rec]
        ty = d["type"]
        if ty == "numpyarraynode":
            return self.tr[t - 1]["flow"][d["node"]] * d.get("factor", 1.0)
        if ty == "numpyarraystorage" and not d.get("proportional"):
            return self.tr[t - 1]["vol"][d["node"]]
        if ty == "numpyarrayparameter" and self.params[d["parameter"]]["type"] != "deficit":
            return self.tr[t - 1]["pv"][d["parameter"]]
        return None

    # -- index parameters ----------------------------------------------------------------
    def raw(self, name, t):
        """Index a threshold has before its ratchet, with whether anything was compared."""
        d = self.params[name]
        ty = d["type"]
        if ty == "nodethreshold":
            if t == 0:
                return np.zeros(self.nc, bool), False
            x = self.prev(d["node"], t)
        elif ty == "storagethreshold":
            x = self.vol0(d["storage_node"], t)
        elif ty == "parameterthreshold":
            x = self.val(d["parameter"], t)
        elif ty == "recorderthreshold":
            if t == 0:
                return np.full(self.nc, bool(d.get("initial_value", 1))), False
            x = self.rec_prev(d["recorder"], t)
            if x is None:
                return None, False
        else:
            return None, False
        return compare(d.get("predicate"), x, self.val(d["threshold"], t)), True

    def triggered(self, name, t):
        """Whether a ratchet had been triggered before step t."""
        have = self.trig.setdefault(name, [np.zeros(self.nc, bool)])
        while len(have) <= t:
            k = len(have) - 1
            raw, counted = self.raw(name, k)
            have.append(have[-1] | raw if counted else have[-1])
        return have[t]

    def index(self, name, t):
        d = self.params[name]
        ty = d["type"]
        if ty in ("nodethreshold", "storagethreshold", "parameterthreshold", "recorderthreshold"):
            r, counted = self.raw(name, t)
            if r is None:
                return None
            if d.get("ratchet") and counted:
                r = r | self.triggered(name, t)
            return r.astype(int)
        if ty in ("currentyearthreshold", "currentordinaldaythreshold"):
            from .oracles import cal_date

            start = self.start(t)
            x = cal_date(self.doc, start).year if ty == "currentyearthreshold" else start.toordinal()
            return np.full(self.nc, int(compare(d.get("predicate"), float(x), float(d["threshold"]))))
        if ty in ("multiplethresholdindex", "multiplethresholdparameterindex"):
            x = self.prev(d["node"], t) if ty == "multiplethresholdindex" else self.val(d["parameter"], t)
            th = d["thresholds"]
            out = np.full(self.nc, len(th))
            for j in reversed(range(len(th))):
                out = np.where(x >= self.val(th[j], t), j, out)
            return out
        if ty == "controlcurveindex":
            pc = self.pc0(d["storage_node"], t)
            if pc is None:
                return None
            cc = d["control_curves"]
            out = np.full(self.nc, len(cc))
            for j in reversed(range(len(cc))):
                out = np.where(pc >= self.val(cc[j], t), j, out)
            return out
        if ty == "aggregatedindex":
            a = np.array([self.tr[t]["pi"][p] for p in d["parameters"]])
            f = d["agg_func"]
            if f == "any":
                return (a != 0).any(axis=0).astype(int)
            if f == "all":
                return (a != 0).all(axis=0).astype(int)
            return AGG[f](a).astype(int)
        if ty == "constantscenarioindex":
            return np.array([input_value(self.doc, name, t, None, c) for c in self.combos]) if False else None
        return None

    def start(self, t):
        import pandas as pd

        return pd.Timestamp.fromordinal(self.tr[t]["ord"])

    # -- values ------------------------------------------------------------------------------
    def expected(self, name, t):
        """(values, indices) expected of a parameter at step t; None where nothing is said."""
        d = self.params[name]
        ty = d["type"]
        if name in self.tr[t]["pi"]:
            ix = self.index(name, t)
            if ix is None:
                return None, None
            if "threshold" in ty and not ty.startswith("multiple"):
                v = np.asarray(d["values"], float)[ix] if d.get("values") is not None else np.full(self.nc, np.nan)
            else:
                v = ix.astype(float)
            return v, ix
        return self.value(name, d, ty, t), None

    def value(self, name, d, ty, t):
        V = lambda k: self.val(d[k], t)
        if ty == "aggregated":
            return AGG[d["agg_func"]](np.array([self.val(p, t) for p in d["parameters"]]))
        if ty == "max":
            return np.maximum(V("parameter"), d.get("threshold", 0.0))
        if ty == "min":
            return np.minimum(V("parameter"), d.get("threshold", 0.0))
        if ty == "negativemax":
            return np.maximum(-V("parameter"), d.get("threshold", 0.0))
        if ty == "negativemin":
            return np.minimum(-V("parameter"), d.get("threshold", 0.0))
        if ty == "negative":
            return -V("parameter")
        if ty == "offset":
            return V("parameter") + d.get("offset", 0.0)
        if ty == "division":
            with np.errstate(all="ignore"):
                return V("numerator") / V("denominator")
        if ty == "scaledprofile":
            return d["scale"] * V("profile")
        if ty == "simfault":
            return V("base")
        if ty == "indexedarray":
            ix = self.tr[t]["pi"][d["index_parameter"]]
            a = np.array([self.val(p, t) for p in d.get("parameters", d.get("params"))])
            return a[ix, np.arange(self.nc)]
        if ty == "scenariowrapper":
            k = [s["name"] for s in self.doc["scenarios"]].index(d["scenario"])
            return np.array([self.val(d["parameters"][c[k]], t)[i] for i, c in enumerate(self.combos)])
        if ty == "interpolated":
            return np.interp(V("parameter"), d["x"], d["y"])
        if ty == "interpolatedquadrature":
            b = V("upper_parameter")
            a = V("lower_parameter") if d.get("lower_parameter") is not None else np.zeros(self.nc)
            return np.array([self.area(d["x"], d["y"], b[i]) - self.area(d["x"], d["y"], a[i]) for i in range(self.nc)])
        if ty == "piecewiseintegral":
            return np.array([self.steps_area(d["x"], d["y"], x) for x in V("parameter")])
        if ty == "polynomial1d":
            if "parameter" in d:
                x = V("parameter")
            elif "storage_node" in d:
                x = self.pc0(d["storage_node"], t) if d.get("use_proportional_volume") else self.vol0(d["storage_node"], t)
                if x is None:
                    return None
            else:
                x = self.prev(d["node"], t)
            x = x * d.get("scale", 1.0) + d.get("offset", 0.0)
            return sum(c * x ** i for i, c in enumerate(d["coefficients"]))
        if ty == "polynomial2dstorage":
            x = self.pc0(d["storage_node"], t) if d.get("use_proportional_volume") else self.vol0(d["storage_node"], t)
            if x is None:
                return None
            x = x * d.get("storage_scale", 1.0) + d.get("storage_offset", 0.0)
            y = V("parameter") * d.get("parameter_scale", 1.0) + d.get("parameter_offset", 0.0)
            return sum(c * x ** i * y ** j for i, row in enumerate(d["coefficients"]) for j, c in enumerate(row))
        if ty == "flow":
            return np.full(self.nc, float(d.get("initial_value", 0.0))) if t == 0 else self.prev(d["node"], t)
        if ty == "deficit":
            return None  # what it shows after the step is checked through its recorder
        if ty == "flowdelay":
            n = d.get("timesteps", 0)
            if d.get("days", 0):
                n = int(round(d["days"] / self.tr[0]["days"]))
            return self.tr[t - n]["flow"][d["node"]] if t >= n else np.full(self.nc, float(d.get("initial_flow", 0.0)))
        if ty == "rollingmeanflownode":
            n = int(d["timesteps"]) if d.get("timesteps") else int(d["days"] // self.tr[0]["days"])
            if t == 0:
                return np.full(self.nc, float(d.get("initial_flow", 0.0)))
            return np.mean([self.tr[k]["flow"][d["node"]] for k in range(max(0, t - n), t)], axis=0)
        if ty == "interpolatedflow":
            return np.interp(self.prev(d["node"], t), d["flows"], d["values"])
        if ty == "interpolatedvolume":
            return np.interp(self.vol0(d["node"], t), d["volumes"], d["values"])
        if ty == "storage":
            if not d.get("use_proportional_volume"):
                return self.vol0(d["storage_node"], t)
            return self.pc0(d["storage_node"], t, raw=True)
        if ty in ("controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated"):
            pc = self.pc0(d["storage_node"], t)
            if pc is None:
                return None
            cc = np.array([self.val(c, t) for c in d["control_curves"]])
            n = len(cc)
            if ty == "controlcurvepiecewiseinterpolated":
                return self.cc_piecewise(d, pc, cc)
            if "values" in d:
                vals = np.array([np.full(self.nc, float(v)) for v in d["values"]])
            elif "parameters" in d:
                vals = np.array([self.val(p, t) for p in d["parameters"]])
            else:
                vals = np.array([np.full(self.nc, float(k)) for k in range(n + 1)])
            out = np.empty(self.nc)
            for i in range(self.nc):
                level = next((j for j in range(n) if pc[i] >= cc[j, i]), n)
                if ty == "controlcurve":
                    out[i] = vals[level, i]
                    continue
                hi = 1.0 if level == 0 else cc[level - 1, i]
                lo = 0.0 if level == n else cc[level, i]
                if hi == lo:
                    out[i] = vals[level + 1, i] if level < n else vals[-2, i]
                else:
                    w = (pc[i] - lo) / (hi - lo)
                    out[i] = vals[level, i] * w + vals[level + 1, i] * (1 - w)
            return out
        if ty == "discountfactor":
            from .oracles import cal_date

            return np.full(self.nc, 1.0 / (1.0 + d["rate"]) ** (cal_date(self.doc, self.start(t)).year - d["base_year"]))
        if ty == "annualharmonicseries":
            from .oracles import cal_date

            doy = cal_date(self.doc, self.start(t)).dayofyear - 1
            return np.full(self.nc, d["mean"] + sum(a * math.cos(doy * (i + 1) * 2 * math.pi / 365 + p) for i, (a, p) in enumerate(zip(d["amplitudes"], d["phases"]))))
        if ty == "weightedaverageprofile":
            tot, acc = 0.0, np.zeros(self.nc)
            for s, p in zip(d["storages"], d["profiles"]):
                mx = self.net.nodes[s]["max_volume"]
                mx = self.params[mx]["value"] if isinstance(mx, str) else mx
                acc = acc + mx * self.val(p, t)
                tot += mx
            return acc / tot
        if ty == "arrayindexed":
            return np.full(self.nc, d["values"][self.tr[t]["i"]])
        # pure inputs
        try:
            v = [input_value(self.doc, name, self.tr[t]["i"], self.start(t), c) for c in self.combos]
        except (IndexError, KeyError):
            return None
        return None if any(x is None for x in v) else np.array(v, float)

    def cc_piecewise(self, d, pc, cc):
        n = len(cc)
        v = d["values"]
        out = np.empty(self.nc)
        for i in range(self.nc):
            level = next((j for j in range(n) if pc[i] >= cc[j, i]), n)
            hi = d.get("maximum", 1.0) if level == 0 else cc[level - 1, i]
            lo = d.get("minimum", 0.0) if level == n else cc[level, i]
            out[i] = lerp(pc[i:i + 1], [lo], [hi], v[level][1], v[level][0])[0]
        return out

    @staticmethod
    def area(x, y, b):
        """Integral of the piecewise linear curve (x, y) from x[0] to b."""
        a = 0.0
        for k in range(len(x) - 1):
            if b <= x[k]:
                break
            e = min(b, x[k + 1])
            ye = y[k] + (y[k + 1] - y[k]) * (e - x[k]) / (x[k + 1] - x[k])
            a += (y[k] + ye) / 2 * (e - x[k])
        return a

    @staticmethod
    def steps_area(x, y, b):
        a, p = 0.0, 0.0
        for k in range(len(x)):
            e = min(b, x[k])
            if e < p:
                break
            a += (e - p) * y[k]
            p = x[k]
        return a


def check_params(ref, ctx, kinds=None, skip=(), tol=1e-8, tag=""):
    """Every parameter's value at every step of the trace against its definition."""
    from .oracles import close

    for t, s in enumerate(ref.tr):
        for name in s["pv"]:
            d = ref.params.get(name)
            if d is None or name in skip or (kinds and d["type"] not in kinds):
                continue
            v, ix = ref.expected(name, t)
            if v is None:
                continue
            ctx.probe("param:" + d["type"])
            if ix is not None and not ctx.ok(np.array_equal(np.asarray(s["pi"][name]), np.asarray(ix)), f"param-index:{d['type']}{tag}",
                                             lambda: f"step {t} {s['date']} {name} ({d['type']}): index {np.asarray(s['pi'][name])} / expected {ix}"):
                return False
            if not ctx.ok(close(s["pv"][name], v, tol), f"param-value:{d['type']}{tag}",
                          lambda: f"step {t} {s['date']} {name} ({d['type']}): value {np.asarray(s['pv'][name])} / expected {np.asarray(v)}"):
                return False
    return True
