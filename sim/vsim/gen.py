"""Seeded generator of complete pywr documents, and their shrinker.

Documents are feasible by construction (unless mode "wild"): every fixed inflow
reaches an unbounded outlet, and limits are only placed on flows that may be zero.
Costs are distinct random numbers so that optima are (almost surely) unique.
Keys starting with "_" are annotations for the oracles and are stripped on load.
"""
import copy

import pandas as pd

DEFAULTS = dict(
    steps=(6, 30), freqs=("1", "1", "1", "2", "5", "7", "10", "M", "W", "7D"), dims=(0, 2), max_combos=6,
    comb=0.3, slices=0.35, links=True, piecewise=True, splits=True, gauges=True, loss=True, delay=True, breaklink=True,
    storages=(0, 2), vstor=(0, 2), vkinds=("virtual", "rolling", "annual", "seasonal", "monthly"), agg=0.6, aggstor=0.4,
    works=0.4, stateful=0.7, recs=(3, 8), files=False, multidomain=0.2, varcost=0.3, params=None, reckinds=None,
    reaches=(1, 3), faultparams=0.0, long=0.15, demands=(1, 2), scen_series=0.6, events=0.2, minflow=0.3,
    compound_agg=0.2, shuffle=0.5, licences=0.35, yearedge=0.3, varmax=0.15, data=0.0,
)

FIXED_INDEX = ("simindex", "constantscenarioindex", "nodethreshold", "storagethreshold", "parameterthreshold",
               "controlcurveindex", "recorderthreshold", "multiplethresholdindex", "multiplethresholdparameterindex",
               "currentyearthreshold", "currentordinaldaythreshold", "aggregatedindex")


def timestep_starts(ts):
    """Independent enumeration of the step starts and lengths of a timestepper document."""
    start, end = pd.Timestamp(ts["start"]), pd.Timestamp(ts["end"])
    d = ts["timestep"]
    out = []
    if isinstance(d, int):
        t = start
        while t <= end:
            out.append((t, float(d)))
            t = t + pd.Timedelta(days=d)
        return out
    per = pd.period_range(start, end, freq=d)
    for p in per:
        out.append((p.start_time, (p.end_time - p.start_time).total_seconds() / 86400.0))
    return out


class G:
    def __init__(self, r, **opt):
        self.r = r
        self.o = dict(DEFAULTS)
        self.o.update(opt)
        self.sfx = self.o.get("suffix", "")
        self.nodes, self.edges, self.params, self.recs = [], [], {}, {}
        self.scen = []
        self.n = 0
        self.pn = 0
        self.rn = 0
        self.optional = []      # nodes whose flow may be zero (not compound)
        self.river = []         # nodes carrying fixed flows
        self.compound = []
        self.stores = []
        self.vstores = []
        self.aggs = []
        self.aggstores = []
        self.demands = []
        self.inputs = []
        self.delays = []
        self.costs = set()
        self.data, self.tables = {}, {}

    # -- naming, numbers ---------------------------------------------------------
    def nm(self, pre):
        self.n += 1
        return f"{pre}{self.n}{self.sfx}"

    def cost(self, lo, hi):
        while True:
            c = self.r.num(lo, hi, 5)
            if c not in self.costs and c != 0:
                self.costs.add(c)
                return c

    def node(self, name, type, **kw):
        d = {"name": name, "type": type}
        d.update(kw)
        self.nodes.append(d)
        return d

    def edge(self, a, b, sa=None, sb=None):
        if sa is None and sb is None:
            self.edges.append([a, b])
        else:
            self.edges.append([a, b, sa, sb])

    def param(self, type, **kw):
        self.pn += 1
        name = f"p{self.pn}{self.sfx}"
        d = {"type": type}
        d.update(kw)
        self.params[name] = d
        return name

    def rec(self, type, **kw):
        self.rn += 1
        name = f"r{self.rn}{self.sfx}"
        d = {"type": type}
        d.update(kw)
        if "agg_func" not in d and self.r.p(0.5):
            d["agg_func"] = self.r.pick(["mean", "sum", "max", "min", "median"])
        self.recs[name] = d
        return name

    def seed(self):
        return self.r.randrange(1 << 30)

    # -- time --------------------------------------------------------------------
    def time(self):
        r, o = self.r, self.o
        freq = r.pick(o["freqs"])
        n = r.randint(*o["steps"])
        if r.p(o["long"]):
            n *= 2
        year = r.pick([1999, 2000, 2001, 2003, 2004, 2015])
        if r.p(o["yearedge"]):
            start = pd.Timestamp(year, 12, 31) - pd.Timedelta(days=r.randint(0, 25))
        else:
            start = pd.Timestamp(year, 1, 1) + pd.Timedelta(days=r.randint(0, 364))
        if freq == "M":
            n = min(n, 30)
            if r.p(0.7):
                start = start.replace(day=1)
            end = (start.replace(day=1) + pd.DateOffset(months=n - 1)).replace(day=r.pick([1, 14, 28]))
            if end < start:
                end = start
            step = "M"
        elif freq == "W":
            end = start + pd.Timedelta(days=7 * (n - 1))
            step = "W"
        elif freq == "7D":
            end = start + pd.Timedelta(days=7 * (n - 1))
            step = "7D"
        else:
            k = int(freq)
            end = start + pd.Timedelta(days=k * (n - 1) + r.randint(0, k - 1))
            step = k if (k > 1 or r.p(0.8)) else "D"
        self.ts = {"start": str(start.date()), "end": str(end.date()), "timestep": step}
        self.starts = timestep_starts(self.ts)
        self.nsteps = len(self.starts)
        self.start = start
        self.end = end

    # -- scenarios ---------------------------------------------------------------
    def scenarios(self):
        r, o = self.r, self.o
        nd = r.randint(*o["dims"])
        sizes = []
        tot = 1
        for k in range(nd):
            s = r.randint(1, 3) if nd > 1 else r.randint(1, 4)
            while tot * s > 24:
                s -= 1
            tot *= max(1, s)
            sizes.append(max(1, s))
        self.doc_comb = None
        for k, s in enumerate(sizes):
            d = {"name": f"s{k}", "size": s}
            if r.p(0.3):
                d["ensemble_names"] = [f"s{k}e{j}" for j in range(s)]
            self.scen.append(d)
        if nd and r.p(o["comb"]):
            allc = [[]]
            for s in sizes:
                allc = [c + [j] for c in allc for j in range(s)]
            self.doc_comb = r.some(allc, 1, o["max_combos"])
        elif nd and r.p(o["slices"]):
            for d in self.scen:
                if d["size"] > 1 and r.p(0.6):
                    a = r.randrange(d["size"])
                    b = r.randint(a + 1, d["size"])
                    d["slice"] = r.pick([[a, b], [a, b], [a, b, 1], [a], [0, d["size"], 2]])
                    if d["slice"] == [a]:
                        d["slice"] = [a + 1]
        n = 1
        for d in self.scen:
            n *= len(range(*slice(*d["slice"]).indices(d["size"]))) if "slice" in d else d["size"]
        if self.doc_comb is not None:
            n = len(self.doc_comb)
        while n > o["max_combos"]:
            d = max(self.scen, key=lambda d: d["size"])
            d["size"] -= 1
            if "ensemble_names" in d:
                d["ensemble_names"] = d["ensemble_names"][:d["size"]]
            d.pop("slice", None)
            n = 1
            for d in self.scen:
                n *= len(range(*slice(*d["slice"]).indices(d["size"]))) if "slice" in d else d["size"]

    def any_scen(self):
        return self.r.pick(self.scen) if self.scen else None

    # -- input-like parameters -----------------------------------------------------
    def series(self, lo, hi, mode=None):
        r = self.r
        kw = {"seed": self.seed(), "lo": lo, "hi": hi, "mode": mode or r.pick(["iid", "iid", "sticky", "season", "pulse"])}
        if self.scen and r.p(self.o["scen_series"]):
            kw["scenario"] = self.any_scen()["name"]
        if kw["mode"] in ("sticky", "pulse"):
            kw["period"] = r.pick([3, 7, 15])
        return self.param("simseries", **kw)

    def source(self, lo, hi):
        """A parameter that depends on nothing but the date and the scenario; values in [lo, hi]."""
        r = self.r
        k = r.weighted({"series": 10, "constant": 2, "monthly": 2, "daily": 1, "weekly": 1, "arrayindexed": 1,
                        "constantscenario": 2 if self.scen else 0, "scenariomonthly": 1 if self.scen else 0,
                        "arrayindexedscenario": 1 if self.scen else 0, "monthlyinterp": 1, "harmonic": 0.5, "scenarioweekly": 0.4 if self.scen else 0,
                        "table": self.o["data"], "scenariodaily": 0.3 if self.scen else 0, "scenariowrapper": 0.7 if self.scen else 0, "uniformdrawdown": 0.5, "rbf": 0.2})
        v = lambda: r.num(lo, hi)
        if k == "table":
            from .data import source
            p = source(self, lo, hi)
            if p is not None:
                return p
        if k == "constant":
            return self.param("constant", value=v())
        if k == "monthly":
            return self.param("monthlyprofile", values=[v() for _ in range(12)])
        if k == "monthlyinterp":
            return self.param("monthlyprofile", values=[v() for _ in range(12)], interp_day=r.pick(["first", "last"]))
        if k == "daily":
            return self.param("dailyprofile", values=[v() for _ in range(366)])
        if k == "weekly":
            return self.param("weeklyprofile", values=[v() for _ in range(r.pick([52, 53]))])
        if k == "arrayindexed":
            return self.param("arrayindexed", values=[v() for _ in range(self.nsteps)])
        if k == "constantscenario":
            s = self.any_scen()
            return self.param("constantscenario", scenario=s["name"], values=[v() for _ in range(s["size"])])
        if k == "scenariomonthly":
            s = self.any_scen()
            return self.param("scenariomonthlyprofile", scenario=s["name"], values=[[v() for _ in range(12)] for _ in range(s["size"])])
        if k == "scenarioweekly":
            s = self.any_scen()
            return self.param("scenarioweeklyprofile", scenario=s["name"], values=[[v() for _ in range(52)] for _ in range(s["size"])])
        if k == "scenariodaily":
            s = self.any_scen()
            return self.param("scenariodailyprofile", scenario=s["name"], values=[[v() for _ in range(366)] for _ in range(s["size"])])
        if k == "arrayindexedscenario":
            s = self.any_scen()
            return self.param("arrayindexedscenario", scenario=s["name"], values=[[v() for _ in range(s["size"])] for _ in range(self.nsteps)])
        if k == "scenariowrapper":
            s = self.any_scen()
            return self.param("scenariowrapper", scenario=s["name"], parameters=[self.series(lo, hi) for _ in range(s["size"])])
        if k == "uniformdrawdown":
            u = self.param("uniformdrawdownprofile", reset_day=r.randint(1, 28), reset_month=r.randint(1, 12), residual_days=r.pick([0, 30]))
            c = self.param("constant", value=hi)
            a = self.param("aggregated", agg_func="product", parameters=[u, c])
            return self.param("max", parameter=a, threshold=lo) if lo > 0 else a
        if k == "rbf":
            return self.param("rbfprofile", days_of_year=[1, 90, 180, 270], values=[(lo + hi) / 2 + self.r.num(-0.1, 0.1) * (hi - lo) for _ in range(4)], lower_bounds=0.0)
        if k == "harmonic":
            return self.param("annualharmonicseries", mean=(lo + hi) / 2, amplitudes=[(hi - lo) / 5], phases=[r.num(0, 6)])
        return self.series(lo, hi)

    def indexp(self):
        """An index parameter with values 0/1 (2 states)."""
        r = self.r
        opts = {"simindex": 3}
        if self.scen:
            opts["constantscenarioindex"] = 1
        if r.p(self.o["stateful"]):
            if self.optional or self.river:
                opts["nodethreshold"] = 2
            if self.stores:
                opts["storagethreshold"] = 3
                opts["controlcurveindex"] = 2
            opts["parameterthreshold"] = 1
            opts["currentyearthreshold"] = 0.5
            opts["currentordinaldaythreshold"] = 0.5
            opts["aggregatedindex"] = 0.5
        k = r.weighted(opts)
        pred = r.pick(["LT", "GT", "LE", "GE", "<", ">"])
        ratchet = {"ratchet": True} if r.p(0.25) else {}
        if k == "constantscenarioindex":
            s = self.any_scen()
            return self.param("constantscenarioindex", scenario=s["name"], values=[r.randrange(2) for _ in range(s["size"])])
        if k == "nodethreshold":
            return self.param("nodethreshold", node=r.pick(self.optional + self.river), threshold=r.num(1, 15, 4), predicate=pred, values=[r.num(1, 5), r.num(1, 5)], **ratchet)
        if k == "storagethreshold":
            s = r.pick(self.stores)
            return self.param("storagethreshold", storage_node=s["name"], threshold=round(s["_max"] * r.num(0.2, 0.85, 4), 4), predicate=pred, values=[r.num(1, 5), r.num(1, 5)], **ratchet)
        if k == "controlcurveindex":
            s = r.pick(self.stores)
            c = [self.param("constant", value=r.num(0.3, 0.8, 4))]
            return self.param("controlcurveindex", storage_node=s["name"], control_curves=c)
        if k == "parameterthreshold":
            return self.param("parameterthreshold", parameter=self.series(0, 10), threshold=r.num(2, 8, 4), predicate=pred, values=[r.num(1, 5), r.num(1, 5)], **ratchet)
        if k == "currentyearthreshold":
            return self.param("currentyearthreshold", threshold=self.start.year + r.randint(0, 1), predicate=pred, values=[r.num(1, 5), r.num(1, 5)])
        if k == "currentordinaldaythreshold":
            return self.param("currentordinaldaythreshold", threshold=self.start.toordinal() + r.randint(0, 60), predicate=pred, values=[r.num(1, 5), r.num(1, 5)])
        if k == "aggregatedindex":
            a, b = self._simindex(), self._simindex()
            return self.param("aggregatedindex", agg_func=r.pick(["max", "min", "any", "all", "product"]), parameters=[a, b])
        return self._simindex()

    def _simindex(self):
        kw = {"seed": self.seed(), "n": 2, "period": self.r.pick([1, 3, 7, 20])}
        if self.scen and self.r.p(0.5):
            kw["scenario"] = self.any_scen()["name"]
        return self.param("simindex", **kw)

    def value(self, lo, hi, depth=0):
        """A parameter with values within (about) [lo, hi], lo >= 0, possibly stateful."""
        r, o = self.r, self.o
        if depth > 2 or not r.p(o["stateful"]):
            return self.source(lo, hi)
        mid = round((lo + hi) / 2, 3)
        opts = {"source": 4, "indexedarray": 2, "aggregated": 1.5, "max": 0.7, "min": 0.7, "offset": 0.5, "division": 0.4, "negneg": 0.4, "scaled": 0.4,
                "interpolated": 0.5, "polynomial": 0.4, "thresholdvalue": 1 if lo <= 1 and hi >= 5 else 0}
        fl = self.optional + self.river
        if fl:
            opts.update({"flow": 1, "flowdelay": 1, "rollingmean": 1.2, "interpflow": 0.8, "recorderthreshold": 0.8, "multithresh": 0.5, "flowcompound": 0.5 if self.compound else 0})
        if self.demands:
            opts["deficit"] = 1
        if self.stores:
            opts.update({"controlcurve": 2, "cci": 1.5, "ccpi": 0.5, "interpvol": 0.8, "storageparam": 0.6})
        if o["params"]:
            opts = {k: v for k, v in opts.items() if k in o["params"]} or {"source": 1}
        k = r.weighted(opts)
        if k == "indexedarray":
            i = self.indexp()
            return self.param("indexedarray", index_parameter=i, parameters=[self.value(lo, mid, depth + 1), self.value(mid, hi, depth + 1)])
        if k == "thresholdvalue":
            i = self.indexp()
            if self.params[i]["type"] in ("constantscenarioindex", "controlcurveindex", "aggregatedindex"):
                return self.source(lo, hi)
            return i
        if k == "aggregated":
            f = r.pick(["mean", "min", "max", "median"])
            return self.param("aggregated", agg_func=f, parameters=[self.value(lo, hi, depth + 1) for _ in range(r.randint(2, 3))])
        if k == "max":
            return self.param("max", parameter=self.value(lo, hi, depth + 1), threshold=r.num(lo, mid))
        if k == "min":
            return self.param("min", parameter=self.value(lo, hi, depth + 1), threshold=r.num(mid, hi))
        if k == "offset":
            return self.param("offset", parameter=self.value(lo, mid, depth + 1), offset=r.num(0, max(0.1, mid - lo)))
        if k == "division":
            return self.param("division", numerator=self.value(lo, hi, depth + 1), denominator=self.series(1.0, 2.0))
        if k == "negneg":
            return self.param("negative", parameter=self.param("negative", parameter=self.value(lo, hi, depth + 1)))
        if k == "scaled":
            return self.param("scaledprofile", scale=r.num(0.6, 1.0), profile=self.series(lo, hi))
        if k == "interpolated":
            return self.param("interpolated", parameter=self.series(0, 10), x=[-1, 4, 11], y=[lo, mid, hi], interp_kwargs={"kind": "linear"})
        if k == "polynomial":
            return self.param("polynomial1d", parameter=self.series(0, 1), coefficients=[lo, (hi - lo) * 0.5, (hi - lo) * 0.4])
        if k in ("flow", "flowcompound"):
            nd = r.pick(fl) if k == "flow" else r.pick(self.compound)
            f = self.param("flow", node=nd, **({"initial_value": r.num(0, 5)} if r.p(0.4) else {}))
            return self._clamp(f, lo, hi)
        if k == "flowdelay":
            kw = {"timesteps": r.randint(1, 5)} if r.p(0.6) or not isinstance(self.ts["timestep"], int) else {"days": self.ts["timestep"] * r.randint(1, 4)}
            if r.p(0.5):
                kw["initial_flow"] = r.num(0, 6)
            f = self.param("flowdelay", node=r.pick(fl), **kw)
            return self._clamp(f, lo, hi)
        if k == "rollingmean":
            kw = {"timesteps": r.randint(1, 6)} if r.p(0.6) or not isinstance(self.ts["timestep"], int) else {"days": self.ts["timestep"] * r.randint(1, 5)}
            if r.p(0.5):
                kw["initial_flow"] = r.num(0, 6)
            f = self.param("rollingmeanflownode", node=r.pick(fl), **kw)
            return self._clamp(f, lo, hi)
        if k == "interpflow":
            return self.param("interpolatedflow", node=r.pick(fl), flows=[-1, r.num(3, 9), 1000], values=[lo, mid, hi])
        if k == "recorderthreshold":
            rc = self.rec("numpyarraynode", node=r.pick(fl))
            i = self.param("recorderthreshold", recorder=rc, threshold=r.num(1, 12, 4), predicate=r.pick(["LT", "GT"]), values=[lo + 0.1, hi])
            return i
        if k == "multithresh":
            i = self.param("multiplethresholdindex", node=r.pick(fl), thresholds=[r.num(8, 15, 4), r.num(1, 7, 4)])
            return self.param("indexedarray", index_parameter=i, parameters=[self.source(lo, hi) for _ in range(3)])
        if k == "deficit":
            d = self.param("deficit", node=r.pick(self.demands))
            return self._clamp(d, lo, hi)
        if k == "controlcurve":
            s = r.pick(self.stores)
            n = r.randint(1, 2)
            lev = sorted([r.num(0.15, 0.9, 4) for _ in range(n)], reverse=True)
            cc = [self.source(max(0.05, l - 0.03), min(0.97, l + 0.03)) if r.p(0.4) else self.param("constant", value=l) for l in lev]
            if r.p(0.5):
                return self.param("controlcurve", storage_node=s["name"], control_curves=cc, values=[r.num(lo, hi) for _ in range(n + 1)])
            return self.param("controlcurve", storage_node=s["name"], control_curves=cc, parameters=[self.value(lo, hi, depth + 1) for _ in range(n + 1)])
        if k == "cci":
            s = r.pick(self.stores)
            cc = [self.param("constant", value=r.num(0.3, 0.8, 4))]
            return self.param("controlcurveinterpolated", storage_node=s["name"], control_curves=cc, values=[hi, mid, lo])
        if k == "ccpi":
            s = r.pick(self.stores)
            cc = [self.param("constant", value=r.num(0.3, 0.8, 4))]
            return self.param("controlcurvepiecewiseinterpolated", storage_node=s["name"], control_curves=cc, values=[[hi, mid], [mid, lo]], minimum=0.02)
        if k == "interpvol":
            s = r.pick(self.stores)
            return self.param("interpolatedvolume", node=s["name"], volumes=[0, s["_max"] * 0.5, s["_max"] * 1.5], values=[lo, mid, hi])
        if k == "storageparam":
            s = r.pick(self.stores)
            p = self.param("storage", storage_node=s["name"], use_proportional_volume=True)
            return self._clamp(p, lo, hi)
        return self.source(lo, hi)

    def _clamp(self, p, lo, hi):
        a = self.param("max", parameter=p, threshold=round(lo + 0.01, 3))
        return self.param("min", parameter=a, threshold=hi)

    # -- network -------------------------------------------------------------------
    def mids(self, prev, n, main=True):
        """A run of unbounded river nodes."""
        r, o = self.r, self.o
        prev_slot = None
        for _ in range(n):
            w = {"River": 2, "Link": 2}
            if o["piecewise"]:
                w["PiecewiseLink"] = 1
            if o["gauges"]:
                w["RiverGauge"] = 1
            if o["splits"]:
                w["RiverSplit"] = 0.6
                w["RiverSplitWithGauge"] = 0.6
                w["MultiSplitLink"] = 0.7
            if o["loss"]:
                w["LossLink"] = 1
            if o["delay"]:
                w["DelayNode"] = 1
            if o["breaklink"]:
                w["BreakLink"] = 0.7
            k = r.weighted(w)
            name = self.nm(k[0].lower() + k[1:3].lower())
            nxt_slot = None
            if k in ("River", "Link"):
                self.node(name, k, cost=self.cost(0.01, 1))
                self.river.append(name)
            elif k == "PiecewiseLink":
                ns = r.randint(2, 3)
                cs = sorted([self.cost(-3, 3) for _ in range(ns)])
                if r.p(0.3):
                    r.shuffle(cs)
                mf = [self.limit(2, 9) for _ in range(ns - 1)] + [None]
                self.node(name, k, nsteps=ns, costs=cs, max_flows=mf)
                self.compound.append(name)
            elif k == "RiverGauge":
                self.node(name, k, mrf=self.limit(1, 8), mrf_cost=self.cost(-30, -5), cost=self.cost(0.01, 1))
                self.compound.append(name)
            elif k in ("RiverSplit", "RiverSplitWithGauge"):
                other = self.outlet()
                fac = [r.num(0.5, 4), r.num(0.5, 4)]
                kw = {"slot_names": [f"{name}a", f"{name}b"], "factors": fac}
                if k == "RiverSplit":
                    kw["costs"] = [self.cost(0.01, 1), self.cost(0.01, 1)]
                else:
                    kw["mrf"] = self.limit(1, 8)
                    kw["mrf_cost"] = self.cost(-30, -5)
                    kw["cost"] = self.cost(0.01, 1)
                self.node(name, k, **kw)
                self.compound.append(name)
                self.edge(name, other, f"{name}b", None)
                nxt_slot = f"{name}a"
            elif k == "MultiSplitLink":
                extra = r.randint(1, 2)
                ns = r.randint(1, 2)
                slots = [f"{name}x{j}" for j in range(extra + 1)]
                kw = {"nsteps": ns, "extra_slots": extra, "slot_names": slots,
                      "costs": [self.cost(-2, 3) for _ in range(ns + extra)],
                      "max_flows": [self.limit(2, 9) for _ in range(ns - 1)] + [None] + [self.limit(1, 6) if r.p(0.5) else None for _ in range(extra)]}
                if r.p(0.5):
                    kw["factors"] = [r.num(0.5, 3) for _ in range(extra + 1)]
                    kw["max_flows"] = [self.limit(2, 9) for _ in range(ns - 1)] + [None] * (extra + 1)
                self.node(name, k, **kw)
                for j in range(extra):
                    self.edge(name, self.outlet(), slots[j + 1], None)
                nxt_slot = slots[0]
                self.compound.append(name)
            elif k == "LossLink":
                kw = {"loss_factor_type": r.pick(["net", "gross"])} if r.p(0.6) else {}
                lf = self.r.num(0.02, 0.6)
                if kw.get("loss_factor_type") != "gross" and r.p(0.4):
                    lf = self.source(0.02, 0.5)
                if r.p(0.08):
                    lf = 0.0
                self.node(name, k, loss_factor=lf, cost=self.cost(0.01, 1), **kw)
                self.compound.append(name)
            elif k == "DelayNode":
                kw = {"timesteps": r.randint(1, 5)} if r.p(0.6) or not isinstance(self.ts["timestep"], int) else {"days": self.ts["timestep"] * r.randint(1, 4)}
                if r.p(0.5):
                    kw["initial_flow"] = r.num(0, 6)
                self.node(name, k, **kw)
                self.compound.append(name)
                self.delays.append(name)
            elif k == "BreakLink":
                self.node(name, k, cost=self.cost(0.01, 1))
                self.compound.append(name)
            self.edge(prev, name, prev_slot, None)
            prev, prev_slot = name, nxt_slot
        return prev, prev_slot

    def limit(self, lo, hi):
        return self.value(lo, hi, 1) if self.r.p(0.6) else self.r.num(lo, hi)

    def outlet(self):
        name = self.nm("out")
        self.node(name, "Output", cost=self.cost(0.01, 1))
        self.river.append(name)
        return name

    def demand(self, frm, slot=None, direct=None):
        """An optional demand supplied from node `frm`."""
        r = self.r
        d = self.nm("dem")
        via = not r.p(0.25) if direct is None else not direct
        self.node(d, "Output", max_flow=self.limit(2, 12) if r.p(0.85) else self.value(2, 12), cost=self.cost(-1000, -100))
        self.optional.append(d)
        self.demands.append(d)
        if via:
            l = self.nm("abs")
            kw = {"cost": self.cost(0.01, 1)}
            if r.p(0.5):
                kw["max_flow"] = self.limit(3, 12)
            self.node(l, "Link", **kw)
            self.optional.append(l)
            self.edge(frm, l, slot, None)
            self.edge(l, d)
            return l, d
        self.edge(frm, d, slot, None)
        return None, d

    def storage(self, name, **extra):
        r = self.r
        mx = r.num(40, 300, 1)
        typ = r.pick(["Storage", "Storage", "Reservoir"])
        d = {"max_volume": mx}
        if r.p(0.3):
            d["min_volume"] = round(mx * r.num(0.02, 0.15), 2)
        if r.p(0.5):
            d["initial_volume"] = round(mx * r.num(0.2, 1.0), 2)
            if r.p(0.15):
                d["initial_volume"] = mx
        else:
            d["initial_volume_pc"] = r.num(0.2, 1.0)
        if r.p(self.o["varmax"]):
            d["max_volume"] = self.source(mx * 0.9, mx)
            d.pop("initial_volume", None)
            d["initial_volume_pc"] = r.num(0.2, 0.8)
            d["initial_volume"] = round(mx * d["initial_volume_pc"], 3)
        d["cost"] = self.cost(-20, -1)
        if typ == "Reservoir" and r.p(0.5):
            d["above_curve_cost"] = self.cost(-1, -0.1)
            d["control_curve"] = r.num(0.3, 0.9, 4)
        elif r.p(self.o["varcost"]):
            d["cost"] = self.param("negative", parameter=self.source(1, 20)) if r.p(0.6) else d["cost"]
        d.update(extra)
        nd = self.node(name, typ, **d)
        nd["_max"] = mx
        nd["_typ"] = typ
        self.stores.append(nd)
        return nd

    def reach(self, k):
        r = self.r
        src = self.nm("cat")
        if r.p(0.8):
            self.node(src, "Catchment", flow=self.series(0.5, 20) if r.p(0.7) else self.source(0.5, 20))
            self.river.append(src)
        else:
            self.node(src, "Input", max_flow=self.limit(5, 20), cost=self.cost(-3, 3))
            self.inputs.append(src)
            self.optional.append(src)
        prev, slot = self.mids(src, r.randint(0, 3))
        kind = r.weighted({"plain": 3, "online": 3 if self.nstor > 0 else 0, "offline": 1.5 if self.nstor > 0 else 0})
        if kind == "online":
            self.nstor -= 1
            s = self.nm("res")
            multi = r.p(0.2)
            self.storage(s, **({"inputs": r.randint(2, 3), "outputs": r.randint(1, 2)} if multi else {}))
            lv, en = (self.nodes[-1]["inputs"], self.nodes[-1]["outputs"]) if multi else (1, 1)
            used = set()

            def leave():
                if not multi:
                    return None
                k = r.randrange(lv) if len(used) == lv else min(set(range(lv)) - used)
                used.add(k)
                return k

            self.edge(prev, s, slot, 0 if en > 1 else None)
            if en > 1:
                e = self.nm("imp")
                self.node(e, "Input", max_flow=self.limit(0.5, 3), cost=self.cost(0.1, 25))
                self.edge(e, s, None, 1)
                self.optional.append(e)
            spill = self.nm("spill")
            self.node(spill, "Link", cost=self.cost(21, 40))
            self.edge(s, spill, leave(), None)
            self.river.append(spill)
            nd0 = r.randint(*self.o["demands"])
            for _ in range(max(nd0, lv - 1)):
                self.demand(s, leave())
            if r.p(0.4):
                comp = self.nm("comp")
                self.node(comp, "Link", max_flow=self.limit(1, 4), cost=self.cost(-60, -30))
                self.edge(s, comp, leave(), None)
                self.optional.append(comp)
                self.joins.append((comp, None, spill))
                tail = self.nm("riv")
                self.node(tail, "River", cost=self.cost(0.01, 1))
                self.river.append(tail)
                self.edge(comp, tail)
                self.edge(spill, tail)
                prev, slot = self.mids(tail, r.randint(0, 1))
            else:
                prev, slot = self.mids(spill, r.randint(0, 1))
        elif kind == "offline":
            self.nstor -= 1
            j = self.nm("riv")
            self.node(j, "River", cost=self.cost(0.01, 1))
            self.edge(prev, j, slot, None)
            self.river.append(j)
            a = self.nm("pump")
            self.node(a, "Link", max_flow=self.limit(2, 10), cost=self.cost(0.01, 0.9))
            self.edge(j, a)
            self.optional.append(a)
            s = self.nm("res")
            self.storage(s)
            self.edge(a, s)
            for _ in range(r.randint(*self.o["demands"])):
                self.demand(s)
            prev, slot = j, None
        else:
            if r.p(0.6):
                j = self.nm("riv")
                self.node(j, "River", cost=self.cost(0.01, 1))
                self.edge(prev, j, slot, None)
                self.river.append(j)
                self.demand(j)
                prev, slot = j, None
        if self.ends and r.p(0.6):
            j = r.pick(self.ends)
            self.edge(prev, j, slot, None)
        else:
            j = self.nm("riv")
            self.node(j, "River", cost=self.cost(0.01, 1))
            self.river.append(j)
            self.edge(prev, j, slot, None)
            self.ends.append(j)
            out = self.outlet()
            last, sl = self.mids(j, r.randint(0, 1))
            self.edge(last, out, sl, None)

    def works(self):
        """Two optional inputs -> link -> an output; carries minimum flows and aggregate limits."""
        r = self.r
        ins = []
        l = self.nm("wl")
        self.node(l, "Link", cost=self.cost(0.01, 1))
        self.river.append(l)
        for _ in range(2):
            i = self.nm("win")
            kw = {"cost": self.cost(0.5, 5)}
            if r.p(0.5):
                kw["max_flow"] = r.num(20, 40)
            self.node(i, "Input", **kw)
            self.edge(i, l)
            ins.append(i)
        d = self.nm("wout")
        kw = {"cost": self.cost(-30, -6), "max_flow": self.limit(10, 15)}
        if r.p(self.o["minflow"]):
            kw["min_flow"] = self.limit(0.5, 4)
            kw["max_flow"] = self.limit(10, 15)
        self.node(d, "Output", **kw)
        self.edge(l, d)
        if r.p(0.7):
            a = self.nm("agg")
            kw = {"nodes": list(ins)}
            mode = r.pick(["factors", "max", "min", "both", "weights", "pfactors"])
            if mode in ("factors", "both"):
                kw["factors"] = [r.num(0.5, 4), r.num(0.5, 4)]
            if mode == "pfactors":
                kw["factors"] = [self.source(1, 3), r.num(0.5, 4)]
            if mode in ("max", "both"):
                kw["max_flow"] = self.limit(5, 14)
            if mode == "min":
                kw["min_flow"] = self.limit(0.5, 5)
                self._dem_unbounded = True
            if mode == "weights":
                kw["flow_weights"] = [r.num(0.5, 2), r.num(0.5, 2)]
                kw["max_flow"] = self.limit(5, 14)
            for nd in self.nodes:
                if nd["name"] == d and mode == "min":
                    nd.pop("max_flow")
                    nd["cost"] = self.cost(0.01, 0.4)
                if nd["name"] == d and mode in ("max", "both", "weights"):
                    nd.pop("min_flow", None)
            self.node(a, "AggregatedNode", **kw)
            self.aggs.append(a)
            if mode not in ("max", "both", "weights"):
                self.optional.extend([])
        else:
            self.inputs.extend(ins)
            if not any(nd["name"] == d and "min_flow" in nd for nd in self.nodes):
                self.optional.extend(ins)
                self.optional.append(d)

    def power(self):
        """Water pumped into a second domain: an output feeds one or two inputs with a conversion."""
        r = self.r
        i, l, o = self.nm("pin"), self.nm("pl"), self.nm("pout")
        self.node(i, "Input", max_flow=self.limit(5, 15), cost=self.cost(0.1, 2))
        self.node(l, "Link", cost=self.cost(0.01, 1))
        self.node(o, "Output", cost=self.cost(-1, 1))
        self.edge(i, l)
        self.edge(l, o)
        d = self.nm("pdem")
        self.node(d, "SimPowerOutput", max_flow=self.limit(2, 12), cost=self.cost(-900, -100))
        for _ in range(r.randint(1, 2)):
            g = self.nm("gen")
            kw = {"conversion_factor": r.num(0.3, 3), "cost": self.cost(0.01, 1)}
            if r.p(0.5):
                kw["max_flow"] = self.limit(2, 9)
            self.node(g, "SimPowerInput", **kw)
            self.edge(o, g)
            self.edge(g, d)
            self.optional.append(g)
        self.optional += [i, l, o]

    def aggregates(self):
        r, o = self.r, self.o
        pool = [n for n in self.optional]
        if len(self.demands) >= 2 and r.p(o["agg"]):
            mem = r.some(self.demands, 2, 3)
            a = self.nm("agg")
            kw = {"nodes": mem}
            mode = r.pick(["factors", "max", "weights", "none"])
            if mode == "factors":
                kw["factors"] = [r.num(0.5, 3) for _ in mem]
            if mode in ("max", "weights"):
                kw["max_flow"] = self.limit(3, 15)
            if mode == "weights":
                kw["flow_weights"] = [r.num(0.5, 2) for _ in mem]
            self.node(a, "AggregatedNode", **kw)
            self.aggs.append(a)
        elif r.p(o["agg"]) and len(pool) >= 2:
            mem = r.some(pool + self.river, 2, 3)
            a = self.nm("agg")
            kw = {"nodes": mem}
            if r.p(0.3):
                kw["flow_weights"] = [r.num(0.5, 2) for _ in mem]
            self.node(a, "AggregatedNode", **kw)
            self.aggs.append(a)
        if self.compound and r.p(o["compound_agg"]):
            mem = r.some(self.compound, 1, 2) + r.some(self.river, 1, 1)
            a = self.nm("agg")
            self.node(a, "AggregatedNode", nodes=mem)
            self.aggs.append(a)
        if self.stores and r.p(o["aggstor"]):
            a = self.nm("ast")
            self.node(a, "AggregatedStorage", storage_nodes=[s["name"] for s in r.some(self.stores, 1, 3)])
            self.aggstores.append(a)

    def virtuals(self):
        r, o = self.r, self.o
        pool = list(self.optional)
        for _ in range(r.randint(*o["vstor"])):
            if not pool:
                return
            mem = r.some(pool, 1, 2)
            k = r.pick(o["vkinds"])
            name = self.nm("vs")
            days = sum(d for _, d in self.starts)
            mx = round(r.num(2, 8) * days / r.randint(2, 5), 2)
            kw = {"nodes": mem, "factors": [r.num(0.3, 2) if r.p(0.5) else 1.0 for _ in mem]}
            if r.p(0.15):
                del kw["factors"]
            if k == "virtual":
                kw.update(max_volume=mx, initial_volume=round(mx * r.num(0.5, 1), 2))
                self.node(name, "VirtualStorage", **kw)
            elif k == "rolling":
                step = self.starts[0][1]
                n = r.randint(2, 6)
                mx = round(r.num(2, 8) * step * n * 0.7, 2)
                kw.update(max_volume=mx, initial_volume=mx if r.p(0.5) else round(mx * r.num(0.5, 1), 2))
                if isinstance(self.ts["timestep"], int) and r.p(0.4):
                    kw["days"] = n * self.ts["timestep"]
                else:
                    kw["timesteps"] = n
                self.node(name, "RollingVirtualStorage", **kw)
            elif k == "monthly":
                m = r.randint(1, 4)
                mx = round(r.num(1, 6) * 30 * m * 0.6, 2)
                kw.update(max_volume=mx, initial_volume=mx if r.p(0.6) else round(mx * r.num(0.4, 1), 2), months=m)
                if r.p(0.4):
                    kw["initial_months"] = r.randint(0, m - 1) if m > 1 else 0
                if r.p(0.4):
                    kw["reset_to_initial_volume"] = True
                self.node(name, "MonthlyVirtualStorage", **kw)
            else:
                # a reset date that falls near or inside the run
                d = self.starts[r.randrange(len(self.starts))][0] + pd.Timedelta(days=r.pick([0, 0, 0, 1, -1, 2]))
                kw.update(max_volume=mx, initial_volume=mx if r.p(0.5) else round(mx * r.num(0.4, 1), 2), reset_day=d.day, reset_month=d.month)
                if (kw["reset_month"], kw["reset_day"]) == (2, 29):
                    kw["reset_day"] = 28
                if r.p(0.4):
                    kw["reset_to_initial_volume"] = True
                if k == "annual":
                    self.node(name, "AnnualVirtualStorage", **kw)
                else:
                    e = d + pd.Timedelta(days=r.randint(5, 200))
                    kw["end_day"], kw["end_month"] = min(e.day, 28), e.month
                    self.node(name, "SeasonalVirtualStorage", **kw)
            if r.p(0.1):
                self.nodes[-1]["cost"] = self.cost(0.01, 0.5)
                self.nodes[-1].pop("cost")
            self.vstores.append(name)

    def licences(self):
        r = self.r
        if not r.p(self.o["licences"]):
            return
        cands = [n for n in self.nodes if n["name"] in self.optional and n["type"] == "Link" and "max_flow" in n and "_lic" not in n]
        if not cands:
            return
        nd = r.pick(cands)
        days = sum(d for _, d in self.starts)
        amt = round(r.num(2, 6) * min(days, 365) * 0.5, 2)
        k = r.pick(["annuallicense", "annuallicense", "annuallicense", "annualexponentiallicense", "annualhyperbolalicense", "storagelicense"])
        kw = {"node": nd["name"], "amount": amt}
        if k == "timesteplicense":
            if self.ts["timestep"] not in (1, "D"):
                k = "storagelicense"
            else:
                kw["amount"] = r.num(0.5, 6)
        if k == "annualexponentiallicense":
            kw.update(max_value=r.num(3, 10), k=r.num(0.5, 2))
        if k == "annualhyperbolalicense":
            kw.update(value=r.num(0.5, 5))
        nd["max_flow"] = self.param(k, **kw)
        if r.p(0.25):
            nd["max_flow"] = self.param("aggregated", agg_func="min", parameters=[nd["max_flow"], self.series(0, 12)])
        nd["_lic"] = k
        if len(cands) > 1 and r.p(0.3):
            self.licences()

    # -- recorders -----------------------------------------------------------------
    def recorders(self):
        r, o = self.r, self.o
        plain = self.optional + self.river
        allnodes = plain + self.compound + self.aggs
        for _ in range(r.randint(*o["recs"])):
            self.recorder(plain, allnodes)

    def recorder(self, plain, allnodes):
        r, o = self.r, self.o
        st = [s["name"] for s in self.stores]
        vst = st + self.vstores
        w = {"numpyarraynode": 3, "totalflownode": 1, "meanflownode": 1, "flowdurationcurve": 1, "rollingmeanflownode": 1, "rollingwindow": 1, "annualtotalflow": 1,
             "numpyarrayparameter": 2, "numpyarrayindexparameter": 1, "totalparameter": 1, "meanparameter": 1, "timestepcountindex": 1,
             "annualcountindexparameter": 1, "annualcountindexthreshold": 1, "aggregated": 1, "seasonalfdc": 0.6, "numpyarraynodecost": 0.6, "numpyarraydailyprofile": 0.3, "event": 1, "node": 0.3}
        if self.demands:
            w.update({"numpyarraynodedeficit": 1, "numpyarraynodesuppliedratio": 1, "numpyarraynodecurtailmentratio": 1, "totaldeficitnode": 1, "deficitfrequencynode": 1})
        if st:
            w.update({"numpyarraystorage": 2, "minimumvolumestorage": 1, "minimumthresholdvolumestorage": 1, "storagedurationcurve": 1, "numpyarraynormalisedstorage": 0.5, "storage": 0.2})
        if vst:
            w["numpyarrayvstorage"] = 1
        if o["reckinds"]:
            w = {k: v for k, v in w.items() if k in o["reckinds"]} or {"numpyarraynode": 1}
        k = r.weighted(w)
        agg = {}
        if r.p(0.6):
            agg["temporal_agg_func"] = r.pick(["mean", "sum", "max", "min", "median", {"func": "percentile", "args": [r.pick([10, 50, 95])], "kwargs": {}}])
        fac = {"factor": r.num(0.5, 3)} if r.p(0.3) else {}
        pick_p = lambda: r.pick(list(self.params) or [self.series(0.5, 10)])
        ips = [p for p, d in self.params.items() if d["type"] in FIXED_INDEX]
        if k == "numpyarraynode":
            self.rec(k, node=r.pick(allnodes), **agg, **fac)
        elif k in ("node",):
            self.rec(k, node=r.pick(allnodes))
        elif k == "storage":
            self.rec(k, node=r.pick(st))
        elif k in ("totalflownode", "meanflownode"):
            self.rec(k, node=r.pick(allnodes), **fac)
        elif k in ("numpyarraynodedeficit", "numpyarraynodesuppliedratio", "numpyarraynodecurtailmentratio"):
            self.rec(k, node=r.pick(self.demands), **agg)
        elif k == "numpyarraynodecost":
            self.rec(k, node=r.pick(plain), **agg)
        elif k in ("totaldeficitnode", "deficitfrequencynode"):
            self.rec(k, node=r.pick(self.demands))
        elif k == "flowdurationcurve":
            self.rec(k, node=r.pick(allnodes), percentiles=[5.0, 50.0, 90.0], **({"fdc_agg_func": r.pick(["mean", "max"])} if r.p(0.3) else {}))
        elif k == "seasonalfdc":
            months = sorted({pd.Period(s, freq=self.ts["timestep"]).month if self.ts["timestep"] in ("M", "W") else s.month for s, _ in self.starts})
            self.rec("seasonalflowdurationcurve", node=r.pick(allnodes), percentiles=[10.0, 50.0], months=r.some(months, 1, 4))
        elif k == "storagedurationcurve":
            self.rec(k, node=r.pick(st), percentiles=[5.0, 50.0, 90.0])
        elif k == "rollingmeanflownode":
            if isinstance(self.ts["timestep"], int) and r.p(0.4):
                self.rec(k, node=r.pick(allnodes), days=self.ts["timestep"] * r.randint(1, 4))
            else:
                self.rec(k, node=r.pick(allnodes), timesteps=r.randint(1, 5))
        elif k == "rollingwindow":
            self.rec("rollingwindowparameter", parameter=pick_p(), window=r.randint(1, 5), temporal_agg_func=r.pick(["mean", "sum", "max", "min"]))
        elif k == "annualtotalflow":
            mem = r.some(allnodes, 1, 2)
            self.rec(k, nodes=mem, **({"factors": [r.num(0.5, 2) for _ in mem]} if r.p(0.4) else {}), **agg)
        elif k == "numpyarrayparameter":
            self.rec(k, parameter=pick_p(), **agg)
        elif k in ("totalparameter", "meanparameter"):
            kw = {"integrate": True} if k == "totalparameter" and r.p(0.5) else {}
            self.rec(k, parameter=pick_p(), **fac, **kw)
        elif k == "numpyarraydailyprofile":
            self.rec("numpyarraydailyprofileparameter", parameter=pick_p())
        elif k in ("numpyarrayindexparameter", "timestepcountindex", "annualcountindexparameter", "annualcountindexthreshold"):
            if not ips:
                ips = [self._simindex()]
            if k == "numpyarrayindexparameter":
                self.rec(k, parameter=r.pick(ips), **agg)
            elif k == "timestepcountindex":
                self.rec("timestepcountindexparameter", parameter=r.pick(ips), threshold=1)
            elif k == "annualcountindexparameter":
                self.rec(k, parameter=r.pick(ips), threshold=1)
            else:
                kw = {}
                if r.p(0.3):
                    kw["exclude_months"] = [self.starts[r.randrange(self.nsteps)][0].month]
                elif r.p(0.3):
                    kw["include_from_month"], kw["include_from_day"] = r.randint(1, 6), r.randint(1, 28)
                    kw["include_to_month"], kw["include_to_day"] = r.randint(7, 12), r.randint(1, 28)
                self.rec(k, parameters=r.some(ips, 1, 3), threshold=1, **kw)
        elif k in ("numpyarraystorage", "numpyarrayvstorage"):
            kw = {"proportional": True} if r.p(0.4) else {}
            self.rec("numpyarraystorage", node=r.pick(st if k == "numpyarraystorage" else vst), **agg, **kw)
        elif k == "numpyarraynormalisedstorage":
            self.rec(k, node=r.pick(st), parameter=self.source(0.3, 0.7), **agg)
        elif k == "minimumvolumestorage":
            self.rec(k, node=r.pick(st))
        elif k == "minimumthresholdvolumestorage":
            s = r.pick(self.stores)
            self.rec(k, node=s["name"], threshold=round(s["_max"] * r.num(0.3, 0.7, 3), 3))
        elif k == "aggregated":
            base = [n for n, d in self.recs.items() if d["type"] not in ("event", "aggregated", "node", "storage", "flowdurationcurve", "seasonalflowdurationcurve", "storagedurationcurve", "numpyarraydailyprofileparameter", "eventduration", "eventstatistic", "rollingmeanflownode")]
            if base:
                self.rec("aggregated", recorders=r.some(base, 1, 3), recorder_agg_func=r.pick(["mean", "sum", "max", "min"]))
        elif k == "event":
            if not ips:
                ips = [self._simindex()]
            kw = {"minimum_event_length": r.randint(1, 4)} if r.p(0.5) else {}
            if r.p(0.5):
                kw["tracked_parameter"] = pick_p()
            e = self.rec("event", threshold=r.pick(ips), **kw)
            if r.p(0.4):
                self.rec("eventduration", event_recorder=e, recorder_agg_func=r.pick(["mean", "sum", "max"]))
            if "tracked_parameter" in kw and r.p(0.4):
                self.recs[e]["event_agg_func"] = r.pick(["mean", "sum", "max", "min"])
                self.rec("eventstatistic", event_recorder=e, recorder_agg_func=r.pick(["mean", "sum", "max"]))

    # -- whole -----------------------------------------------------------------------
    def build(self):
        r, o = self.r, self.o
        self.time()
        self.scenarios()
        self.nstor = r.randint(*o["storages"])
        self.ends, self.joins = [], []
        for k in range(r.randint(*o["reaches"])):
            self.reach(k)
        if r.p(o["works"]):
            self.works()
        if r.p(o["multidomain"]):
            self.power()
        self.licences()
        self.virtuals()
        self.aggregates()
        self.recorders()
        if o["faultparams"]:
            self.fault_points()
        doc = {
            "metadata": {"title": "generated", "minimum_version": "0.1"},
            "timestepper": dict(self.ts),
            "nodes": self.nodes,
            "edges": self.edges,
            "parameters": self.params,
            "recorders": self.recs,
        }
        if self.scen:
            doc["scenarios"] = self.scen
        if self.data:
            doc["_data"] = self.data
        if self.tables:
            doc["tables"] = self.tables
        if self.doc_comb is not None:
            doc["scenario_combinations"] = self.doc_comb
        if r.p(o["shuffle"]):
            r.shuffle(doc["nodes"])
        return doc

    def fault_points(self):
        """Pass-through fault parameters in front of some limits, and a fault recorder."""
        r = self.r
        self.fp = []
        spots = []
        for n in self.nodes:
            for key in ("max_flow", "flow", "mrf"):
                if isinstance(n.get(key), str) and n[key] in self.params:
                    spots.append((n, key))
        for n, key in r.some(spots, 1, 3):
            self.pn += 1
            name = f"fp{self.pn}{self.sfx}"
            self.params[name] = {"type": "simfault", "base": n[key]}
            n[key] = name
            self.fp.append(name)
        for _ in range(r.randint(1, 2)):
            self.rn += 1
            name = f"fr{self.rn}{self.sfx}"
            d = {"type": "simfault"}
            if r.p(0.6) and self.params:
                d["param"] = r.pick(list(self.params))
            self.recs[name] = d
            self.fp.append(name)


def gen_doc(r, **opt):
    return G(r, **opt).build()


# -- looking at documents ---------------------------------------------------------------
def refs(v, names, out):
    if isinstance(v, str):
        if v in names:
            out.add(v)
    elif isinstance(v, dict):
        for x in v.values():
            refs(x, names, out)
    elif isinstance(v, list):
        for x in v:
            refs(x, names, out)


def prune(doc):
    """Drops what refers to nodes that no longer exist, repeatedly."""
    doc = copy.deepcopy(doc)
    gone = True
    while gone:
        gone = False
        nn = {n["name"] for n in doc["nodes"]}
        e2 = [e for e in doc["edges"] if e[0] in nn and e[1] in nn]
        if len(e2) != len(doc["edges"]):
            doc["edges"] = e2
            gone = True
        for n in list(doc["nodes"]):
            for key in ("nodes", "storage_nodes"):
                if key in n and any(m not in nn for m in n[key]):
                    doc["nodes"].remove(n)
                    gone = True
                    break
        pn = set(doc["parameters"])
        rn = set(doc["recorders"])
        for name, p in list(doc["parameters"].items()):
            for key in ("node", "storage_node"):
                if key in p and p[key] not in nn:
                    del doc["parameters"][name]
                    gone = True
                    break
        for name, p in list(doc["recorders"].items()):
            if "nodes" in p and "url" in p:     # an output file loses a column, not its existence
                left = [m for m in p["nodes"] if (m if isinstance(m, str) else m[1]) in nn]
                if left and len(left) < len(p["nodes"]):
                    p["nodes"] = left
            if ("node" in p and p["node"] not in nn) or any((m if isinstance(m, str) else m[1]) not in nn for m in p.get("nodes", [])):
                del doc["recorders"][name]
                gone = True
    return doc


def shrink_doc(doc, keep=()):
    for d in _shrink_doc(doc, keep):
        if d["nodes"] and d["edges"]:
            yield d


def _shrink_doc(doc, keep=()):
    """Candidates for a smaller document, most aggressive first."""
    def c():
        return copy.deepcopy(doc)

    ts = doc["timestepper"]
    starts = timestep_starts(ts)
    n = len(starts)
    for m in (1, 2, n // 4, n // 2, n - 1):
        if 0 < m < n:
            d = c()
            d["timestepper"]["end"] = str(starts[m - 1][0].date())
            yield d
    recs = list(doc["recorders"])
    if len(recs) > 2:
        d = c()
        d["recorders"] = {k: v for k, v in d["recorders"].items() if k in keep}
        yield d
        for part in (recs[: len(recs) // 2], recs[len(recs) // 2:]):
            d = c()
            for k in part:
                if k not in keep:
                    d["recorders"].pop(k)
            yield d
    if doc.get("scenarios"):
        d = c()
        d.pop("scenario_combinations", None)
        for s in d["scenarios"]:
            s.pop("slice", None)
            s.pop("ensemble_names", None)
        if d != doc:
            yield d
        used = set()
        refs(doc["parameters"], {s["name"] for s in doc["scenarios"]}, used)
        if "scenario_combinations" not in doc:
            for s in doc["scenarios"]:
                if s["name"] not in used:
                    d = c()
                    d["scenarios"] = [x for x in d["scenarios"] if x["name"] != s["name"]]
                    if not d["scenarios"]:
                        d.pop("scenarios")
                    yield d
    if doc.get("scenario_combinations") and len(doc["scenario_combinations"]) > 1:
        for i in range(len(doc["scenario_combinations"])):
            d = c()
            d["scenario_combinations"].pop(i)
            yield d
    # node groups
    names = [x["name"] for x in doc["nodes"]]
    adj = {}
    for e in doc["edges"]:
        adj.setdefault(e[0], set()).add(e[1])
        adj.setdefault(e[1], set()).add(e[0])
    seen = set()
    for nm in names:
        if nm in seen or nm not in adj:
            continue
        comp, todo = set(), [nm]
        while todo:
            x = todo.pop()
            if x in comp:
                continue
            comp.add(x)
            todo.extend(adj.get(x, ()))
        seen |= comp
        if len(comp) < len(names):
            d = c()
            d["nodes"] = [x for x in d["nodes"] if x["name"] not in comp]
            yield prune(d)
    for nm in names:
        if nm in keep:
            continue
        nd = next(x for x in doc["nodes"] if x["name"] == nm)
        d = c()
        d["nodes"] = [x for x in d["nodes"] if x["name"] != nm]
        ins = [e for e in d["edges"] if e[1] == nm]
        outs = [e for e in d["edges"] if e[0] == nm]
        if ins and outs and nd["type"] not in ("Storage", "Reservoir"):
            # splice the node out
            d["edges"] = [e for e in d["edges"] if nm not in e[:2]]
            for a in ins:
                b = outs[0]
                d["edges"].append([a[0], b[1]] if len(a) < 4 or a[2] is None else [a[0], b[1], a[2], None])
        yield prune(d)
    for k in recs:
        if k not in keep:
            d = c()
            d["recorders"].pop(k)
            yield d
    # parameters
    used = set()
    pnames = set(doc["parameters"])
    refs(doc["nodes"], pnames, used)
    refs(doc["recorders"], pnames, used)
    for k, v in doc["parameters"].items():
        refs({a: b for a, b in v.items()}, pnames, used)
    loose = [k for k in doc["parameters"] if k not in used and k not in keep]
    if loose:
        d = c()
        for k in loose:
            d["parameters"].pop(k)
        yield d
    for k, v in doc["parameters"].items():
        if k in keep:
            continue
        if v["type"] not in ("constant", "simindex", "simfault") and v["type"] not in FIXED_INDEX:
            d = c()
            d["parameters"][k] = {"type": "constant", "value": 5.0}
            yield d
        if v["type"] == "simseries" and v.get("scenario"):
            d = c()
            d["parameters"][k].pop("scenario")
            yield d
        if v["type"] in FIXED_INDEX and v["type"] != "simindex":
            d = c()
            d["parameters"][k] = {"type": "simindex", "seed": 1, "n": 2, "period": 5}
            yield d
    for i, nd in enumerate(doc["nodes"]):
        for key in ("cost", "max_flow", "min_flow", "min_volume", "initial_flow", "flow_weights", "factors"):
            if key in nd and nd["type"] not in ("RiverSplit", "RiverSplitWithGauge"):
                d = c()
                d["nodes"][i].pop(key)
                yield d
            if isinstance(nd.get(key), str):
                d = c()
                d["nodes"][i][key] = 5.0
                yield d


def shrink_case(case, key="doc", keep=()):
    for d in shrink_doc(case[key], keep):
        c = copy.deepcopy(case)
        c[key] = d
        yield c


def solvers_for(doc):
    """Solvers that are documented to take this document: lpsolve only takes constant factors."""
    params = doc.get("parameters", {})

    def dynamic(x):
        return isinstance(x, dict) or (isinstance(x, str) and params.get(x, {}).get("type") != "constant")

    for n in doc["nodes"]:
        t = n["type"].lower()
        if t == "aggregatednode" and any(dynamic(f) for f in n.get("factors") or []):
            return ["glpk", "glpk", "glpk-edge"]
        if t == "losslink" and dynamic(n.get("loss_factor", 0.0)):
            return ["glpk", "glpk", "glpk-edge"]
        if t in ("multisplitlink", "riversplit", "riversplitwithgauge") and any(dynamic(f) for f in n.get("factors") or []):
            return ["glpk", "glpk", "glpk-edge"]
    return ["glpk", "glpk", "glpk-edge", "lpsolve"]
