"""A dense web of parameters on top of a generated model: every kind, operands taken from anywhere."""
from .gen import FIXED_INDEX


def states(doc, name):
    """Number of values an index parameter can take."""
    d = doc["parameters"][name]
    ty = d["type"]
    if ty == "simindex":
        return d.get("n", 2)
    if ty == "controlcurveindex":
        return len(d["control_curves"]) + 1
    if ty in ("multiplethresholdindex", "multiplethresholdparameterindex"):
        return len(d["thresholds"]) + 1
    return 2


def clamp(g, p, lo, hi):
    return g.param("min", parameter=g.param("max", parameter=p, threshold=lo), threshold=hi)


def weave(r, g, doc, n, feedback=1.0, fault=0.2):
    """Adds about n parameters to doc; returns their names."""
    plist = list(doc["parameters"])
    vals = [p for p in plist if doc["parameters"][p]["type"] not in ("deficit", "annualhyperbolalicense") and doc["parameters"][p]["type"] not in FIXED_INDEX] or [g.series(0, 10)]
    idx = [p for p in plist if doc["parameters"][p]["type"] in FIXED_INDEX and doc["parameters"][p]["type"] != "constantscenarioindex"]
    flows = [x["name"] for x in doc["nodes"] if x["type"].lower() not in ("storage", "reservoir", "aggregatedstorage", "virtualstorage", "rollingvirtualstorage", "annualvirtualstorage", "seasonalvirtualstorage", "monthlyvirtualstorage")]
    aggnodes = {x["name"] for x in doc["nodes"] if x["type"] == "AggregatedNode"}
    stores = list(g.stores)
    sto = [s["name"] for s in stores] + [a for a in g.aggstores]
    demands = list(g.demands)
    made = []
    recs = {}

    def size(s):
        for d in stores:
            if d["name"] == s:
                return d["_max"]
        return 200.0

    def V():
        # any value, at times a literal
        return r.pick(vals)

    def L(lo, hi):
        return r.num(lo, hi) if r.p(0.4) else clamp_cc(V(), lo, hi)

    def clamp_cc(p, lo, hi):
        return clamp(g, p, lo, hi)

    def curves(k):
        out = []
        for lev in sorted([r.num(0.1, 0.95, 4) for _ in range(k)], reverse=True):
            out.append(clamp_cc(V(), max(0.02, lev - 0.02), min(0.98, lev + 0.02)) if r.p(0.4) else lev)
        return out

    def pred():
        return r.pick(["LT", "GT", "LE", "GE", "<", ">", "<=", ">="])

    def thr():
        kw = {"predicate": pred()}
        if r.p(0.7):
            kw["values"] = [r.num(0, 5), r.num(5, 10)]
        if r.p(0.35):
            kw["ratchet"] = True
        return kw

    for _ in range(n):
        w = {"aggregated": 3, "max": 1, "min": 1, "negative": 1, "negativemax": 0.7, "negativemin": 0.7, "offset": 0.7, "division": 1.2, "scaledprofile": 1,
             "indexedarray": 3 if idx else 0, "interpolated": 1, "interpolatedquadrature": 0.5, "piecewiseintegral": 0.7, "polynomial1d": 1, "scenariowrapper": 1 if g.scen else 0,
             "simindex": 0.6, "aggregatedindex": 1.2 if len(idx) > 1 else 0, "parameterthreshold": 1.5, "multiplethresholdparameterindex": 1.3, "simfault": 6 * fault,
             "discountfactor": 0.2, "annualharmonicseries": 0.3}
        fb = {"flow": 1.5, "flowdelay": 1.2, "rollingmeanflownode": 1.5, "interpolatedflow": 1, "polynomialflow": 0.8, "nodethreshold": 1.5, "multiplethresholdindex": 1.3, "recorderthreshold": 1.2}
        if demands:
            fb["deficit"] = 1.5
        if sto:
            fb.update({"storage": 1.2, "interpolatedvolume": 1, "storagethreshold": 1.5, "controlcurve": 1.7, "controlcurveindex": 1.2, "controlcurveinterpolated": 1.5,
                       "controlcurvepiecewiseinterpolated": 1, "polynomialstorage": 0.8, "polynomial2dstorage": 0.8})
        w.update({k: v * feedback for k, v in fb.items()})
        k = r.weighted(w)
        isidx = False
        fl = r.pick(flows)
        st = r.pick(sto) if sto else None
        if k == "aggregated":
            f = r.pick(["sum", "mean", "min", "max", "median", "product"])
            ops = [V() for _ in range(r.randint(1, 4))]
            p = g.param(k, agg_func=f, parameters=ops)
            if f in ("sum", "product"):
                p = clamp(g, p, -1e4, 1e4)
        elif k in ("max", "min", "negativemax", "negativemin"):
            p = g.param(k, parameter=V(), **({"threshold": r.num(-3, 12)} if r.p(0.8) else {}))
        elif k == "negative":
            p = g.param(k, parameter=V())
        elif k == "offset":
            p = g.param(k, parameter=V(), offset=r.num(-5, 5))
        elif k == "division":
            p = g.param(k, numerator=V(), denominator=g.param("max", parameter=V(), threshold=r.num(0.5, 2)))
        elif k == "scaledprofile":
            p = g.param(k, scale=r.num(0.1, 1.2), profile=V())
        elif k == "indexedarray":
            i = r.pick(idx)
            p = g.param(k, index_parameter=i, **{r.pick(["parameters", "params"]): [V() for _ in range(states(doc, i))]})
        elif k == "interpolated":
            p = g.param(k, parameter=V(), x=[-1e7, 0, r.num(1, 9), 1e7], y=[r.num(-5, 0), 0, r.num(1, 20), r.num(20, 30)])
        elif k == "interpolatedquadrature":
            kw = {"lower_parameter": clamp(g, V(), 0, 3)} if r.p(0.6) else {}
            p = g.param(k, upper_parameter=clamp(g, V(), 3, 12), x=[0, 12.5], y=[r.num(0, 3), r.num(1, 5)], **kw)
        elif k == "piecewiseintegral":
            xs = sorted({r.num(1, 20, 2) for _ in range(3)})
            p = g.param(k, parameter=V(), x=xs, y=[r.num(-2, 5) for _ in xs])
        elif k == "polynomial1d":
            p = clamp(g, g.param(k, parameter=V(), coefficients=[r.num(-2, 5) for _ in range(r.randint(1, 3))], **({"scale": r.num(0.05, 0.5)} if r.p(0.6) else {}), **({"offset": r.num(-2, 2)} if r.p(0.5) else {})), -1e4, 1e4)
        elif k == "polynomialflow":
            p = g.param("polynomial1d", node=fl, coefficients=[r.num(-2, 5), r.num(-1, 1), 0.01], **({"scale": r.num(0.05, 0.5)} if r.p(0.4) else {}))
        elif k == "polynomialstorage":
            p = g.param("polynomial1d", storage_node=st, coefficients=[r.num(-2, 5), r.num(-1, 1), 0.001], **({"use_proportional_volume": True} if r.p(0.5) else {}))
        elif k == "polynomial2dstorage":
            p = clamp(g, g.param(k, storage_node=st, parameter=V(), coefficients=[[r.num(-2, 5), 0.1], [r.num(-1, 1), 0.01]], **({"use_proportional_volume": True} if r.p(0.5) else {}), **({"parameter_scale": 0.3, "storage_offset": 1.5} if r.p(0.4) else {})), -1e4, 1e4)
        elif k == "scenariowrapper":
            s = r.pick(g.scen)
            p = g.param(k, scenario=s["name"], parameters=[V() for _ in range(s["size"])])
        elif k == "simindex":
            p, isidx = g.param(k, seed=g.seed(), n=r.randint(2, 4), period=r.pick([1, 2, 5]), **({"scenario": r.pick(g.scen)["name"]} if g.scen and r.p(0.5) else {})), True
        elif k == "aggregatedindex":
            f = r.pick(["max", "min", "any", "all", "product", "sum"])
            p = g.param(k, agg_func=f, parameters=r.some(idx, 1, 3))
            if f in ("any", "all"):
                isidx = True
        elif k == "parameterthreshold":
            p, isidx = g.param(k, parameter=V(), threshold=L(1, 9), **thr()), True
        elif k == "nodethreshold":
            p, isidx = g.param(k, node=fl, threshold=L(0.5, 12), **thr()), True
        elif k == "storagethreshold":
            p, isidx = g.param(k, storage_node=st, threshold=round(size(st) * r.num(0.2, 0.9), 3) if r.p(0.6) else clamp(g, V(), size(st) * 0.3, size(st) * 0.8), **thr()), True
        elif k == "recorderthreshold":
            kk = r.pick(["numpyarraynode", "numpyarraynode", "numpyarraystorage" if sto else "numpyarraynode", "numpyarrayparameter"])
            rk = {"numpyarraynode": lambda: g.rec(kk, node=fl, **({"factor": 2.0} if r.p(0.3) else {})), "numpyarraystorage": lambda: g.rec(kk, node=st),
                  "numpyarrayparameter": lambda: g.rec(kk, parameter=V())}[kk]()
            kw = thr()
            kw.pop("ratchet", None) if r.p(0.5) else None
            p, isidx = g.param(k, recorder=rk, threshold=L(1, 12), **({"initial_value": r.randrange(2)} if r.p(0.5) else {}), **kw), True
        elif k == "multiplethresholdindex":
            p, isidx = g.param(k, node=fl, thresholds=[L(6, 12), L(0.5, 5)][:r.randint(1, 2)]), True
        elif k == "multiplethresholdparameterindex":
            p, isidx = g.param(k, parameter=V(), thresholds=[L(6, 12), L(0.5, 5)][:r.randint(1, 2)]), True
        elif k == "simfault":
            p = g.param(k, base=V(), kids=[r.pick(vals + idx) for _ in range(r.randint(0, 3))])
        elif k == "discountfactor":
            p = g.param(k, rate=r.num(0.01, 0.1), base_year=2000)
        elif k == "annualharmonicseries":
            p = g.param(k, mean=r.num(1, 5), amplitudes=[r.num(0, 1), r.num(0, 1)], phases=[r.num(0, 6), r.num(0, 6)])
        elif k == "flow":
            real = [f for f in flows if f not in aggnodes]
            p = g.param(k, node=r.pick(real), **({"initial_value": r.num(0, 5)} if r.p(0.5) else {}))
        elif k in ("flowdelay", "rollingmeanflownode"):
            kw = {"timesteps": r.randint(1, 7)} if r.p(0.6) or not isinstance(g.ts["timestep"], int) else {"days": g.ts["timestep"] * r.randint(1, 5)}
            p = g.param(k, node=fl, **kw, **({"initial_flow": r.num(0, 6)} if r.p(0.5) else {}))
        elif k == "interpolatedflow":
            p = g.param(k, node=fl, flows=[-10, r.num(1, 9), 100000], values=[r.num(-5, 0), r.num(0, 5), r.num(5, 9)])
        elif k == "deficit":
            p = g.param(k, node=r.pick(demands))
            p = g.param("max", parameter=p, threshold=-1.0)
        elif k == "storage":
            p = g.param(k, storage_node=st, **({"use_proportional_volume": True} if r.p(0.5) else {}))
        elif k == "interpolatedvolume":
            p = g.param(k, node=st, volumes=[-10, size(st) * 0.5, size(st) * 100], values=[r.num(-5, 0), r.num(0, 5), r.num(5, 9)])
        elif k in ("controlcurve", "controlcurveinterpolated"):
            m = r.randint(1, 3)
            nv = m + (1 if k == "controlcurve" else 2)
            kw = {"values": [r.num(-5, 9) for _ in range(nv)]} if r.p(0.5) else {"parameters": [V() for _ in range(nv)]}
            if k == "controlcurve" and r.p(0.15):
                kw = {}
            p = g.param(k, storage_node=st, control_curves=curves(m), **kw)
        elif k == "controlcurveindex":
            p, isidx = g.param(k, storage_node=st, control_curves=curves(r.randint(1, 2))), True
        else:
            m = r.randint(1, 2)
            p = g.param(k, storage_node=st, control_curves=curves(m), values=[[r.num(5, 9), r.num(0, 5)] for _ in range(m + 1)], **({"minimum": 0.02} if r.p(0.5) else {}), **({"maximum": 0.97} if r.p(0.4) else {}))
        made.append(p)
        (idx if isidx else vals).append(p)
        if not isidx or "values" in doc["parameters"][p]:
            if isidx:
                vals.append(p)
    doc["parameters"] = g.params
    doc["recorders"] = g.recs
    return made


def operands(doc, name, kinds=("parameters", "recorders")):
    """Names of parameters / recorders a parameter's definition refers to."""
    from .gen import refs

    out = set()
    d = dict(doc["parameters"][name])
    refs(d, set(doc["parameters"]), out)
    return out
