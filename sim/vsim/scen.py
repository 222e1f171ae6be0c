"""What a document's scenarios mean, worked out from the document alone."""
import itertools

import pandas as pd

from .oracles import cal_date
from .rng import mix


def sizes(doc):
    return [s["size"] for s in doc.get("scenarios", [])]


def combos(doc):
    """Scenario index tuples in the order the model must use."""
    sc = doc.get("scenarios", [])
    if not sc:
        return [()]
    if doc.get("scenario_combinations") is not None:
        return [tuple(c) for c in doc["scenario_combinations"]]
    ax = []
    for s in sc:
        idx = list(range(s["size"]))
        if s.get("slice") is not None:
            idx = idx[slice(*s["slice"])]
        ax.append(idx)
    return list(itertools.product(*ax))


def labels(doc):
    sc = doc.get("scenarios", [])
    if not sc:
        return [(0,)]
    return [tuple((s.get("ensemble_names") or list(range(s["size"])))[i] for s, i in zip(sc, c)) for c in combos(doc)]


def input_value(doc, name, t, start, combo):
    """Value a scenario-dependent input declares for a step and a combination, or None."""
    d = doc["parameters"][name]
    sc = [s["name"] for s in doc.get("scenarios", [])]
    k = combo[sc.index(d["scenario"])] if d.get("scenario") is not None else None
    ty = d["type"]
    cal = cal_date(doc, start)
    if ty == "simseries":
        o = pd.Timestamp(start).toordinal()
        seed = d["seed"]
        if d.get("alter") and o >= d["alter"][0]:
            seed = d["alter"][1]
        kk = 0 if k is None else k + 1
        p = d.get("period", 7)
        m = d.get("mode", "iid")
        if m == "const":
            u = mix(seed, kk)
        elif m == "sticky":
            u = mix(seed, o // p, kk)
        elif m == "season":
            x = (o % 365) / 365.0
            u = 0.5 * (1 - abs(2 * ((x + mix(seed, kk)) % 1.0) - 1)) + 0.5 * mix(seed, o, kk)
        elif m == "pulse":
            u = mix(seed, o, kk) if mix(seed, o // p, kk, 9) > 0.5 else 0.0
        else:
            u = mix(seed, o, kk)
        return d["lo"] + (d["hi"] - d["lo"]) * u
    if ty == "constant":
        return d["value"]
    if ty == "constantscenario" or ty == "constantscenarioindex":
        return d["values"][k]
    if ty == "arrayindexed":
        return d["values"][t]
    if ty == "arrayindexedscenario":
        return d["values"][t][k]
    if ty == "scenariomonthlyprofile":
        return d["values"][k][cal.month - 1]
    if ty in ("dailyprofile", "scenariodailyprofile", "weeklyprofile", "scenarioweeklyprofile"):
        i = cal.dayofyear - 1
        if not cal.is_leap_year and i > 58:
            i += 1
        v = d["values"] if k is None else d["values"][k]
        return v[i] if "daily" in ty else v[min(i // 7, 51)]
    if ty == "monthlyprofile" and "interp_day" not in d:
        return d["values"][cal.month - 1]
    if ty in ("dataframe", "tablesarray"):
        return data_value(doc, d, t, pd.Timestamp(start), k)
    if ty == "scenariowrapper":
        return input_value(doc, d["parameters"][k], t, start, combo)
    return None


def data_value(doc, d, t, start, k):
    """What the table says for the step: the value in force on its first day, or the mean of a finer table over the step."""
    if d["type"] == "tablesarray":
        return doc["_data"][d["url"]]["h5"][d["node"]][t][k or 0]
    if "data" in d:
        col = d["data"]["c0" if k is None else f"c{k}"]
        rows = sorted((pd.Timestamp(x), v) for x, v in col.items())
    else:
        f = doc["_data"][doc["tables"][d["table"]]["url"] if "table" in d else d["url"]]
        c = f["cols"].index("c0" if k is None else f"c{k}")
        rows = [(pd.Timestamp(x[0]), x[1 + c]) for x in f["rows"]]
    step = doc["timestepper"]["timestep"]
    if step == "M":
        return [v for x, v in rows if x == start.replace(day=1)][0]
    days = 1 if step == "D" else int(step)
    gap = (rows[1][0] - rows[0][0]).days
    if gap > days or gap >= 28:
        return [v for x, v in rows if x <= start][-1]
    inside = [v for x, v in rows if start <= x < start + pd.Timedelta(days=days)]
    return sum(inside) / len(inside)
