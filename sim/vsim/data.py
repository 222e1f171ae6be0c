"""External data of generated models: written as files next to the model, or embedded in the document."""
import os
import warnings

import pandas as pd

_count = [0]


def write(data, base="."):
    """Writes doc["_data"] into a folder of its own; returns that folder."""
    _count[0] += 1
    d = os.path.join(base, f"data{_count[0]}")
    os.makedirs(d, exist_ok=True)
    for name, f in data.items():
        path = os.path.join(d, name)
        if "h5" in f:
            import tables

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with tables.open_file(path, "w") as h:
                    for node, rows in f["h5"].items():
                        import numpy as np

                        h.create_array("/", node, np.array(rows, dtype=f.get("dtype", "f8")))
        else:
            with open(path, "w") as fh:
                fh.write(text(f))
    return d


def text(f):
    return "\n".join([",".join(["date"] + f["cols"])] + [",".join(str(x) for x in row) for row in f["rows"]]) + "\n"


def dates(g):
    """Index on which data for this model may be given, in a frequency that needs no guessing -> list of dates or None."""
    r, step = g.r, g.ts["timestep"]
    last = g.starts[-1][0]
    span = int((last - g.starts[0][0]).days + round(g.starts[-1][1]))
    if step in (1, "D"):
        k = r.pick(["D", "D", "MS"])
        if k == "MS":
            first = g.start.replace(day=1)
            n = (last.year - first.year) * 12 + last.month - first.month + 1
            return list(pd.date_range(first, periods=max(4, n + r.randint(1, 2)), freq="MS"))
        before = r.pick([0, 0, 3])
        return list(pd.date_range(g.start - pd.Timedelta(days=before), periods=before + max(5, span + r.randint(0, 4)), freq="D"))
    if isinstance(step, int):
        if r.p(0.5) or step == 7:
            return list(pd.date_range(g.start, periods=step * (g.nsteps + 1) + 4, freq="D"))
        return list(pd.date_range(g.start, periods=max(4, g.nsteps + r.randint(0, 2)), freq=f"{step}D"))
    if step == "M":
        return list(pd.date_range(g.starts[0][0].replace(day=1), periods=max(4, g.nsteps + 1), freq="MS"))
    return None


def source(g, lo, hi):
    """A parameter that reads its values from a table; None if this model's clock has no plain index."""
    r = g.r
    v = lambda: r.num(lo, hi)
    s = g.any_scen() if g.scen and r.p(0.5) else None
    k = r.pick(["csv", "csv", "inline", "h5", "table"])
    name = f"d{len(g.data)}{g.sfx}"
    m = s["size"] if s else 1
    sc = {"scenario": s["name"]} if s else {}
    if k == "h5":
        n = g.nsteps + r.pick([0, 0, 3])
        m2 = m + (1 if r.p(0.2) else 0)
        g.data[name + ".h5"] = {"h5": {"arr": [[v() for _ in range(m2)] for _ in range(n)]}}
        return g.param("tablesarray", url=name + ".h5", node="arr", **sc)
    idx = dates(g)
    if idx is None:
        return None
    cols = [f"c{i}" for i in range(m)]
    rows = [[str(t.date())] + [v() for _ in cols] for t in idx]
    if k == "inline":
        return g.param("dataframe", data={c: {row[0]: row[1 + i] for row in rows} for i, c in enumerate(cols)}, parse_dates=True, **({"column": "c0"} if not s else sc))
    extra = [] if s or r.p(0.5) else ["other"]
    for row in rows:
        row += [round(r.num(0, 1), 3) for _ in extra]
    if not s and not extra and r.p(0.5):
        pick = {}
    else:
        pick = sc if s else {"column": "c0"}
    g.data[name + ".csv"] = {"cols": cols + extra, "rows": rows}
    how = {"url": name + ".csv", "index_col": r.pick([0, "date"]), "parse_dates": True}
    if k == "table":
        g.tables[name] = how
        return g.param("dataframe", table=name, **pick)
    return g.param("dataframe", **how, **pick)


def alter(doc, ordinal, r, only=None):
    """Changes every value given for a date from `ordinal` on (in place); returns how many were changed."""
    n = 0
    for f in doc.get("_data", {}).values():
        if "rows" in f:
            for row in f["rows"]:
                if pd.Timestamp(row[0]).toordinal() >= ordinal:
                    row[1:] = [round(x * r.num(0.3, 1.6), 3) for x in row[1:]]
                    n += 1
    for p in doc["parameters"].values():
        if p["type"] == "dataframe" and "data" in p:
            for col in p["data"].values():
                for t in col:
                    if pd.Timestamp(t).toordinal() >= ordinal:
                        col[t] = round(col[t] * r.num(0.3, 1.6), 3)
                        n += 1
    return n
