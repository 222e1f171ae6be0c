"""Reference semantics computed from the document and the observed history alone."""
import numpy as np
import pandas as pd

INF = float("inf")


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    with np.errstate(invalid="ignore"):
        inf = np.isinf(a) | np.isinf(b)
        if np.any(inf & (a != b)):
            return False
        ok = na | inf | (np.abs(a - b) <= tol * (1.0 + np.maximum(np.abs(a), np.abs(b))))
    return bool(np.all(ok))


def cal_date(doc, date):
    """The calendar day a step is known by: its first day, or the last of a calendar month or week."""
    d = pd.Timestamp(date)
    ts = doc["timestepper"]["timestep"]
    if ts == "M":
        return (d + pd.offsets.MonthEnd(0)).normalize()
    if ts == "W":
        return d + pd.Timedelta(days=6)
    return d


class Net:
    """A document seen as the network it declares."""

    def __init__(self, doc):
        self.doc = doc
        self.nodes = {n["name"]: n for n in doc["nodes"]}
        self.params = doc.get("parameters", {})
        self.edges = []
        self.crossing = {}     # output -> inputs of another domain that it feeds
        for e in doc["edges"]:
            a, b = e[0], e[1]
            if self.typ(a) == "output" and self.typ(b) == "simpowerinput":
                self.crossing.setdefault(a, []).append(b)
                continue
            sa = e[2] if len(e) > 2 else None
            sb = e[3] if len(e) > 3 else None
            self.edges.append((a, b, sa, sb))
        self.ports()

    def typ(self, n):
        return self.nodes[n]["type"].lower()

    def nports(self, n):
        nd = self.nodes[n]
        return nd.get("inputs", 1), nd.get("outputs", 1)  # (leaving, entering) slots of a storage

    def ports(self):
        """Groups of outlets and inlets that are joined by edges."""
        out_of, into = {}, {}
        par = {}

        def find(x):
            while par[x] != x:
                par[x] = par[par[x]]
                x = par[x]
            return x

        for a, b, sa, sb in self.edges:
            for o in self.out_ports(a, sa):
                for i in self.in_ports(b, sb):
                    for x in (("o",) + o, ("i",) + i):
                        par.setdefault(x, x)
                    par[find(("o",) + o)] = find(("i",) + i)
        groups = {}
        for x in par:
            groups.setdefault(find(x), []).append(x)
        self.groups = [([x[1:] for x in g if x[0] == "o"], [x[1:] for x in g if x[0] == "i"]) for g in groups.values()]

    def out_ports(self, n, slot):
        t = self.typ(n)
        nd = self.nodes[n]
        if t in ("storage", "reservoir"):
            return [(n, 0 if slot is None else slot)]
        if t in ("riversplit", "riversplitwithgauge", "multisplitlink"):
            return [(n, nd["slot_names"].index(slot))]
        return [(n, 0)]

    def in_ports(self, n, slot):
        if self.typ(n) in ("storage", "reservoir"):
            return [(n, 0 if slot is None else slot)]
        return [(n, 0)]

    # what left / entered a port in an observed step
    def out_flow(self, s, port):
        n, k = port
        t = self.typ(n)
        f = s["flow"]
        if t in ("storage", "reservoir"):
            return f[f"{n}.[input{k}]"]
        if t in ("riversplit", "riversplitwithgauge", "multisplitlink"):
            return f[f"{n}.{n} Input"] if k == 0 else f[f"{n}.{n} Extra Input {k - 1}"]
        return f[n]

    def in_flow(self, s, port):
        n, k = port
        t = self.typ(n)
        f = s["flow"]
        if t in ("storage", "reservoir"):
            return f[f"{n}.[output{k}]"]
        if t == "losslink":
            return f[f"{n}.{n} Gross"]
        if t == "delaynode":
            return f[f"{n}.{n} Output"]
        if t == "breaklink":
            return f[f"{n} (storage).[output0]"] if f"{n} (storage).[output0]" in f else f[n]
        return f[n]

    def val(self, s, spec, default=None):
        if spec is None:
            return default
        if isinstance(spec, str):
            return s["pv"][spec]
        return float(spec)

    def ncomb(self, trace):
        for v in trace[0]["flow"].values():
            return len(v)
        return 1


# ---------------------------------------------------------------------------------------
# P02: conservation and limits
# ---------------------------------------------------------------------------------------
def initial_volume(nd, params=None):
    mx = nd["max_volume"]
    if isinstance(mx, str):
        p = (params or {})[mx]
        if p["type"] != "constant":
            return float(nd["initial_volume"])  # the capacity is not known before the first step
        mx = p["value"]
    if "initial_volume_pc" in nd:
        return float(nd["initial_volume_pc"]) * mx
    return float(nd["initial_volume"])


def check_balance(net, trace, ctx, tol=1e-6, start_vols=None):
    """Node balances, declared losses, volume balances and limits."""
    for t, s in enumerate(trace):
        for outs, ins in net.groups:
            try:
                a = sum(np.asarray(net.out_flow(s, p), float) for p in outs)
                b = sum(np.asarray(net.in_flow(s, p), float) for p in ins)
            except KeyError:
                continue
            if not ctx.ok(close(a, b, tol), "balance", lambda: f"step {t} {s['date']}: out of {outs} {a} / into {ins} {b}"):
                return
        for n, gs in net.crossing.items():
            got = sum(np.asarray(s["flow"][g], float) / net.nodes[g].get("conversion_factor", 1.0) for g in gs)
            if not ctx.ok(close(s["flow"][n], got, tol), "conversion", lambda: f"step {t} {s['date']} {n}: {np.asarray(s['flow'][n])} / converted back {got}"):
                return
        for n, nd in net.nodes.items():
            ty = net.typ(n)
            f = s["flow"]
            fl = np.asarray(f[n], float)
            msg = lambda what, *x: f"step {t} {s['date']} {ty} {n} {what}: " + " / ".join(str(np.asarray(y)) for y in x)
            if ty in ("storage", "reservoir"):
                ins = sum(np.asarray(f[f"{n}.[output{k}]"], float) for k in range(net.nports(n)[1]))
                outs = sum(np.asarray(f[f"{n}.[input{k}]"], float) for k in range(net.nports(n)[0]))
                if not ctx.ok(close(fl, ins - outs, tol), "storage-flow", lambda: msg("flow / net inflow", fl, ins - outs)):
                    return
                prev = trace[t - 1]["vol"][n] if t else (start_vols or {}).get(n, initial_volume(nd, net.params))
                mn = net.val(s, nd.get("min_volume"), 0.0)
                mx = net.val(s, nd["max_volume"])
                v = s["vol"][n]
                if not ctx.ok(close(v, prev + fl * s["days"], max(tol, 2e-6)), "volume-balance", lambda: msg("volume before, net inflow*days, after", prev, fl * s["days"], v)):
                    return
                eps = 1e-5 * (1 + np.abs(mx))
                inside = (prev >= mn - 1e-9) & (prev <= mx + 1e-9)
                good = ~inside | ((v >= mn - eps) & (v <= mx + eps))
                if not ctx.ok(bool(np.all(good)), "volume-limits", lambda: msg("volume, min, max", v, mn, mx)):
                    return
                with np.errstate(invalid="ignore", divide="ignore"):
                    pc = v / mx
                if not ctx.ok(close(s["pc"][n], pc, 1e-6), "volume-pc", lambda: msg("current_pc / volume over max", s["pc"][n], pc)):
                    return
                continue
            if ty in ("aggregatednode", "aggregatedstorage") or "virtualstorage" in ty:
                continue
            if not ctx.ok(bool(np.all(fl >= -1e-6)), "negative-flow", lambda: msg("flow", fl)):
                return
            if ty == "catchment":
                want = net.val(s, nd.get("flow"), 0.0)
                if not ctx.ok(close(fl, want, tol), "catchment", lambda: msg("flow / declared", fl, want)):
                    return
            if ty in ("river", "link", "input", "output", "breaklink", "losslink", "simpowerinput", "simpoweroutput"):
                mn = net.val(s, nd.get("min_flow"), 0.0)
                mx = net.val(s, nd.get("max_flow"), INF)
                e = 1e-6 * (1 + np.where(np.isfinite(mx), np.abs(mx), 0))
                # limits below 1e-8 count as zero
                if not ctx.ok(bool(np.all(fl >= mn - e - 1e-8) and np.all(fl <= mx + e + 1e-8)), "flow-limits", lambda: msg("flow, min, max", fl, mn, mx)):
                    return
            if ty in ("piecewiselink", "rivergauge", "multisplitlink", "riversplit", "riversplitwithgauge"):
                subs = []
                while f"{n}.{n} Sublink {len(subs)}" in f:
                    subs.append(np.asarray(f[f"{n}.{n} Sublink {len(subs)}"], float))
                if subs:
                    if not ctx.ok(close(sum(subs), fl, tol), "sublinks", lambda: msg("sum of parts / flow", sum(subs), fl)):
                        return
                    if ty in ("piecewiselink", "multisplitlink"):
                        mfs = list(nd.get("max_flows", []))
                    elif ty in ("rivergauge", "riversplitwithgauge"):
                        mfs = [nd.get("mrf")]
                    else:
                        mfs = []
                    for q, mf in zip(subs, mfs):
                        mx = net.val(s, mf, INF)
                        if not ctx.ok(bool(np.all(q <= mx + 1e-6 * (1 + np.where(np.isfinite(mx), np.abs(mx), 0)))), "sublink-limit", lambda: msg("part, max", q, mx)):
                            return
                    if nd.get("factors") and ty != "piecewiselink":
                        fac = nd["factors"]
                        part = subs[len(subs) - len(fac):]
                        for q, w in zip(part[1:], fac[1:]):
                            if not ctx.ok(close(q * fac[0], part[0] * w, 2e-6), "split-ratio", lambda: msg("parts", part[0], q, w)):
                                return
                    if ty in ("multisplitlink", "riversplit", "riversplitwithgauge"):
                        # a part for an extra slot may also leave by the first slot (see the class documentation)
                        ne = len(nd["slot_names"]) - 1
                        if f"{n}.{n} Input" in f and f"{n}.{n} Extra Input 0" in f:
                            main = np.asarray(f[f"{n}.{n} Input"], float)
                            ext = [np.asarray(f[f"{n}.{n} Extra Input {j}"], float) for j in range(ne)]
                            if not ctx.ok(close(main + sum(ext), fl, tol), "split-balance", lambda: msg("main, extras, flow", main, ext, fl)):
                                return
                            for j in range(ne):
                                q = subs[len(subs) - ne + j]
                                if not ctx.ok(bool(np.all(ext[j] <= q + 1e-6 * (1 + q))), "split-slots", lambda: msg("extra slot", ext[j], q)):
                                    return
            if ty == "losslink" and f"{n}.{n} Gross" in f:
                lf = net.val(s, nd.get("loss_factor", 0.0))
                g = np.asarray(f[f"{n}.{n} Gross"], float)
                lo = np.asarray(f[f"{n}.{n} Output"], float)
                if nd.get("loss_factor_type", "net") == "net":
                    want = fl * lf
                else:
                    want = g * lf
                if not ctx.ok(close(lo, want, 2e-6), "loss", lambda: msg("loss / declared", lo, want)):
                    return
                if not ctx.ok(close(g, fl + lo, 2e-6), "loss-balance", lambda: msg("gross / net + loss", g, fl + lo)):
                    return
            if ty == "breaklink":
                k = f"{n} (storage)"
                if k in s["vol"] and not ctx.ok(bool(np.all(np.abs(s["vol"][k]) < 1e-6)), "breaklink", lambda: msg("stored", s["vol"][k])):
                    return
        check_factors(net, s, t, ctx)


def check_factors(net, s, t, ctx):
    """P19: declared ratios and limits of aggregated nodes."""
    for n, nd in net.nodes.items():
        if net.typ(n) != "aggregatednode":
            continue
        mem = [np.asarray(s["flow"][m], float) for m in nd["nodes"]]
        if nd.get("factors"):
            w = [net.val(s, x) for x in nd["factors"]]
            for q, x in zip(mem[1:], w[1:]):
                if not ctx.ok(close(q * w[0], mem[0] * x, 1e-5), "agg-ratio", lambda: f"step {t} {n}: {mem} do not follow {w}"):
                    return
        ws = nd.get("flow_weights") or [1.0] * len(mem)
        tot = sum(q * x for q, x in zip(mem, ws))
        mn, mx = net.val(s, nd.get("min_flow"), -INF), net.val(s, nd.get("max_flow"), INF)
        if not ctx.ok(bool(np.all(tot >= mn - 1e-5) and np.all(tot <= mx + 1e-5)), "agg-limits", lambda: f"step {t} {n}: sum {tot} not within {mn}..{mx}"):
            return


def check_aggregates(net, trace, ctx, tol=1e-6):
    """P19: flow and storage of aggregates are those of their members."""
    for t, s in enumerate(trace):
        for n, nd in net.nodes.items():
            ty = net.typ(n)
            if ty == "aggregatednode":
                ws = nd.get("flow_weights") or [1.0] * len(nd["nodes"])
                want = sum(np.asarray(s["flow"][m], float) * w for m, w in zip(nd["nodes"], ws))
                if not ctx.ok(close(s["flow"][n], want, tol), "agg-flow", lambda: f"step {t} {s['date']} {n}: flow {np.asarray(s['flow'][n])} / members {want}"):
                    return
            elif ty == "aggregatedstorage":
                mem = nd["storage_nodes"]
                v = sum(np.asarray(s["vol"][m], float) for m in mem)
                if not ctx.ok(close(s["vol"][n], v, tol), "aggstor-volume", lambda: f"step {t} {s['date']} {n}: volume {s['vol'][n]} / members {v}"):
                    return
                f = sum(np.asarray(s["flow"][m], float) for m in mem)
                if not ctx.ok(close(s["flow"][n], f, tol), "aggstor-flow", lambda: f"step {t} {s['date']} {n}: flow {np.asarray(s['flow'][n])} / members {f}"):
                    return
                mx = sum(net.val(s, net.nodes[m]["max_volume"]) for m in mem)
                if not ctx.ok(close(s["pc"][n], v / mx, tol), "aggstor-pc", lambda: f"step {t} {s['date']} {n}: pc {s['pc'][n]} / members {v / mx}"):
                    return
        check_factors(net, s, t, ctx)


# ---------------------------------------------------------------------------------------
# P08: virtual storages
# ---------------------------------------------------------------------------------------
class VS:
    """State machine of one virtual storage, fed with the member flows that were observed."""

    def __init__(self, net, name, ncomb):
        self.net, self.name, self.nd = net, name, net.nodes[name]
        self.ty = net.typ(name)
        nd = self.nd
        self.mx = float(nd["max_volume"])
        self.init = initial_volume(nd)
        self.v = np.full(ncomb, self.init)
        self.fac = nd.get("factors") or [1.0] * len(nd["nodes"])
        self.t = -1
        self.last = None
        self.count = nd.get("initial_months", 0) - 1
        self.last_month = None
        self.active = True
        self.reset_now = False
        if self.ty == "rollingvirtualstorage":
            n = self.steps(net)
            pc = self.init / self.mx
            u = (self.init / pc - self.init) / (n - 1) if pc > 0 else self.mx / (n - 1)
            self.mem = [np.full(ncomb, u) for _ in range(n - 1)]

    def steps(self, net):
        nd = self.nd
        if "timesteps" in nd:
            return nd["timesteps"]
        return nd["days"] // net.doc["timestepper"]["timestep"]

    def refill(self):
        self.reset_now = True
        self.v = np.full(len(self.v), self.init if self.nd.get("reset_to_initial_volume") else self.mx)

    def start(self, date):
        """Start of a step: volume available and whether the node constrains anything."""
        self.t += 1
        self.reset_now = False
        d = cal_date(self.net.doc, date)
        nd = self.nd
        if self.ty in ("annualvirtualstorage", "seasonalvirtualstorage"):
            rm, rd = nd.get("reset_month", 1), nd.get("reset_day", 1)
            y = d.year if (d.month, d.day) >= (rm, rd) else d.year - 1
            if self.t == 0:
                if (d.month, d.day) == (rm, rd):
                    self.refill()
            elif y != self.last:
                self.refill()
            self.last = y
            if self.ty == "seasonalvirtualstorage":
                a, b, now = (rm, rd), (nd.get("end_month", 12), nd.get("end_day", 31)), (d.month, d.day)
                self.active = a <= now < b if a < b else (now >= a or now < b)
        elif self.ty == "monthlyvirtualstorage":
            if d.month != self.last_month:
                self.last_month = d.month
                self.count += 1
                if self.count == nd.get("months", 1):
                    self.count = 0
                    self.refill()
        return self.v, self.active

    def finish(self, s):
        """End of a step: expected flow and volume."""
        flow = -sum(np.asarray(s["flow"][m], float) * f for m, f in zip(self.nd["nodes"], self.fac))
        if not self.active:
            return None, self.v
        v = self.v + flow * s["days"]
        if self.ty == "rollingvirtualstorage":
            v = v + self.mem.pop(0)
            self.mem.append(-flow * s["days"])
            v = np.minimum(v, self.mx)
        return flow, v


def check_virtual(net, trace, ctx, tol=2e-6):
    if not trace:
        return
    nc = net.ncomb(trace)
    for n, nd in net.nodes.items():
        ty = net.typ(n)
        if "virtualstorage" not in ty:
            continue
        m = VS(net, n, nc)
        for t, s in enumerate(trace):
            v0, active = m.start(s["date"])
            v0 = np.array(v0)
            flow, v = m.finish(s)
            ctx.state("vs", ty, active, m.reset_now, t == 0, bool(np.any(v0 < m.mx * 0.01)))
            if m.reset_now:
                ctx.probe("refill:" + ty)
            what = lambda: f"step {t} {s['date']} {ty} {n}: volume at start {v0}, weighted flow {flow}, active {active}, refilled {m.reset_now}: volume {s['vol'][n]} / expected {v}"
            if not ctx.ok(close(s["vol"][n], v, tol), "virtual-volume", what):
                return
            if flow is not None:
                if not ctx.ok(close(s["flow"][n], flow, tol), "virtual-flow", lambda: f"step {t} {s['date']} {ty} {n}: flow {np.asarray(s['flow'][n])} / {flow}"):
                    return
                used = -flow * s["days"]
                lim = np.maximum(v0 - nd.get("min_volume", 0.0), 0.0)
                if not ctx.ok(bool(np.all(used <= lim + 1e-5 * (1 + lim))), "virtual-exceeded", what):
                    return
            m.v = np.asarray(s["vol"][n], float)


# ---------------------------------------------------------------------------------------
# P10: delays
# ---------------------------------------------------------------------------------------
def delay_steps(net, nd):
    if nd.get("timesteps"):
        return nd["timesteps"]
    return int(nd["days"] // net.doc["timestepper"]["timestep"])


def check_delays(net, trace, ctx, tol=1e-6):
    for n, nd in net.nodes.items():
        if net.typ(n) != "delaynode":
            continue
        k = delay_steps(net, nd)
        ctx.state("delay", k, len(trace) > k, nd.get("initial_flow", 0) != 0)
        for t, s in enumerate(trace):
            try:
                want = net.in_flow(trace[t - k], (n, 0)) if t >= k else nd.get("initial_flow", 0.0)
            except KeyError:
                break
            if not ctx.ok(close(s["flow"][n], want, tol), "delay", lambda: f"step {t} {s['date']} {n}: {np.asarray(s['flow'][n])} left, {np.asarray(want)} entered {k} steps before"):
                return
    for p, d in net.params.items():
        if d["type"] != "flowdelay":
            continue
        k = delay_steps(net, d)
        for t, s in enumerate(trace):
            want = trace[t - k]["flow"][d["node"]] if t >= k else d.get("initial_flow", 0.0)
            if not ctx.ok(close(s["pv"][p], want, tol), "flowdelay", lambda: f"step {t} {s['date']} {p}: {s['pv'][p]}, flow {k} steps before {np.asarray(want)}"):
                return


def days_in_year(y):
    return 366 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 365


def check_licences(net, trace, ctx, tol=1e-6):
    """P08: the value of every licence parameter, and what was taken under it."""
    if not trace:
        return
    nc = net.ncomb(trace)
    for p, d in net.params.items():
        ty = d["type"]
        if ty not in ("annuallicense", "annualexponentiallicense", "annualhyperbolalicense", "storagelicense", "timesteplicense"):
            continue
        amt, node = d["amount"], d["node"]
        rem = np.full(nc, float(amt))
        year, prev = None, np.zeros(nc)
        taken = {}
        for t, s in enumerate(trace):
            start = pd.Timestamp(s["date"])
            f = np.asarray(s["flow"][node], float)
            y = start.year
            n = days_in_year(y)
            doy = (start - pd.Timestamp(y, 1, 1)).days + 1
            if ty.startswith("annual"):
                if y != year:
                    rem = np.maximum(amt - (doy - 1) * prev, 0.0)
                    year = y
                rate = rem / (n - doy + 1)
                over = s["days"] - (n - doy + 1)
                if over > 0:   # the part of the step after the year end is next year's
                    rate = np.minimum(rate, amt / over)
            if ty == "timesteplicense":
                want = np.full(nc, float(amt))
            elif ty == "storagelicense":
                want = rem / s["days"]
            elif ty == "annuallicense":
                want = rate
            else:
                x = rate / (amt / days_in_year(cal_date(net.doc, s["date"]).year))
                with np.errstate(divide="ignore"):
                    want = d["max_value"] * np.exp(-x / d.get("k", 1.0)) if ty == "annualexponentiallicense" else d["value"] / x
            ctx.state("lic", ty, t == 0, y != pd.Timestamp(trace[t - 1]["date"]).year if t else None, bool(np.any(rem < amt * 1e-3)), s["days"] > 1)
            if not ctx.ok(close(s["pv"][p], want, tol), "licence-value", lambda: f"step {t} {s['date']} {ty} {p}: {s['pv'][p]} / {want}; remaining {rem} of {amt}"):
                return
            # what was taken in each period, counted day by day
            if ty == "annuallicense":
                a = min(s["days"], n - doy + 1)
                taken[y] = taken.get(y, 0.0) + f * a
                taken[y + 1] = taken.get(y + 1, 0.0) + f * (s["days"] - a)
            elif ty == "storagelicense":
                taken[0] = taken.get(0, 0.0) + f * s["days"]
            for k, v in taken.items():
                if not ctx.ok(bool(np.all(v <= amt * (1 + 1e-6) + 1e-5)), "licence-exceeded", lambda: f"step {t} {s['date']} {ty} {p}: {v} taken in {k or 'all'} of {amt}"):
                    return
            rem = np.maximum(rem - f * s["days"], 0.0)
            prev = f
