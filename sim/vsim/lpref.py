"""Reference allocation problem of one step and scenario, built from the document alone.

An edge-based linear programme: one variable per declared edge (and per part of a
compound node), solved with scipy's HiGHS. It shares no code with pywr's solvers."""
import numpy as np
from scipy.optimize import linprog

INF = float("inf")
STOR = ("storage", "reservoir")


class LP:
    def __init__(self):
        self.c, self.lo, self.hi, self.names = [], [], [], []
        self.eq, self.ub = [], []          # (row dict, rhs)

    def var(self, name, lo=0.0, hi=INF, cost=0.0):
        self.c.append(cost)
        self.lo.append(lo)
        self.hi.append(hi)
        self.names.append(name)
        return len(self.c) - 1

    def row(self, terms, lo, hi):
        d = {}
        for j, a in terms:
            d[j] = d.get(j, 0.0) + a
        if lo == hi:
            self.eq.append((d, lo))
            return
        if hi < INF:
            self.ub.append((d, hi))
        if lo > -INF:
            self.ub.append(({j: -a for j, a in d.items()}, -lo))

    def mats(self):
        n = len(self.c)

        def mk(rows):
            if not rows:
                return None, None
            a = np.zeros((len(rows), n))
            b = np.zeros(len(rows))
            for i, (d, rhs) in enumerate(rows):
                for j, x in d.items():
                    a[i, j] = x
                b[i] = rhs
            return a, b

        return mk(self.ub), mk(self.eq)

    def solve(self, feasibility=False):
        (aub, bub), (aeq, beq) = self.mats()
        c = np.zeros(len(self.c)) if feasibility else np.array(self.c)
        if any(l > h for l, h in zip(self.lo, self.hi)):
            return "infeasible", None, None
        r = linprog(c, A_ub=aub, b_ub=bub, A_eq=aeq, b_eq=beq, bounds=list(zip(self.lo, self.hi)), method="highs")
        st = {0: "optimal", 2: "infeasible", 3: "unbounded"}.get(r.status, f"other{r.status}")
        if st == "other4":  # HiGHS: "infeasible or unbounded"
            r2 = linprog(np.zeros(len(self.c)), A_ub=aub, b_ub=bub, A_eq=aeq, b_eq=beq, bounds=list(zip(self.lo, self.hi)), method="highs")
            st = {0: "unbounded", 2: "infeasible"}.get(r2.status, st)
        return st, (r.fun if r.status == 0 else None), (r.x if r.status == 0 else None)

    def slack(self):
        """Least total violation (one non-negative slack per row and bound): 0 if feasible."""
        q = LP()
        for n, l, h in zip(self.names, self.lo, self.hi):
            q.var(n, -INF, INF)
        rows = [(d, r, r) for d, r in self.eq] + [(d, -INF, r) for d, r in self.ub]
        for j in range(len(self.c)):
            rows.append(({j: 1.0}, self.lo[j], self.hi[j]))
        for d, lo, hi in rows:
            if lo == -INF and hi == INF:
                continue
            p, m = q.var("s+", 0, INF, 1.0), q.var("s-", 0, INF, 1.0)
            q.row(list(d.items()) + [(p, 1.0), (m, -1.0)], lo, hi)
        st, fun, _ = q.solve()
        return fun if st == "optimal" else None


def snap(x):
    return 0.0 if abs(x) < 1e-8 else x


def storage_cost(nd, V, pc):
    """Reservoirs may declare another cost for when they start a step at or above a curve."""
    c = V(nd.get("cost")) if nd.get("cost") is not None else 0.0
    if nd.get("above_curve_cost") is not None:
        pc = 1.0 if pc != pc else min(max(pc, 0.0), 1.0)
        cc = nd.get("control_curve")
        if pc >= (1.0 if cc is None else V(cc)):
            return V(nd["above_curve_cost"])
    return c


class Ref:
    """Builds LPs for a document. `pv(name)` gives parameter arrays, `vol(node)` volumes."""

    def __init__(self, net):
        self.net = net

    def build(self, i, days, pv, vol, pc, active, prev_out=None):
        """The LP of scenario i. prev_out: flow released by each delay node."""
        net = self.net
        lp = LP()
        V = lambda spec, d=None: d if spec is None else (float(pv[spec][i]) if isinstance(spec, str) else float(spec))
        edges = [lp.var(("e",) + e) for e in net.edges]
        into = {n: {} for n in net.nodes}
        out = {n: {} for n in net.nodes}
        for j, (a, b, sa, sb) in zip(edges, net.edges):
            out[a].setdefault(net.out_ports(a, sa)[0][1], []).append(j)
            into[b].setdefault(net.in_ports(b, sb)[0][1], []).append(j)
        self.flow = {}   # node -> terms of its flow

        def allin(n):
            return [(j, 1.0) for k in into[n].values() for j in k]

        def allout(n):
            return [(j, 1.0) for k in out[n].values() for j in k]

        neg = lambda ts: [(j, -a) for j, a in ts]
        for n, nd in net.nodes.items():
            t = net.typ(n)
            if t in ("aggregatednode", "aggregatedstorage") or "virtualstorage" in t:
                continue
            if t in STOR:
                v = float(vol[n][i])
                mx, mn = V(nd["max_volume"]), V(nd.get("min_volume"), 0.0)
                lb, ub = -max(v - mn, 0.0) / days, max(mx - v, 0.0) / days
                lb, ub = snap(lb), snap(ub)
                if mx == mn:
                    lb = ub = 0.0
                c = storage_cost(nd, V, float(pc[n][i]))
                fin, fout = allin(n), allout(n)
                lp.row(fin + neg(fout), lb, ub)
                for j, _ in fin:
                    lp.c[j] += c
                for j, _ in fout:
                    lp.c[j] -= c
                self.flow[n] = fin + neg(fout)
                continue
            mn, mx = V(nd.get("min_flow"), 0.0), V(nd.get("max_flow"), INF)
            cost = V(nd.get("cost"), 0.0)
            mn, mx = snap(mn), snap(mx)
            if t == "catchment":
                mn = mx = snap(V(nd.get("flow"), 0.0))
            f = lp.var(("f", n))
            if t in ("input", "catchment", "simpowerinput"):
                lp.row([(f, 1.0)] + neg(allout(n)), 0.0, 0.0)
                lp.lo[f], lp.hi[f], lp.c[f] = mn, mx, cost
            elif t in ("output", "simpoweroutput"):
                lp.row([(f, 1.0)] + neg(allin(n)), 0.0, 0.0)
                lp.lo[f], lp.hi[f], lp.c[f] = mn, mx, cost
            elif t in ("link", "river", "breaklink"):
                lp.row([(f, 1.0)] + neg(allin(n)), 0.0, 0.0)
                lp.row([(f, 1.0)] + neg(allout(n)), 0.0, 0.0)
                lp.lo[f], lp.hi[f], lp.c[f] = mn, mx, cost
            elif t == "losslink":
                g, l = lp.var(("gross", n)), lp.var(("loss", n))
                lp.row([(g, 1.0)] + neg(allin(n)), 0.0, 0.0)
                lp.row([(g, 1.0), (f, -1.0), (l, -1.0)], 0.0, 0.0)
                lp.row([(f, 1.0)] + neg(allout(n)), 0.0, 0.0)
                lp.lo[f], lp.hi[f], lp.c[f] = mn, mx, cost
                lf = V(nd.get("loss_factor", 0.0))
                if nd.get("loss_factor_type", "net") == "net":
                    lp.row([(l, 1.0), (f, -lf)], 0.0, 0.0)
                else:
                    lp.row([(l, 1.0), (g, -lf)], 0.0, 0.0)
            elif t == "delaynode":
                fi = lp.var(("in", n))
                lp.row([(fi, 1.0)] + neg(allin(n)), 0.0, 0.0)
                lp.row([(f, 1.0)] + neg(allout(n)), 0.0, 0.0)
                lp.lo[f] = lp.hi[f] = max(snap(float(prev_out[n][i])), 0.0)
            elif t in ("piecewiselink", "rivergauge", "multisplitlink", "riversplit", "riversplitwithgauge"):
                self.parts(lp, n, nd, t, f, V, allin(n), out[n], allout(n))
            else:
                raise KeyError(t)
            self.flow[n] = [(f, 1.0)]
        for n, gs in net.crossing.items():
            lp.row(self.flow[n] + [(j, -a / net.nodes[g].get("conversion_factor", 1.0)) for g in gs for j, a in self.flow[g]], 0.0, 0.0)
        for n, nd in net.nodes.items():
            t = net.typ(n)
            if t == "aggregatednode":
                mem = [self.flow[m] for m in nd["nodes"]]
                if nd.get("factors"):
                    w = [V(x) for x in nd["factors"]]
                    for q, x in zip(mem[1:], w[1:]):
                        lp.row([(j, a * w[0]) for j, a in q] + [(j, -a * x) for j, a in mem[0]], 0.0, 0.0)
                if nd.get("min_flow") is not None or nd.get("max_flow") is not None or not any(net.typ(m) in STOR for m in nd["nodes"]):
                    ws = nd.get("flow_weights") or [1.0] * len(mem)
                    terms = [(j, a * x) for q, x in zip(mem, ws) for j, a in q]
                    lp.row(terms, snap(V(nd.get("min_flow"), -INF)), snap(V(nd.get("max_flow"), INF)))
            elif "virtualstorage" in t:
                if not active[n]:
                    continue
                v = float(vol[n][i])
                mx, mn = V(nd["max_volume"]), V(nd.get("min_volume"), 0.0)
                fac = nd.get("factors") or [1.0] * len(nd["nodes"])
                terms = [(j, -a * x) for m, x in zip(nd["nodes"], fac) for j, a in self.flow[m]]
                lp.row(terms, snap(-max(v - mn, 0.0) / days), snap(max(mx - v, 0.0) / days))
        return lp

    def parts(self, lp, n, nd, t, f, V, fin, outs, fout):
        """Sublinks of piecewise and split links."""
        neg = lambda ts: [(j, -a) for j, a in ts]
        if t == "rivergauge":
            mfs, costs = [nd.get("mrf", 0.0), None], [nd.get("mrf_cost", 0.0), nd.get("cost", 0.0)]
        elif t == "riversplitwithgauge":
            mfs, costs = [nd.get("mrf", 0.0), None], [nd.get("mrf_cost", 0.0), nd.get("cost", 0.0)]
        elif t == "riversplit":
            k = nd.get("nsteps", 1)
            mfs, costs = nd.get("max_flows") or [None] * k, nd.get("costs") or [None] * k
        else:
            k = nd["nsteps"]
            mfs, costs = nd.get("max_flows") or [None] * k, nd.get("costs") or [None] * k
        split = t in ("multisplitlink", "riversplit", "riversplitwithgauge")
        ne = (len(nd["slot_names"]) - 1) if split else 0
        base = nd.get("nsteps", {"riversplit": 1, "riversplitwithgauge": 2, "rivergauge": 2}.get(t))
        nsub = base + ne
        mfs = list(mfs) + [None] * (nsub - len(mfs))
        costs = list(costs) + [None] * (nsub - len(costs))
        subs = [lp.var(("sub", n, k), 0.0, snap(V(mfs[k], INF)), V(costs[k], 0.0)) for k in range(nsub)]
        lp.row([(f, 1.0)] + neg(fin), 0.0, 0.0)
        lp.row([(f, 1.0)] + [(s, -1.0) for s in subs], 0.0, 0.0)
        lp.row([(f, 1.0)] + neg(fout), 0.0, 0.0)
        if split:
            for e in range(ne):
                # the slot's part may also leave by the first slot
                lp.row([(j, 1.0) for j in outs.get(1 + e, [])] + [(subs[base + e], -1.0)], -INF, 0.0)
            if nd.get("factors"):
                fac = [V(x) for x in nd["factors"]]
                part = subs[nsub - len(fac):]
                for s, w in zip(part[1:], fac[1:]):
                    lp.row([(s, fac[0]), (part[0], -w)], 0.0, 0.0)


def actual_cost(net, i, pv, pc, flow):
    """Total cost of the flows the model chose, from every (sub-)node's own flow."""
    V = lambda spec: 0.0 if spec is None else (float(pv[spec][i]) if isinstance(spec, str) else float(spec))
    tot = 0.0
    for n, nd in net.nodes.items():
        t = net.typ(n)
        g = lambda k: float(flow[k][i])
        if t in ("aggregatednode", "aggregatedstorage") or "virtualstorage" in t or t == "delaynode":
            continue
        if t in STOR:
            c = storage_cost(nd, V, float(pc[n][i]))
            a, b = net.nports(n)
            tot += c * sum(g(f"{n}.[output{k}]") for k in range(b)) - c * sum(g(f"{n}.[input{k}]") for k in range(a))
        elif t in ("piecewiselink", "multisplitlink", "riversplit"):
            for k, c in enumerate(nd.get("costs") or []):
                if c is not None:
                    tot += V(c) * g(f"{n}.{n} Sublink {k}")
        elif t in ("rivergauge", "riversplitwithgauge"):
            tot += V(nd.get("mrf_cost")) * g(f"{n}.{n} Sublink 0") + V(nd.get("cost")) * g(f"{n}.{n} Sublink 1")
        elif t == "losslink":
            tot += V(nd.get("cost")) * (g(f"{n}.{n} Net") if f"{n}.{n} Net" in flow else g(n))
        else:
            tot += V(nd.get("cost")) * g(n)
    return tot
