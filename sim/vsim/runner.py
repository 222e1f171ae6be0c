"""Runs simulated cases: one forked process per case, seeded, shrunk and replayable.

A case is a JSON document.  Property modules (props/pXX.py) provide
    gen(rng, i, tier) -> case          a pure function of the rng
    run(case, ctx)                     runs it; reports through ctx
    shrink(case) -> iterable of cases  (optional) smaller candidates
    N = {"quick": n, "thorough": n}    number of cases
"""
import hashlib
import importlib
import json
import os
import selectors
import signal
import sys
import tempfile
import time
import traceback

from .rng import R, derive

HOME = os.environ.get("VSIM_HOME", os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
OUT = os.path.join(HOME, "out")
REPO = "/repo"


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class Ctx:
    """What a running case reports into."""

    def __init__(self, seed=0):
        self.violations = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.h = hashlib.sha256()
        self.steps = 0
        self.days = 0.0
        self.checks = 0
        self.nontrivial = False
        self.log_tail = []
        self.log_n = 0
        self.scratch = None

    def log(self, *ev):
        """The event log: its digest is what determinism is judged by."""
        s = repr(ev)
        self.h.update(s.encode())
        self.h.update(b"\n")
        self.log_n += 1
        self.log_tail.append(s[:300])
        if len(self.log_tail) > 60:
            del self.log_tail[:20]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(derive(*key) & 0xFFFFFFFF)

    def bad(self, kind, msg):
        msg = str(msg)[:1500]
        self.log("VIOLATION", kind, msg)
        if len(self.violations) < 20:
            self.violations.append({"kind": kind, "msg": msg})

    def ok(self, cond, kind, msg):
        self.checks += 1
        if not cond:
            self.bad(kind, msg() if callable(msg) else msg)
        return cond

    def result(self):
        return {
            "violations": self.violations,
            "faults": self.faults,
            "probes": self.probes,
            "states": sorted(self.states),
            "digest": self.h.hexdigest(),
            "steps": self.steps,
            "days": self.days,
            "checks": self.checks,
            "nontrivial": self.nontrivial,
            "tail": self.log_tail[-25:] if self.violations else [],
        }


def load_prop(pid):
    return importlib.import_module("vsim.props." + pid.lower())


def gen_case(mod, pid, seed, i, tier):
    cs = derive(seed, pid, i)
    case = mod.gen(R(cs), i, tier)
    case["prop"] = pid
    case["case_seed"] = cs
    return json.loads(json.dumps(case))


def _frames(tb):
    out = []
    while tb is not None:
        out.append(tb.tb_frame.f_code.co_filename + ":" + tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return out


def _child(mod, case, wfd, debug=False):
    """Runs in the forked child. Never returns."""
    rc = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        ctx = Ctx()
        base = os.path.join(OUT, "scratch")
        os.makedirs(base, exist_ok=True)
        ctx.scratch = tempfile.mkdtemp(prefix="c", dir=base)
        os.chdir(ctx.scratch)
        if not debug:
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            sys.stdout = open(os.devnull, "w")
            sys.stderr = open(os.devnull, "w")
        err = None
        try:
            mod.run(case, ctx)
        except Violation as v:
            ctx.bad(v.kind, v.msg)
        except BaseException as e:  # noqa
            err = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            fr = _frames(e.__traceback__)
            # an exception that escapes the code under test where the property
            # module did not expect one
            ctx.log("EXC", type(e).__name__)
            if any("/repo/pywr" in f or f.startswith("pywr/") for f in fr):
                ctx.bad("exception:" + type(e).__name__, err[-1400:])
                err = None
        res = ctx.result()
        res["harness_error"] = err
        data = json.dumps(res).encode()
        mv = memoryview(data)
        while mv:
            n = os.write(wfd, mv[:65536])
            mv = mv[n:]
    except BaseException:  # noqa
        rc = 3
    finally:
        try:
            os.close(wfd)
            os.chdir("/")
            if ctx.scratch and ctx.scratch.startswith(os.path.join(OUT, "scratch") + os.sep):
                import shutil

                shutil.rmtree(ctx.scratch, ignore_errors=True)
        except BaseException:  # noqa
            pass
        os._exit(rc)


class Pool:
    def __init__(self, mod, workers=8, timeout=60.0):
        self.mod, self.workers, self.timeout = mod, workers, timeout
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def start(self, key, case):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in list(self.live):
                try:
                    os.close(fd)
                except OSError:
                    pass
            _child(self.mod, case, w)
        os.close(w)
        self.live[r] = [key, case, pid, time.monotonic(), b""]
        self.sel.register(r, selectors.EVENT_READ)

    def poll(self, wait=0.5):
        """Yields (key, case, result) for finished children."""
        done = []
        for sk, _ in self.sel.select(wait):
            fd = sk.fd
            rec = self.live[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                rec[4] += chunk
                continue
            done.append((fd, None))
        now = time.monotonic()
        for fd, rec in list(self.live.items()):
            if now - rec[3] > self.timeout and all(fd != d[0] for d in done):
                try:
                    os.kill(rec[2], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                done.append((fd, "hang"))
        out = []
        for fd, why in done:
            key, case, pid, t0, data = self.live.pop(fd)
            self.sel.unregister(fd)
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            if why == "hang":
                res = _synthetic("hang", f"case did not finish within {self.timeout:.0f} s")
            elif os.WIFSIGNALED(status):
                res = _synthetic("crash:signal%d" % os.WTERMSIG(status), "the process died")
            else:
                try:
                    res = json.loads(data.decode())
                except ValueError:
                    res = _synthetic("crash:exit%d" % os.WEXITSTATUS(status), "no result from the process")
            out.append((key, case, res))
        return out

    def one(self, case):
        self.start(0, case)
        while True:
            for _, _, res in self.poll():
                return res


def _synthetic(kind, msg):
    return {
        "violations": [{"kind": kind, "msg": msg}], "faults": {}, "probes": {}, "states": [],
        "digest": kind, "steps": 0, "days": 0, "checks": 0, "nontrivial": False, "tail": [],
        "harness_error": None, "synthetic": True,
    }


def kinds(res):
    return [v["kind"] for v in res["violations"]]


def load_known():
    path = os.path.join(HOME, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("open", [])


def match_known(known, pid, v):
    for k in known:
        if k["property"] == pid and k["kind"] == v["kind"] and all(s in v["msg"] for s in k.get("contains", [])):
            return k
    return None


def shrink(mod, case, kind, budget, workers):
    """Greedy parallel shrink: keeps the violation kind."""
    fn = getattr(mod, "shrink", None)
    if fn is None:
        return case, 0
    t0 = time.monotonic()
    tried = 0
    pool = Pool(mod, workers, timeout=30.0)
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        size = len(json.dumps(case))
        queue = []
        for c in fn(case):
            c = json.loads(json.dumps(c))
            c["prop"], c["case_seed"] = case["prop"], case["case_seed"]
            if json.dumps(c) != json.dumps(case):
                queue.append(c)
            if len(queue) > 400:
                break
        i = 0
        best = None
        while (i < len(queue) or pool.live) and best is None and time.monotonic() - t0 < budget:
            while i < len(queue) and len(pool.live) < workers:
                pool.start(i, queue[i])
                i += 1
            for key, c, res in pool.poll(0.2):
                tried += 1
                if kind in kinds(res) and res.get("harness_error") is None:
                    if best is None or key < best[0]:
                        best = (key, c)
        while pool.live:
            for key, c, res in pool.poll(0.2):
                tried += 1
                if kind in kinds(res) and res.get("harness_error") is None and (best is None or key < best[0]):
                    best = (key, c)
        if best is not None:
            case = best[1]
            progress = True
    return case, tried


def run_property(pid, seed, tier, workers=8, n=None, quiet=False, evidence=True):
    mod = load_prop(pid)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    n = n or int(os.environ.get("VSIM_N", 0)) or mod.N[tier]
    cap = float(os.environ.get("VSIM_CAP", 420.0 if tier == "quick" else 3000.0))
    timeout = getattr(mod, "TIMEOUT", 60.0)
    t0 = time.monotonic()
    pool = Pool(mod, workers, timeout)
    results = {}
    known = load_known()
    i = 0
    viol = []
    known_hits = {}
    herr = []
    print(f"{pid}: seed={seed} tier={tier} cases={n}", flush=True)
    capped = False
    while i < n or pool.live:
        if time.monotonic() - t0 > cap and i < n:
            capped = True
            n = i
        while i < n and len(pool.live) < workers:
            pool.start(i, gen_case(mod, pid, seed, i, tier))
            i += 1
        for key, case, res in pool.poll():
            results[key] = res
            if res.get("harness_error"):
                herr.append((key, res["harness_error"]))
            for v in res["violations"]:
                k = match_known(known, pid, v)
                if k is not None:
                    known_hits.setdefault(k["id"], [k, 0])[1] += 1
                else:
                    viol.append((key, case, v))
        # stop early once there is plenty to report
        if len({k for k, _, _ in viol}) >= 12:
            n = i
    wall = time.monotonic() - t0
    rc = 0
    reported = []
    if viol:
        viol.sort(key=lambda t: t[0])
        seen = set()
        t_sh = time.monotonic()
        for key, case, v in viol:
            if v["kind"] in seen or len(seen) >= 4:
                continue
            # hangs and crashes are only reported when they happen again
            if results[key].get("synthetic"):
                p2 = Pool(mod, 1, timeout * 2)
                r2 = p2.one(case)
                if v["kind"] not in kinds(r2):
                    if v["kind"] == "hang" and not r2["violations"]:
                        print(f"{pid}: case {key} was slow once, and passed when run again", flush=True)
                        continue
                    if not r2["violations"]:
                        herr.append((key, "unrepeatable " + v["kind"]))
                        continue
            seen.add(v["kind"])
            budget = 0 if os.environ.get("VSIM_NOSHRINK") else max(5.0, (60 if tier == "quick" else 240) - (time.monotonic() - t_sh))
            small, tried = shrink(mod, case, v["kind"], budget, workers) if budget else (case, 0)
            res = Pool(mod, 1, timeout * 2).one(small)
            vv = [x for x in res["violations"] if x["kind"] == v["kind"]] or [v]
            rdir = os.path.join(OUT, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{pid}-{seed}-{key}-{hashlib.sha256(v['kind'].encode()).hexdigest()[:6]}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "case_index": key, "kind": v["kind"], "message": vv[0]["msg"],
                           "digest": res["digest"], "shrink_runs": tried, "case": small,
                           "original_case": case, "event_tail": res["tail"]}, f, indent=1)
            print(f"{pid}: {v['kind']}: {vv[0]['msg'][:700]}", flush=True)
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            reported.append({"kind": v["kind"], "message": vv[0]["msg"][:500], "replay": path, "case_index": key})
        if reported:
            rc = 1
    for kid, (k, cnt) in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={pid} {k['what']} ({cnt} simulated runs)", flush=True)
    if known:
        for k in known:
            if k["property"] == pid and k["id"] not in known_hits:
                print(f"KNOWN-FINDING: property={pid} {k['what']} (not met in this run)", flush=True)
    if herr:
        for key, e in herr[:3]:
            print(f"{pid}: harness error in case {key}:\n{e}", flush=True)
        rc = rc or 2
    if not results:
        print(f"{pid}: no case ran", flush=True)
        rc = rc or 2
    if evidence:
        write_evidence(pid, mod, seed, tier, results, wall, reported, capped, known_hits)
    tot = sum(r["steps"] for r in results.values())
    if not quiet:
        print(f"{pid}: {len(results)} runs, {tot} simulated steps, {sum(r['checks'] for r in results.values())} checks, "
              f"{len(herr)} harness errors, {wall:.1f} s, rc={rc}", flush=True)
    return rc, results


def write_evidence(pid, mod, seed, tier, results, wall, reported, capped, known_hits):
    faults, probes, states = {}, {}, set()
    for r in results.values():
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r["states"])
    dg = {r["digest"] for r in results.values()}
    nontriv = {r["digest"] for r in results.values() if r["nontrivial"]}
    runs = len(results)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(r["checks"] for r in results.values()),
            "distinct_nontrivial": len(nontriv),
            "rule": getattr(mod, "RULE", "a simulated run whose event log differs from every other and which took at least one step and had its property evaluated"),
            "samples": [
                {"case": k, "digest": results[k]["digest"][:16], "steps": results[k]["steps"], "checks": results[k]["checks"], "faults": results[k]["faults"]}
                for k in sorted(results)[:5]
            ],
            "simulated_runs": runs,
            "runs_per_hour": round(runs / max(wall, 1e-3) * 3600),
            "seeds_per_hour": round(runs / max(wall, 1e-3) * 3600),
            "simulated_steps": sum(r["steps"] for r in results.values()),
            "simulated_days": round(sum(r["days"] for r in results.values()), 1),
            "fault_kinds": faults,
            "probes": probes,
            "distinct_event_logs": len(dg),
            "distinct_states": len(states),
            "state_measure": getattr(mod, "STATE_MEASURE", "distinct (operation/fault kind, phase, outcome) tuples reached"),
            "real_components": getattr(mod, "REAL", "pywr model, nodes, parameters, recorders, timestepper and GLPK/lp_solve solvers: all real code"),
            "stub_components": getattr(mod, "STUB", "input series and fault components (vsim.comps); clocks where the property has one"),
            "stopped_at_time_cap": capped,
            "known_findings_met": {k: v[1] for k, v in known_hits.items()},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", ["seeded sampling, not exhaustive", "floating point comparisons within the stated tolerances"]),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if reported:
        ev["coverage"]["reported"] = reported
    d = os.path.join(HOME, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


def replay(path, debug=False):
    with open(path) as f:
        rep = json.load(f)
    mod = load_prop(rep["property"])
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    res = Pool(mod, 1, 300).one(rep["case"])
    same = rep["kind"] in kinds(res)
    for v in res["violations"]:
        print(f"{rep['property']}: {v['kind']}: {v['msg']}")
    if res.get("harness_error"):
        print(res["harness_error"])
    print("digest", "identical" if res["digest"] == rep.get("digest") else f"differs ({res['digest'][:16]} / {str(rep.get('digest'))[:16]})")
    if same:
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    return 0
