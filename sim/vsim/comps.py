"""Simulator-owned components: seeded inputs, fault points, lifecycle probes, observer.

They use only pywr's public extension points (Parameter/Recorder subclasses)."""
import numpy as np
from pywr.parameters import Parameter, IndexParameter, load_parameter
from pywr.recorders import Recorder

from .rng import mix


class FaultError(RuntimeError):
    """The error the simulator injects."""


class Plan:
    """The fault plan and lifecycle log of the running case (process-wide; one case per process)."""

    faults = []   # dicts: comp, phase, at (nth call of that phase since arm), exc
    counts = {}
    fired = []
    log = None    # list of (phase, comp, ts index, scenario id) when recording

    @classmethod
    def clear(cls):
        cls.faults, cls.counts, cls.fired, cls.log = [], {}, [], None

    @classmethod
    def arm(cls, faults):
        cls.faults = [dict(f) for f in faults]
        cls.counts = {}
        cls.fired = []

    @classmethod
    def hit(cls, comp, phase, tsi=None, si=None):
        if cls.log is not None:
            cls.log.append((phase, comp, tsi, si))
        if not cls.faults:
            return None
        key = (comp, phase)
        n = cls.counts.get(key, 0)
        cls.counts[key] = n + 1
        for f in cls.faults:
            if f["comp"] == comp and f["phase"] == phase and not f.get("done"):
                if "at_ts" in f:
                    if tsi != f["at_ts"]:
                        continue
                    if f.get("si") is not None and si != f["si"]:
                        continue
                elif n != f.get("at", 0):
                    continue
                f["done"] = True
                cls.fired.append(f)
                exc = f["exc"]
                if exc == "nan":
                    return float("nan")
                if exc == "big":
                    return f.get("value", 1e9)
                f["err"] = make_exc(exc, f"injected {phase} {comp}")
                raise f["err"]
        return None


def make_exc(kind, msg):
    return {
        "fault": FaultError, "value": ValueError, "keyboard": KeyboardInterrupt, "systemexit": SystemExit,
        "memory": MemoryError, "io": OSError, "zerodiv": ZeroDivisionError, "key": KeyError, "assert": AssertionError,
        "stopiter": StopIteration, "attr": AttributeError,
    }[kind](msg)


EXC_KINDS = ["fault", "value", "keyboard", "systemexit", "memory", "io", "zerodiv", "key", "assert", "attr"]


class SimSeriesParameter(Parameter):
    """Value is a pure function of (seed, date, index in a named scenario)."""

    def __init__(self, model, seed, lo, hi, mode="iid", scenario=None, alter=None, period=7, **kwargs):
        super().__init__(model, **kwargs)
        self.seed, self.lo, self.hi, self.mode, self.period = seed, lo, hi, mode, period
        self.alter = alter          # (date ordinal, new seed): values from that date differ
        self.scenario = scenario
        self._pos = None

    def setup(self):
        super().setup()
        self._pos = None
        if self.scenario is not None:
            self._pos = self.model.scenarios.get_scenario_index(self.scenario)

    def value(self, ts, si):
        if Plan.log is not None:
            Plan.log.append(("value", self.name, ts.index, si.global_id))
        o = ts.period.start_time.toordinal()
        seed = self.seed
        if self.alter is not None and o >= self.alter[0]:
            seed = self.alter[1]
        k = 0 if self._pos is None else int(si.indices[self._pos]) + 1
        m = self.mode
        if m == "const":
            u = mix(seed, k)
        elif m == "sticky":
            u = mix(seed, o // self.period, k)
        elif m == "season":
            d = (o % 365) / 365.0
            u = 0.5 * (1 - abs(2 * ((d + mix(seed, k)) % 1.0) - 1)) + 0.5 * mix(seed, o, k)
        elif m == "pulse":
            u = mix(seed, o, k)
            u = u if mix(seed, o // self.period, k, 9) > 0.5 else 0.0
        else:
            u = mix(seed, o, k)
        return self.lo + (self.hi - self.lo) * u

    @classmethod
    def load(cls, model, data):
        sc = data.pop("scenario", None)
        if sc is not None:
            sc = model.scenarios[sc]
        return cls(model, scenario=sc, **data)


class SimIndexParameter(IndexParameter):
    """Seeded index (0..n-1), sticky over `period` days; value = index * 0.5 + 0.25."""

    def __init__(self, model, seed, n=2, period=5, scenario=None, alter=None, **kwargs):
        super().__init__(model, **kwargs)
        self.seed, self.n, self.period, self.scenario, self.alter = seed, n, period, scenario, alter
        self._pos = None

    def setup(self):
        super().setup()
        self._pos = None
        if self.scenario is not None:
            self._pos = self.model.scenarios.get_scenario_index(self.scenario)

    def index(self, ts, si):
        o = ts.period.start_time.toordinal()
        seed = self.seed
        if self.alter is not None and o >= self.alter[0]:
            seed = self.alter[1]
        k = 0 if self._pos is None else int(si.indices[self._pos]) + 1
        return int(self.n * mix(seed, o // self.period, k)) % self.n

    def value(self, ts, si):
        return self.index(ts, si) * 0.5 + 0.25

    @classmethod
    def load(cls, model, data):
        sc = data.pop("scenario", None)
        if sc is not None:
            sc = model.scenarios[sc]
        return cls(model, scenario=sc, **data)


class SimTableParameter(Parameter):
    """Given values, by step and scenario."""

    def __init__(self, model, values, **kwargs):
        super().__init__(model, **kwargs)
        self.table = values

    def value(self, ts, si):
        return self.table[ts.index][si.global_id]

    @classmethod
    def load(cls, model, data):
        return cls(model, **data)


class SimTableIndexParameter(IndexParameter):
    """Given indices, by step and scenario (the value of an index parameter that only has an index is zero)."""

    def __init__(self, model, values, **kwargs):
        super().__init__(model, **kwargs)
        self.table = values

    def index(self, ts, si):
        return int(self.table[ts.index][si.global_id])

    @classmethod
    def load(cls, model, data):
        return cls(model, **data)


class SimFaultParameter(Parameter):
    """Passes a child's value (or a constant) on; a fault point in every phase."""

    def __init__(self, model, base=0.0, kids=(), **kwargs):
        super().__init__(model, **kwargs)
        self.base = base
        if isinstance(base, Parameter):
            self.children.add(base)
        self.kids = [k for k in kids]
        for k in self.kids:
            self.children.add(k)

    def _ts(self):
        try:
            return self.model.timestepper.current.index
        except Exception:
            return None

    def setup(self):
        super().setup()
        Plan.hit(self.name, "setup")

    def reset(self):
        super().reset()
        Plan.hit(self.name, "reset")

    def before(self):
        Plan.hit(self.name, "before", self._ts())

    def after(self):
        Plan.hit(self.name, "after", self._ts())

    def finish(self):
        Plan.hit(self.name, "finish")

    def value(self, ts, si):
        alt = Plan.hit(self.name, "value", ts.index, si.global_id)
        b = self.base
        v = b.get_value(si) if isinstance(b, Parameter) else b
        return v if alt is None else alt

    @classmethod
    def load(cls, model, data):
        base = data.pop("base", 0.0)
        if not isinstance(base, (int, float)):
            base = load_parameter(model, base)
        kids = [load_parameter(model, k) for k in data.pop("kids", [])]
        return cls(model, base, kids, **data)


class SimFaultIndexParameter(IndexParameter):
    """Passes an index parameter's index on; a fault point in every phase."""

    def __init__(self, model, base, **kwargs):
        super().__init__(model, **kwargs)
        self.base = base
        self.children.add(base)

    _ts = SimFaultParameter._ts

    def setup(self):
        super().setup()
        Plan.hit(self.name, "setup")

    def reset(self):
        super().reset()
        Plan.hit(self.name, "reset")

    def before(self):
        Plan.hit(self.name, "before", self._ts())

    def after(self):
        Plan.hit(self.name, "after", self._ts())

    def finish(self):
        Plan.hit(self.name, "finish")

    def index(self, ts, si):
        Plan.hit(self.name, "value", ts.index, si.global_id)
        return self.base.get_index(si)

    @classmethod
    def load(cls, model, data):
        return cls(model, load_parameter(model, data.pop("base")), **data)


class SimFaultRecorder(Recorder):
    """A recorder that records nothing and is a fault point in every phase."""

    def __init__(self, model, param=None, **kwargs):
        super().__init__(model, **kwargs)
        if param is not None:
            self.children.add(param)

    def _ts(self):
        try:
            return self.model.timestepper.current.index
        except Exception:
            return None

    def setup(self):
        Plan.hit(self.name, "setup")

    def reset(self):
        Plan.hit(self.name, "reset")

    def before(self):
        Plan.hit(self.name, "before", self._ts())

    def after(self):
        Plan.hit(self.name, "after", self._ts())

    def finish(self):
        Plan.hit(self.name, "finish")

    @property
    def data(self):
        Plan.hit(self.name, "values", self._ts())
        return np.zeros((len(self.model.timestepper), len(self.model.scenarios.combinations)))

    def values(self):
        Plan.hit(self.name, "values", self._ts())
        return np.zeros(len(self.model.scenarios.combinations))

    @classmethod
    def load(cls, model, data):
        p = data.pop("param", None)
        if p is not None:
            p = load_parameter(model, p)
        return cls(model, param=p, **data)


class Observer(Recorder):
    """Snapshots the whole model after every step of the current run."""

    def __init__(self, model, name="__observer", **kwargs):
        super().__init__(model, name=name, **kwargs)
        self.trace = []
        self.finishes = 0
        self.resets = 0
        self._plan = None
        self.early = None       # a list when what a step starts with is to be recorded too

    def setup(self):
        self._plan = None

    def _build(self):
        from pywr._core import AbstractStorage
        flows, vols, params, idx = [], [], [], []
        for n in self.model.graph.nodes():
            nm = n.fully_qualified_name
            flows.append((nm, n))
            if isinstance(n, AbstractStorage):
                vols.append((nm, n))
        for c in self.model.parameters:
            if c.name is None:
                continue
            params.append((c.name, c))
            if isinstance(c, IndexParameter):
                idx.append((c.name, c))
        self._plan = flows, vols, params, idx

    def reset(self):
        self.trace = []
        self.resets += 1
        if self.early is not None:
            self.early = []

    def before(self):
        if self._plan is None:
            self._build()
        if self.early is not None:
            flows, vols, _, _ = self._plan
            self.early.append({
                "prev": {n: np.array(o.prev_flow) for n, o in flows},
                "vol": {n: np.array(o.volume) for n, o in vols},
                "pc": {n: np.array(o.current_pc) for n, o in vols},
            })

    def after(self):
        if self._plan is None:
            self._build()
        ts = self.model.timestepper.current
        flows, vols, params, idx = self._plan
        self.trace.append({
            "i": int(ts.index),
            "ord": ts.period.start_time.toordinal(),
            "date": str(ts.period.start_time),
            "days": float(ts.days),
            "flow": {n: o.flow for n, o in flows},
            "prev": {n: o.prev_flow for n, o in flows},
            "vol": {n: np.array(o.volume) for n, o in vols},
            "pc": {n: np.array(o.current_pc) for n, o in vols},
            "pv": {n: np.array(o.get_all_values()) for n, o in params},
            "pi": {n: np.array(o.get_all_indices()) for n, o in idx},
        })

    def finish(self):
        self.finishes += 1

    def values(self):
        return np.zeros(len(self.model.scenarios.combinations))


for _c in (SimTableParameter, SimTableIndexParameter, SimSeriesParameter, SimIndexParameter, SimFaultParameter, SimFaultIndexParameter):
    _c.register()
for _c in (SimFaultRecorder,):
    _c.register()


# -- a second domain, declared the way the river domain is ------------------------------
from pywr.core import Domain  # noqa: E402
from pywr.nodes import Input, Link, Output  # noqa: E402


class SimFaultLink(Link):
    """A link whose limits and cost are fault points of their own (a user's node with its own getters)."""

    def _ts(self):
        c = self.model.timestepper.current
        return -1 if c is None else c.index

    def get_max_flow(self, si):
        Plan.hit("link:" + self.name, "get_max_flow", self._ts(), getattr(si, "global_id", None))
        return Link.get_max_flow(self, si)

    def get_min_flow(self, si):
        Plan.hit("link:" + self.name, "get_min_flow", self._ts(), getattr(si, "global_id", None))
        return Link.get_min_flow(self, si)

    def get_cost(self, si):
        Plan.hit("link:" + self.name, "get_cost", self._ts(), getattr(si, "global_id", None))
        return Link.get_cost(self, si)


POWER = Domain(name="power", color="#ff0000")


class SimPowerInput(Input):
    def __init__(self, *args, **kwargs):
        kwargs["domain"] = POWER
        super().__init__(*args, **kwargs)


class SimPowerOutput(Output):
    def __init__(self, *args, **kwargs):
        kwargs["domain"] = POWER
        super().__init__(*args, **kwargs)
