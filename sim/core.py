"""Simulation kernel: one context per simulated run.

Everything here is process-global on purpose: a simulated run is executed in a freshly forked
child of an interpreter that has only imported the code under test, so the process *is* the
simulated world.
"""
import hashlib
import json
import math
import os
import random
import sys
import traceback

_REAL = {}


class SimCrash(BaseException):
    """The simulated process dies here (kill -9 / power cut)."""


class SimHang(BaseException):
    """The deterministic step budget of the run is used up."""


class Violation(BaseException):
    """An oracle failed.  BaseException so that the code under test cannot swallow it."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class HarnessError(BaseException):
    """The simulator itself is at fault (never reported as a violation)."""


class Ctx:
    """State of the run that is currently executing in this process."""

    def __init__(self, scenario, scratch):
        self.scenario = scenario
        self.scratch = scratch
        self.now = 1.6e9 + (scenario.get("seed", 0) % 1000) * 1e4
        self.t0 = self.now
        self.clock_rng = random.Random(f"clock/{scenario.get('clock_seed', scenario.get('seed', 0))}")
        self.clock_mode = scenario.get("clock_mode", "steady")
        self.entropy = random.Random(f"entropy/{scenario.get('entropy_seed', scenario.get('seed', 0))}")
        self.sched = random.Random(f"sched/{scenario.get('sched_seed', scenario.get('seed', 0))}")
        self.events = []
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.max_steps = scenario.get("max_steps", 400000)
        self.interleaving = hashlib.sha1()
        self.n_sched = 0
        self.entropy_draws = 0

    # ---------------------------------------------------------------- records
    def event(self, *what):
        """append to the run's history (the determinism digest is computed from it)"""
        self.events.append(what)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def step(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise SimHang(f"step budget {self.max_steps} exhausted")

    def schedule(self, k):
        """choose one of `k` runnable things"""
        i = self.sched.randrange(k) if k > 1 else 0
        self.n_sched += 1
        self.interleaving.update(b"%d/%d;" % (i, k))
        return i

    def digest(self):
        h = hashlib.sha1()
        for e in self.events:
            h.update(canon(e).encode())
            h.update(b"\n")
        return h.hexdigest()

    # ---------------------------------------------------------------- clock
    def tick(self, dt=0.001):
        m = self.clock_mode
        if m == "jumpy":
            r = self.clock_rng.random()
            if r < 0.02:
                self.fault("clock_jump_forward")
                dt = self.clock_rng.uniform(60, 86400)
            elif r < 0.04:
                self.fault("clock_jump_back")
                dt = -self.clock_rng.uniform(1, 3600)
        elif m == "stalled":
            dt = 0.0
        self.now += dt
        return self.now


CTX = None


def set_ctx(ctx):
    global CTX
    CTX = ctx
    return ctx


def ctx():
    return CTX


def fnum(v):
    """exact textual form of a number"""
    try:
        f = float(v)
    except Exception:
        return repr(v)
    if math.isnan(f):
        return "nan"
    return float(f).hex() if not float(f).is_integer() or abs(f) > 2**53 else str(int(f))


def canon(o):
    """canonical text of nested python/numpy data (type-insensitive for numbers)"""
    import numpy as np

    if o is None:
        return "None"
    if isinstance(o, (bool, np.bool_)):
        return "T" if o else "F"
    if isinstance(o, (int, float, np.integer, np.floating)):
        return fnum(o)
    if isinstance(o, str):
        return "'" + str(o) + "'"
    if isinstance(o, dict):
        return "{" + ",".join(f"{canon(str(k))}:{canon(v)}" for k, v in sorted(o.items(), key=lambda t: str(t[0]))) + "}"
    if isinstance(o, np.ndarray):
        return canon(np.asarray(o).tolist())
    if isinstance(o, (list, tuple)):
        return "[" + ",".join(canon(x) for x in o) + "]"
    if isinstance(o, bytes):
        return hashlib.sha1(o).hexdigest()
    return repr(o)


# -------------------------------------------------------------------- seams: clock and entropy
def install_clock():
    import time

    if "time" in _REAL:
        return
    for n in ("time", "monotonic", "perf_counter", "process_time", "sleep", "time_ns", "monotonic_ns", "perf_counter_ns"):
        _REAL[n] = getattr(time, n)

    def _now():
        return CTX.tick() if CTX is not None else _REAL["time"]()

    def _mono():
        c = CTX
        if c is None:
            return _REAL["monotonic"]()
        c.mono = getattr(c, "mono", 1000.0) + 0.001
        return c.mono

    def _sleep(s):
        c = CTX
        if c is None:
            return _REAL["sleep"](s)
        c.step()
        c.now += max(0.0, float(s))
        c.mono = getattr(c, "mono", 1000.0) + max(0.0, float(s))
        for pump in list(PUMPS):
            pump()

    time.time = _now
    time.monotonic = _mono
    time.perf_counter = _mono
    time.process_time = _mono
    time.sleep = _sleep
    time.time_ns = lambda: int(_now() * 1e9)
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    time.perf_counter_ns = lambda: int(_mono() * 1e9)


PUMPS = []  # callables that let the scheduler run one pending thing


def install_entropy():
    """Route OS entropy (what an unseeded generator would read) to the run's PRNG."""
    import secrets
    import uuid

    import numpy.random.bit_generator as bg

    def randbits(k):
        CTX.entropy_draws += 1
        return CTX.entropy.getrandbits(k)

    def urandom(n):
        CTX.entropy_draws += 1
        return CTX.entropy.getrandbits(8 * n).to_bytes(n, "little") if n else b""

    if "randbits" in _REAL:
        return
    _REAL["randbits"] = bg.randbits
    _REAL["urandom"] = os.urandom
    bg.randbits = randbits
    os.urandom = urandom
    secrets.randbits = randbits
    secrets.token_bytes = lambda n=32: urandom(n)
    secrets.token_hex = lambda n=32: urandom(n).hex()
    uuid.uuid4 = lambda: uuid.UUID(bytes=urandom(16), version=4)
    uuid.uuid1 = lambda *a, **k: uuid.UUID(bytes=urandom(16), version=1)
    _seed = random.seed

    def seed(a=None, version=2):
        if a is None:
            a = CTX.entropy.getrandbits(64)
            CTX.entropy_draws += 1
        return _seed(a, version)

    random.seed = seed


BASE_LOGGERS = None  # the loggers that exist once everything is imported


def note_loggers():
    import logging

    global BASE_LOGGERS
    BASE_LOGGERS = set(logging.Logger.manager.loggerDict)


def reset_logging():
    """What a new process has: no loggers but those of the imported libraries."""
    import logging

    for name in list(logging.Logger.manager.loggerDict):
        if name in BASE_LOGGERS:
            continue
        lg = logging.Logger.manager.loggerDict.pop(name)
        if isinstance(lg, logging.Logger):
            for h in list(lg.handlers):
                lg.removeHandler(h)


def short_tb(e, n=6):
    tb = traceback.extract_tb(e.__traceback__)
    return [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-n:]]


def fast_norm():
    """scipy.stats.norm without its argument handling (same special functions, same values)"""
    import numpy as np
    import scipy.stats as st
    from scipy.special import log_ndtr, ndtr

    n = st.norm
    if getattr(n, "_sim_fast", False):
        return
    n._sim_fast = True

    def wrap(name, f):
        real = getattr(n, name)

        def g(x, *a, **k):
            if not a and not k and (type(x) is np.ndarray and x.dtype == np.float64 or isinstance(x, float)):
                return f(x)
            return real(x, *a, **k)

        setattr(n, name, g)

    wrap("logcdf", log_ndtr)
    wrap("cdf", ndtr)
