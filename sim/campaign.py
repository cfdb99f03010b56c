"""Driving the real optimizer through its public interface, next to a reference model."""
import math
import random
import sys
import zlib

import numpy as np

from . import core, world
from .core import Violation

REGISTRY = {}  # name -> live python object (looked up by worker copies of the objective)


def _lookup(name):
    return REGISTRY[name]


ERRORS = [RuntimeError, ValueError, ZeroDivisionError, KeyError, OSError, TypeError, MemoryError, AssertionError, FloatingPointError, TimeoutError]


def where_called():
    """the library's lines this call came through"""
    f, out = sys._getframe(2), []
    while f is not None and len(out) < 12:
        fn = f.f_code.co_filename
        if "bayes_optim" in fn:
            out.append((fn, f.f_lineno))
        elif out and "/sim/" in fn:
            break
        f = f.f_back
    return tuple(out[:4])


class Objective:
    """the user's objective; logs every call, can be told to fail"""

    def __init__(self, name, cfg, k=0):
        self.name, self.cfg, self.k = name, cfg, k
        self.calls = []
        self.log = []  # [values, returned value | None if it raised]
        self.faults = {}  # call number -> kind
        self.max_calls = None
        self.pickle_fault = None
        self.value_of = None
        REGISTRY[name] = self

    def __reduce__(self):
        f, self.pickle_fault = self.pickle_fault, None
        if f:
            core.ctx().fault("pickling_" + f)
            raise {"raise": RuntimeError, "interrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f]("injected")
        return (_lookup, (self.name,))

    def __call__(self, x):
        c = core.ctx()
        c.step(10)
        sp = self.cfg["space"]
        vals = world.user_vals(sp, x, self.cfg.get("eval_type", "list"))
        n = len(self.calls)
        self.calls.append(world.key_of(vals))
        entry = [list(vals), None]
        self.log.append(entry)
        if self.max_calls is not None and len(self.calls) > self.max_calls:
            raise core.SimHang(f"objective called {len(self.calls)} times")
        f = self.faults.get(n)
        if f == "raise":
            c.fault("objective_raises")
            raise ERRORS[zlib.crc32(repr(self.calls[-1]).encode()) % len(ERRORS)]("injected objective failure")
        if f in ("nan", "inf", "-inf"):
            c.fault("objective_" + f)
            entry[1] = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[f]
        else:
            entry[1] = self.value_of(vals)[0] if self.value_of is not None else world.objective_value(sp, vals, self.cfg, self.k)
        return entry[1]


class ParallelObjective(Objective):
    """an objective that evaluates a whole batch by itself, workers finishing in any order"""

    def __call__(self, X):
        c = core.ctx()
        order = list(range(len(X)))
        out = [None] * len(X)
        while order:
            i = order.pop(c.schedule(len(order)))
            out[i] = super().__call__(X[i])
        return out


class Constraint:
    def __init__(self, name, cfg, cons, eq=False):
        self.name, self.cfg, self.cons, self.eq = name, cfg, cons, eq
        self.n = 0
        self.fault_at = None
        self.site = None
        REGISTRY[name] = self

    def __reduce__(self):
        return (_lookup, (self.name,))

    def arm_site(self, j, k, exc=0):
        """raise at the k-th call from the j-th distinct place of the library that calls this function"""
        self.site = {"j": j, "k": k, "exc": exc, "seen": {}, "fired": False}

    def disarm_site(self):
        s, self.site = self.site, None
        return bool(s and s["fired"])

    def value(self, vals):
        sp = self.cfg["space"]
        return [world.eval_constraint(c, sp, vals) for c in self.cons]

    def __call__(self, x):
        c = core.ctx()
        self.n += 1
        if self.fault_at is not None and self.n == self.fault_at:
            c.fault("constraint_raises")
            raise ERRORS[self.n % len(ERRORS)]("injected constraint failure")
        if self.site is not None and not self.site["fired"]:
            st = self.site
            w = where_called()
            r = st["seen"].setdefault(w, [len(st["seen"]), -1])
            r[1] += 1
            if r[0] == st["j"] and r[1] >= st["k"]:
                st["fired"] = True
                c.fault("constraint_raises")
                raise ERRORS[st["exc"] % len(ERRORS)]("injected constraint failure")
        return self.value(world.user_vals(self.cfg["space"], x, self.cfg.get("eval_type", "list")))


# functions without __name__/__module__ break functools.wraps users; give them one
for _c in (Objective, ParallelObjective, Constraint):
    _c.__name__ = _c.__name__


def register(cfg):
    """the user's functions of this process (checkpoints refer to them by name)"""
    name = cfg.get("name", "z0")
    if cfg.get("alg") == "MOBO":
        objs = [Objective(f"{name}/obj{k}", cfg, k) for k in range(cfg.get("n_obj", 1))]
    elif cfg.get("parallel_obj"):
        objs = [ParallelObjective(f"{name}/obj", cfg)]
    else:
        objs = [Objective(f"{name}/obj", cfg)]
    cons = []
    if cfg.get("ineq"):
        cons.append(Constraint(f"{name}/g", cfg, cfg["ineq"]))
    if cfg.get("eq"):
        cons.append(Constraint(f"{name}/h", cfg, cfg["eq"], eq=True))
    return objs, cons


def classes():
    import bayes_optim as bo
    from bayes_optim import bayes_opt, extension

    return {
        "BO": bo.BO,
        "ParallelBO": bo.ParallelBO,
        "AnnealingBO": bo.AnnealingBO,
        "NoisyBO": bo.NoisyBO,
        "MOBO": bo.MOBO,
        "SelfAdaptiveBO": bayes_opt.SelfAdaptiveBO,
        "MultiAcquisitionBO": extension.MultiAcquisitionBO,
        "ConditionalBO": extension.ConditionalBO,
    }


def build(cfg, **extra):
    """construct the optimizer described by `cfg` -> (opt, objective(s))"""
    name = cfg.get("name", "z0")
    space = world.build_space(cfg["space"])
    n_obj = cfg.get("n_obj", 1)
    alg = cfg.get("alg", "BO")
    kw = dict(
        search_space=space,
        DoE_size=cfg.get("doe", 4),
        eval_type=cfg.get("eval_type", "list"),
        max_FEs=cfg.get("max_FEs", 30),
        minimize=cfg.get("minimize", True),
        n_job=cfg.get("n_job", 1),
        verbose=False,
        acquisition_optimization=dict(
            {"max_FEs": cfg.get("aq_FEs", 40), "n_restart": cfg.get("aq_restart", 1)},
            **({"optimizer": cfg["aq_opt"]} if cfg.get("aq_opt") else {}),
        ),
    )
    if cfg.get("instance_id", True):
        kw["instance_id"] = name
    kw["model"] = world.build_model(cfg, space)
    if cfg.get("acq"):
        kw["acquisition_fun"] = cfg["acq"]
    if cfg.get("acq_par"):
        kw["acquisition_par"] = dict(cfg["acq_par"])
    if cfg.get("ftarget") is not None:
        kw["ftarget"] = cfg["ftarget"]
    if cfg.get("random_seed") is not None:
        kw["random_seed"] = cfg["random_seed"]
    if cfg.get("n_point", 1) > 1 or alg not in ("BO", "MOBO"):
        kw["n_point"] = cfg.get("n_point", 2)
    objs, cons = register(cfg)
    if alg == "MOBO":
        kw["obj_fun"] = tuple(objs)
        kw["n_obj"] = n_obj
        kw.pop("acquisition_fun", None)
    elif cfg.get("parallel_obj"):
        kw["parallel_obj_fun"] = objs[0]
    else:
        kw["obj_fun"] = objs[0]
    for con in cons:
        kw["eq_fun" if con.eq else "ineq_fun"] = con
    if alg == "AnnealingBO":
        kw.update(schedule=cfg.get("schedule", "exp"))
    kw.update(extra)
    cls = classes()[alg]
    opt = cls(**kw)
    return opt, objs, cons


def rows_of(opt, n_obj=1):
    """[(values, fitness-tuple)] as a user reads them from the optimizer's history"""
    data = getattr(opt, "data", None)
    if data is None:
        return []
    X = np.asarray(data, dtype=object)
    if X.ndim == 1:
        X = X.reshape(-1, len(opt.var_names)) if X.size else X.reshape(0, len(opt.var_names))
    f = np.asarray(data.fitness, dtype=float).reshape(len(X), -1) if len(X) else np.empty((0, n_obj))
    names = [str(n) for n in data.var_name]
    want = [str(n) for n in opt.var_names]
    perm = [names.index(n) for n in want]
    return [([row[j] for j in perm], tuple(f[i])) for i, row in enumerate(X.tolist() if False else [list(r) for r in X])]


class Ref:
    """the single-copy log a user believes the optimizer keeps"""

    def __init__(self):
        self.rows = []  # (values, fitness tuple), valid reports in order
        self.reported = 0  # evaluations reported, failures included
        self.iters = 0
        self.warm = 0

    def report(self, pts, fits):
        for v, f in zip(pts, fits):
            self.reported += 1
            if all(math.isfinite(z) for z in f):
                self.rows.append((list(v), tuple(f)))
        self.iters += 1

    def best(self, minimize):
        return (min if minimize else max)(f[0] for _, f in self.rows) if self.rows else None

    def canon(self):
        return [core.canon([v, list(f)]) for v, f in self.rows]


def canon_rows(rows):
    return [core.canon([v, list(f)]) for v, f in rows]


def diff_rows(ref, got):
    """-> None or a short description of the first discrepancy"""
    a, b = canon_rows(ref), canon_rows(got)
    if a == b:
        return None
    if len(a) != len(b):
        miss = [x for x in a if a.count(x) > b.count(x)]
        extra = [x for x in b if b.count(x) > a.count(x)]
        return f"{len(b)} records instead of {len(a)}; missing {miss[:2]}; unexpected {extra[:2]}"
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"record {i}: reported {x}, history has {y}"


class spying:
    """let `wrapper(original, *args, **kw)` stand before a method of one optimizer; done on its class,
    so that the instance itself stays as it is (it may be pickled for a worker meanwhile)"""

    def __init__(self, obj, name, wrapper):
        self.obj, self.name, self.wrapper = obj, name, wrapper

    def __enter__(self):
        cls, name, obj, wrapper = type(self.obj), self.name, self.obj, self.wrapper
        self.own = cls.__dict__.get(name)
        orig = getattr(cls, name)

        def method(this, *a, **k):
            if this is not obj or method.busy:
                return orig(this, *a, **k)
            method.busy = True
            try:
                return wrapper(lambda *a, **k: orig(this, *a, **k), *a, **k)
            finally:
                method.busy = False

        method.busy = False
        setattr(cls, name, method)
        return self

    def __exit__(self, *exc):
        cls = type(self.obj)
        if self.own is None:
            delattr(cls, self.name)
        else:
            setattr(cls, self.name, self.own)


def call(fn, *a, **k):
    """-> (result, exception)"""
    try:
        return fn(*a, **k), None
    except Exception as e:  # noqa - the code under test may raise anything
        return None, e


def is_expected_empty(e):
    from bayes_optim.utils.exception import AskEmptyError

    return isinstance(e, AskEmptyError)


def gen_cfg(rng, algs=None, models=("stub", "stub", "stub", "rf", "gp"), kinds=None, simple=False, dim=None, n_obj=1):
    """a random optimizer configuration (swarm style)"""
    alg = rng.choice(algs or ["BO", "BO", "BO", "ParallelBO", "ParallelBO", "AnnealingBO", "NoisyBO", "SelfAdaptiveBO", "MultiAcquisitionBO"])
    model = rng.choice(models)
    if model == "gp":
        sp = world.gen_space(rng, ("real",), rng.choice([1, 2, 3]), simple)
    else:
        sp = world.gen_space(rng, kinds, dim, simple)
    cfg = {
        "alg": alg,
        "model": model,
        "space": sp,
        "eval_type": rng.choice(["list", "dict"]),
        "doe": rng.choice([2, 3, 4, 5, 7]),
        "minimize": rng.random() < 0.6,
        "n_point": 1 if alg in ("BO", "MOBO") else rng.choice([2, 3, 4]),
        "max_FEs": rng.choice([15, 25, 40]),
        "aq_FEs": rng.choice([20, 40, 60]),
        "aq_restart": rng.choice([1, 1, 2]),
        "obj": rng.choice(["bowl", "bowl", "rugged"]),
        "obj_scale": rng.choice([1.0, 1.0, 100.0, 1e-3]),
        "obj_shift": rng.choice([0.0, 0.0, -50.0, 10.0]),
    }
    if alg == "BO":
        cfg["acq"] = rng.choice(["EI", "EI", "PI", "UCB", "MGFI"])
        if model == "gp":
            cfg["acq"] = rng.choice(["EI", "MGFI"])
    elif alg == "ParallelBO":
        cfg["acq"] = rng.choice(["MGFI", "MGFI", "UCB"])
    elif alg == "AnnealingBO":
        cfg["schedule"] = rng.choice(["exp", "linear", "log"])
    allreal = all(v["t"] == "real" for v in sp)
    if allreal and model != "gp" and rng.random() < 0.3:
        cfg["aq_opt"] = "MIES"
    if model == "gp" and rng.random() < 0.4:
        cfg["aq_opt"] = rng.choice(["MIES", "OnePlusOne_Cholesky_CMA"])
    if n_obj > 1:
        cfg["n_obj"] = n_obj
    if rng.random() < 0.08:  # several restarts of the candidate search
        cfg["aq_FEs"], cfg["aq_restart"] = rng.choice([60, 120]), rng.choice([4, 6])
    return cfg
