"""Building blocks of a simulated campaign: spaces, objectives, constraints, surrogates."""
import hashlib
import math
import random

import numpy as np

from . import core

# ------------------------------------------------------------------------------ search spaces
WORDS = ["red", "green", "blue", "x y", "relu", "tanh", "a", "b", "c", "é", "None", "0"]


def gen_var(rng, i, kinds=("real", "int", "cat", "ord", "bool"), simple=False):
    t = rng.choice(kinds)
    name = f"{t[0]}{i}" if rng.random() < 0.7 else rng.choice("abcdefgh") + f"_{i}"
    if t == "real":
        lo = rng.choice([-5.0, 0.0, 1.0, -1.0, 0.25, -100.0])
        w = rng.choice([1.0, 2.5, 10.0, 0.5, 1000.0])
        v = {"t": "real", "name": name, "lo": lo, "hi": lo + w}
        r = rng.random()
        if not simple and r < 0.25:
            v["prec"] = rng.choice([0, 1, 2, 3])
            if v["prec"] == 0:
                v["hi"] = v["lo"] + rng.choice([2.5, 3.0, 10.0, 1000.0])
            elif rng.random() < 0.5:  # bounds that are not multiples of the precision
                v["lo"] = round(lo + rng.choice([0.0, 0.26, 0.0013, 0.74]), 4)
                v["hi"] = round(v["lo"] + rng.choice([0.37, 0.5, 1.044, 3.1416]), 4)
        if not simple and rng.random() < 0.2:
            v["scale"] = rng.choice(["log", "log10", "bilog", "logit"])
            if v["scale"] in ("log", "log10"):
                v["lo"], v["hi"] = rng.choice([(1e-6, 1e-1), (1.0, 100.0), (0.01, 10.0)])
                if "prec" in v:
                    v["prec"] = 3 if v["lo"] < 1 else v["prec"]
                    if v["hi"] < 1:
                        v.pop("prec")
            elif v["scale"] == "logit":
                v["lo"], v["hi"] = rng.choice([(0.05, 0.9), (0.001, 0.999), (0.25, 0.75)])
                if "prec" in v:
                    v["prec"] = 2
        return v
    if t == "int":
        lo = rng.choice([0, -3, 1, 10])
        v = {"t": "int", "name": name, "lo": lo, "hi": lo + rng.choice([1, 3, 7, 20, 100, 100000])}
        if not simple and rng.random() < 0.25:
            v["step"] = rng.choice([2, 3, 5])
            v["hi"] = lo + v["step"] * rng.choice([2, 3, 5, 8]) + rng.choice([0, 0, 1])
        return v
    if t == "cat":
        r = rng.random()
        if simple or r < 0.6:
            lv = rng.sample(WORDS, rng.randint(2, 4))
        elif r < 0.8:
            lv = rng.sample([1, 2, 3, 5, 8, 13] if rng.random() < 0.6 else [0.1, 0.01, 0.5, 2.5, 1e-05], rng.randint(2, 4))
        else:
            lv = [1, "a", "b"][: rng.randint(2, 3)]
        return {"t": "cat", "name": name, "levels": lv}
    if t == "ord":
        lv = rng.sample([1, 2, 4, 8, 16], rng.randint(2, 4)) if rng.random() < 0.6 else ["lo", "mid", "hi"]
        if not simple and rng.random() < 0.15:
            lv = [0.1, 0.2, 0.5, 1.5][: rng.randint(2, 4)]
        return {"t": "ord", "name": name, "levels": lv}
    if t == "bool":
        return {"t": "bool", "name": name}
    if t == "subset":
        return {"t": "subset", "name": name, "levels": rng.sample(["A", "B", "C", "D"], rng.randint(2, 3))}
    raise core.HarnessError(t)


def gen_space(rng, kinds=None, dim=None, simple=False):
    dim = dim or rng.choice([1, 2, 2, 3, 3, 4, 5])
    if kinds is None:
        r = rng.random()
        if r < 0.3:
            kinds = ("real",)
        elif r < 0.4:
            kinds = ("int",)
        else:
            kinds = ("real", "int", "cat", "ord", "bool")
    return [gen_var(rng, i, kinds, simple) for i in range(dim)]


def build_space(sp):
    from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, SearchSpace, Subset

    out = []
    for v in sp:
        t = v["t"]
        if t == "real":
            out.append(Real([v["lo"], v["hi"]], name=v["name"], precision=v.get("prec"), scale=v.get("scale", "linear")))
        elif t == "int":
            out.append(Integer([v["lo"], v["hi"]], name=v["name"], step=v.get("step", 1)))
        elif t == "cat":
            out.append(Discrete(list(v["levels"]), name=v["name"]))
        elif t == "ord":
            out.append(Ordinal(list(v["levels"]), name=v["name"]))
        elif t == "bool":
            out.append(Bool(name=v["name"]))
        elif t == "subset":
            out.append(Subset(list(v["levels"]), name=v["name"]))
    return SearchSpace(out)


def space_size(sp):
    n = 1.0
    for v in sp:
        t = v["t"]
        if t == "real":
            if "prec" in v:
                n *= max(1.0, (v["hi"] - v["lo"]) * 10 ** v["prec"])
            else:
                return math.inf
        elif t == "int":
            n *= (v["hi"] - v["lo"]) // v.get("step", 1) + 1
        elif t in ("cat", "ord"):
            n *= len(v["levels"])
        elif t == "bool":
            n *= 2
        elif t == "subset":
            n *= 2 ** len(v["levels"]) - 1
    return n


def subsets(levels):
    from itertools import chain, combinations

    return list(chain.from_iterable(combinations(levels, r) for r in range(1, len(levels) + 1)))


def in_domain(v, x):
    """reference membership test, independent of the library's own; -> None or a complaint"""
    t = v["t"]
    if t == "real":
        if isinstance(x, (bool, np.bool_, str)) or not isinstance(x, (int, float, np.integer, np.floating)):
            return f"{x!r} is not a real number"
        if not (v["lo"] <= float(x) <= v["hi"]):
            tol = 1e-9 * max(1.0, abs(v["lo"]), abs(v["hi"]))
            if v.get("scale", "linear") != "linear" and v["lo"] - tol <= float(x) <= v["hi"] + tol:
                return None  # round-off of the scale transformation
            return f"{x!r} outside [{v['lo']}, {v['hi']}]"
        if v.get("prec") is not None:
            q = round(float(x), v["prec"])
            if abs(q - float(x)) > 1e-9 * max(1.0, abs(float(x))) and float(x) not in (v["lo"], v["hi"]):
                return f"{x!r} has more than {v['prec']} decimals"
        return None
    if t == "int":
        if isinstance(x, (bool, np.bool_, str)) or not isinstance(x, (int, float, np.integer, np.floating)):
            return f"{x!r} is not an integer"
        if float(x) != int(x):
            return f"{x!r} is not integral"
        if isinstance(x, (float, np.floating)):
            return f"{x!r} is a float, not an integer"
        if not v["lo"] <= x <= v["hi"]:
            return f"{x!r} outside [{v['lo']}, {v['hi']}]"
        if (int(x) - v["lo"]) % v.get("step", 1):
            return f"{x!r} not on the grid {v['lo']} + k*{v['step']}"
        return None
    if t in ("cat", "ord"):
        if not any(type_eq(x, lv) for lv in v["levels"]):
            return f"{x!r} not one of {v['levels']}"
        return None
    if t == "bool":
        if not (isinstance(x, (bool, np.bool_))):
            return f"{x!r} is not a boolean"
        return None
    if t == "subset":
        if not isinstance(x, tuple) or x not in subsets(v["levels"]):
            return f"{x!r} not a subset of {v['levels']}"
        return None


def type_eq(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and str(a) == b
    if isinstance(a, (str, bool, np.bool_)):
        return False
    try:
        return a == b
    except Exception:
        return False


def check_point(sp, x, eval_type):
    """-> complaint or None for one proposal in the user's format"""
    names = [v["name"] for v in sp]
    if eval_type == "dict":
        if not isinstance(x, dict):
            return f"expected a dict, got {type(x).__name__}"
        if set(map(str, x.keys())) != set(names) or len(x) != len(names):
            return f"keys {sorted(map(str, x))} != {sorted(names)}"
        vals = [x[n] for n in names]
    else:
        if not isinstance(x, (list, tuple)):
            return f"expected a list, got {type(x).__name__}"
        if len(x) != len(names):
            return f"{len(x)} values for {len(names)} variables"
        vals = list(x)
    for v, val in zip(sp, vals):
        bad = in_domain(v, val)
        if bad:
            return f"variable {v['name']} ({v['t']}): {bad}"
    return None


def user_vals(sp, x, eval_type):
    """how a user's function reads its argument: by name or by position"""
    if eval_type == "dict":
        return [x[v["name"]] for v in sp]
    return [x[i] for i in range(len(sp))]


def vals_of(sp, x, eval_type):
    return [x[v["name"]] for v in sp] if isinstance(x, dict) else list(x)


def key_of(vals):
    return core.canon(list(vals))


def random_point(rng, sp):
    out = []
    for v in sp:
        t = v["t"]
        if t == "real":
            x = rng.uniform(v["lo"], v["hi"])
            if v.get("prec") is not None:
                x = min(v["hi"], max(v["lo"], round(x, v["prec"])))
            out.append(x)
        elif t == "int":
            st = v.get("step", 1)
            out.append(v["lo"] + st * rng.randint(0, (v["hi"] - v["lo"]) // st))
        elif t in ("cat", "ord"):
            out.append(rng.choice(v["levels"]))
        elif t == "bool":
            out.append(rng.random() < 0.5)
        else:
            out.append(rng.choice(subsets(v["levels"])))
    return out


# ------------------------------------------------------------------------------ objectives
def unit(vals, salt=""):
    h = hashlib.sha1((salt + key_of(vals)).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2**48


def coord(v, x):
    t = v["t"]
    if t in ("real", "int"):
        return (float(x) - v["lo"]) / (v["hi"] - v["lo"])
    if t in ("cat", "ord"):
        return v["levels"].index(x) / max(1, len(v["levels"]) - 1) if x in v["levels"] else 0.0
    if t == "bool":
        return float(bool(x))
    return len(x) / len(v["levels"])


def objective_value(sp, vals, cfg, k=0):
    """deterministic, attributable value of a point (k: objective number)"""
    kind = cfg.get("obj", "bowl")
    u = [coord(v, x) for v, x in zip(sp, vals)]
    if kind == "bowl":
        c = 0.3 + 0.4 * k
        y = sum((z - c) ** 2 for z in u) * cfg.get("obj_scale", 1.0) + cfg.get("obj_shift", 0.0)
        return y + 1e-6 * max(1.0, abs(y)) * unit(vals, f"f{k}")
    if kind == "rugged":
        return cfg.get("obj_scale", 1.0) * (unit(vals, f"f{k}") - 0.5) + cfg.get("obj_shift", 0.0)
    if kind == "coarse":  # many ties
        return float(int(4 * unit(vals, f"f{k}"))) + cfg.get("obj_shift", 0.0)
    raise core.HarnessError(kind)


# ------------------------------------------------------------------------------ constraints
def gen_constraint(rng, sp):
    """an inequality that a good share of the space satisfies; -> json"""
    idx = [i for i, v in enumerate(sp) if v["t"] in ("real", "int")]
    if not idx:
        i = rng.randrange(len(sp))
        v = sp[i]
        if v["t"] in ("cat", "ord"):
            return {"k": "neq", "i": i, "v": rng.choice(v["levels"])}
        return {"k": "neq", "i": i, "v": rng.random() < 0.5}
    if rng.random() < 0.6 or len(idx) == 1:
        i = rng.choice(idx)
        return {"k": "half", "i": i, "c": round(rng.uniform(0.35, 0.8), 3), "s": rng.choice([1, -1])}
    i, j = rng.sample(idx, 2)
    return {"k": "sum", "i": i, "j": j, "c": round(rng.uniform(0.7, 1.4), 3)}


def eval_constraint(con, sp, vals):
    """value <= 0 is feasible; conditions on variables that are not active are met"""
    if any(vals[con[k]] is None for k in ("i", "j") if k in con):
        return 0.0 if con["k"] == "eqv" else -1.0
    if con["k"] == "neq":
        return 1.0 if vals[con["i"]] == con["v"] else -1.0
    u = lambda i: coord(sp[i], vals[i])
    if con["k"] == "half":
        return (u(con["i"]) - con["c"]) * con["s"] if con["s"] > 0 else ((1 - con["c"]) - u(con["i"]))
    if con["k"] == "sum":
        return u(con["i"]) + u(con["j"]) - con["c"]
    if con["k"] == "eqv":
        return u(con["i"]) - con["c"]
    if con["k"] == "never":
        return 1.0
    raise core.HarnessError(str(con))


# ------------------------------------------------------------------------------ surrogates
class StubModel:
    """A cheap surrogate: inverse-distance weighting, deterministic, with uncertainty.

    A stand-in for the user-supplied surrogate (any object with fit/predict/is_fitted).  Its `fit`
    can be told to fail, which is how the simulator injects surrogate-training faults.
    """

    def __init__(self, sp, n_obj=1):
        self.sp = sp
        self.is_fitted = False
        self.n_obj = n_obj
        self.fail = None  # exception type name for the next fit
        self.fail_predict = None

    def _enc(self, X):
        X = np.asarray(X, dtype=object)
        if X.ndim == 1:
            X = X.reshape(1, -1)
        core.ctx().step(len(X)) if core.ctx() else None
        return np.array([[coord(v, x) for v, x in zip(self.sp, row)] for row in X], dtype=float)

    def fit(self, X, y):
        c = core.ctx()
        f = c.next_fit_fault if c is not None and getattr(c, "next_fit_fault", None) else None
        if f:
            c.next_fit_fault = None
            c.fault("model_fit_" + f)
            raise {"LinAlgError": np.linalg.LinAlgError, "MemoryError": MemoryError, "ValueError": ValueError}[f]("injected")
        self.X_ = self._enc(X)
        y = np.asarray(y, dtype=float)
        self.y_ = y.reshape(len(self.X_), -1)
        if not np.all(np.isfinite(self.y_)):
            raise ValueError("non-finite targets")
        self.is_fitted = True
        return self

    def predict(self, X, eval_MSE=False):
        X = self._enc(X)
        d = np.sqrt(((X[:, None, :] - self.X_[None, :, :]) ** 2).sum(-1)) + 1e-9
        w = 1.0 / d**2
        w /= w.sum(1, keepdims=True)
        y = w @ self.y_
        mse = np.tile((0.01 + d.min(1))[:, None] ** 2, (1, self.y_.shape[1]))
        if self.y_.shape[1] == 1:
            y, mse = y.ravel(), mse.ravel()
        return (y, mse) if eval_MSE else y


def build_model(cfg, space):
    sp = cfg["space"]
    kind = cfg.get("model", "stub")
    n_obj = cfg.get("n_obj", 1)
    if kind == "stub":
        return StubModel(sp, n_obj)
    if kind == "rf":
        from bayes_optim.surrogate import RandomForest

        kw = {}
        if cfg.get("rf_jobs"):
            kw["n_jobs"] = cfg["rf_jobs"]
        if cfg.get("rf_seed") is not None:
            kw["random_state"] = cfg["rf_seed"]
        return RandomForest(levels=space.levels, n_estimators=cfg.get("rf_n", 8), **kw)
    if kind == "gp":
        from bayes_optim.surrogate import GaussianProcess, trend

        dim = len(sp)
        b = np.array([[v["lo"], v["hi"]] for v in sp], dtype=float)
        w = b[:, 1] - b[:, 0]
        return GaussianProcess(
            mean=trend.constant_trend(dim),
            corr="matern",
            thetaL=1e-3 * w,
            thetaU=1e3 * w,
            nugget=1e-6,
            noise_estim=False,
            optimizer="BFGS",
            wait_iter=2,
            random_start=2,
            likelihood="concentrated",
            eval_budget=30,
            random_state=cfg.get("gp_seed"),
        )
    raise core.HarnessError(kind)
