"""One optimizer driven through its public interface by a list of operations, checked against a
reference model after every operation.

The optimizer is the server; the simulator plays the evaluation workers and the network between
them: results come back late, out of order, split, merged, duplicated, lost or failed; the process
may die and be restored from its last checkpoint while results are still under way.
"""
import copy
import math
import os
import random

import numpy as np

from . import campaign, core, world
from .campaign import Ref, call, canon_rows, diff_rows, rows_of
from .core import Violation


def key(vals):
    return world.key_of(vals)


def same_point(sp, a, b):
    """equal discrete parts, real parts equal up to floating-point noise"""
    for v, x, y in zip(sp, a, b):
        if x is None or y is None:  # not active in a conditional space
            if x is not y:
                return False
        elif v["t"] == "real":
            x, y = float(x), float(y)
            if abs(x - y) > 1e-14 + 1e-10 * max(abs(x), abs(y)):
                return False
        elif core.canon(x) != core.canon(y):
            return False
    return True


def roomy(sp, used, lenient):
    """the space is so large that the optimizer cannot legitimately run out of new points

    A random point may fall within the optimizer's tolerance (about 1e-5 relative) of a known one.
    It tries again a few times (`lenient`), except for the points that complete a model-based batch.
    """
    p = float(max(10, used))
    for v in sp:
        t = v["t"]
        if t == "real":
            w = v["hi"] - v["lo"]
            if v.get("scale", "linear") != "linear":
                p *= 0.1 if "prec" not in v else max(0.1, min(1.0, 3.0 / (w * 10 ** v["prec"])))
            elif "prec" in v:
                p *= min(1.0, 3.0 / (w * 10 ** v["prec"]))
            else:
                p *= min(1.0, 4 * (1e-8 + 1e-5 * max(abs(v["lo"]), abs(v["hi"]))) / w)
        elif t == "int":
            p /= (v["hi"] - v["lo"]) // v.get("step", 1) + 1
        elif t in ("cat", "ord"):
            p /= len(v["levels"])
        elif t == "bool":
            p /= 2
        elif t == "subset":
            p /= 2 ** len(v["levels"]) - 1
    return p < (1e-2 if lenient else 1e-7)


class Watched(tuple):
    """(what, object, its text when it was handed over)"""

    def __new__(cls, what, obj):
        return tuple.__new__(cls, (what, obj, cls.text(obj)))

    @staticmethod
    def text(obj):
        from bayes_optim import Solution

        X, y = obj
        if isinstance(X, Solution):
            t = [np.asarray(X, dtype=object).tolist(), np.asarray(X.fitness, dtype=float).tolist(), np.asarray(X.n_eval).tolist(), [str(z) for z in X.var_name], np.asarray(X.index).tolist()]
        else:
            t = [list(x.items()) if isinstance(x, dict) else list(x) for x in X]
        return core.canon([t, np.asarray(y, dtype=float).tolist()])


class Campaign:
    def __init__(self, cfg, ctx, inv=(), ckpt="ckpt.pkl", extra=None, tag=""):
        self.cfg, self.ctx, self.inv, self.ckpt, self.tag = cfg, ctx, set(inv), ckpt, tag
        self.sp = cfg["space"]
        self.extra = dict(extra or {})
        self.n_obj = cfg.get("n_obj", 1)
        self.mo = cfg.get("alg") == "MOBO"
        self.ref = Ref()
        self.ref.trace = []
        self.inflight = []
        self.sent = []
        self.snap = None
        self.n_ask = 0
        self.dead = False
        self.build()

    # ------------------------------------------------------------------ life cycle
    def build(self):
        warm = self.cfg.get("warm")
        extra = dict(self.extra)
        if warm:
            pts, fits = self.warm_points(warm)
            X = self.message(pts, {"fmt": warm.get("fmt"), "ks": warm.get("ks", 1)})
            y = [list(f) if self.mo else f[0] for f in fits]
            extra["warm_data"] = (X, np.array(y) if warm.get("arr") else y)
            self.warm_watch = Watched("warm-start data", extra["warm_data"])
            self.ref.rows = [(list(p), tuple(f)) for p, f in zip(pts, fits)]
            self.ref.warm = len(pts)
        self.opt, self.objs, self.cons = campaign.build(self.cfg, **extra)
        self.ctx.event(self.tag, "build", self.cfg.get("alg"), self.cfg.get("model"))

    def warm_points(self, warm):
        rng = random.Random(warm["s"])
        pts = []
        for _ in range(warm["n"]):
            p = world.random_point(rng, self.sp)
            if any(same_point(self.sp, p, q) for q in pts):
                continue
            pts.append(p)
        if warm.get("dup"):  # the same point was evaluated twice
            pts.insert(rng.randrange(len(pts) + 1), list(rng.choice(pts)))
        return pts, [self.value(p) for p in pts]

    def value(self, vals):
        return tuple(world.objective_value(self.sp, vals, self.cfg, k) for k in range(self.n_obj))

    def fitted(self):
        m = getattr(self.opt, "model", None)
        return bool(m is not None and getattr(m, "is_fitted", False))

    # ------------------------------------------------------------------ messages
    def message(self, pts, op):
        """points in the user's format"""
        names = [v["name"] for v in self.sp]
        fmt = op.get("fmt")
        if fmt == "solution":
            from bayes_optim import Solution

            return Solution([list(p) for p in pts], var_name=names, n_obj=self.n_obj)
        if self.cfg.get("eval_type") == "dict":
            out = []
            rng = random.Random(f"keys/{op.get('ks', 0)}")
            for p in pts:
                items = list(zip(names, p))
                if op.get("ks"):
                    rng.shuffle(items)
                out.append(dict(items))
            return out
        return [list(p) for p in pts]

    def fits_arg(self, fits, op):
        y = [list(f) if self.mo else f[0] for f in fits]
        fm = op.get("yfmt")
        if fm == "array":
            return np.array(y, dtype=float)
        if fm == "tuple":
            return tuple(tuple(z) if self.mo else z for z in y)
        return y

    def fail_fits(self, fit, kind, k):
        bad = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[kind]
        self.ctx.fault("eval_" + kind)
        f = list(fit)
        f[k % len(f)] = bad
        return tuple(f)

    # ------------------------------------------------------------------ operations
    def do(self, op):
        c = self.ctx
        c.step()
        if "s" in op:
            np.random.seed(op["s"])
        getattr(self, "do_" + op["op"])(op)
        self.check()

    def fixed_of(self, op):
        fx = op.get("fixed")
        if not fx:
            return None
        rng = random.Random(fx["s"])
        p = world.random_point(rng, self.sp)
        idx = [i for i in fx["i"] if i < len(self.sp)]
        if not idx or len(idx) >= len(self.sp):
            return None
        return {self.sp[i]["name"]: p[i] for i in idx}

    def may_be_empty(self, n, fixed, was_fitted=True):
        if self.cfg.get("ineq") or self.cfg.get("eq"):
            return True
        if self.cfg.get("alg") == "NoisyBO":
            return False
        free = [v for v in self.sp if not fixed or v["name"] not in fixed]
        return not roomy(free, len(self.ref.rows) + n, n == 1 or not was_fitted)

    def ask(self, op):
        """-> (points in user format | None, exception | None), without judging"""
        fixed = self.fixed_of(op)
        n = op.get("n")
        if self.cfg["alg"] in ("BO", "MOBO") and self.fitted():
            n = None if n is None else 1
        kw = {}
        if n is not None:
            kw["n_point"] = n
        if fixed is not None:
            kw["fixed"] = dict(fixed)
        want = n if n is not None else (self.opt.n_point if self.fitted() else self.cfg.get("doe", 4))
        X, e = call(self.opt.ask, **kw)
        if fixed is not None and kw["fixed"] != fixed:
            raise Violation("argument-changed", f"ask changed the caller's dictionary {fixed} to {kw['fixed']}")
        return X, e, want, fixed

    def do_ask(self, op):
        c = self.ctx
        was_fitted = self.fitted()
        X, e, want, fixed = self.ask(op)
        if e is not None:
            if campaign.is_expected_empty(e) and self.may_be_empty(want, fixed, was_fitted):
                c.probe("ask_empty")
                c.event(self.tag, "ask", "empty")
                return
            if "nocount" not in self.inv or not campaign.is_expected_empty(e):
                raise Violation("unexpected-" + type(e).__name__, f"ask({op}) raised {e} at {core.short_tb(e)}")
            return
        c.probe("ask_model" if was_fitted else "ask_doe")
        if fixed:
            c.probe("ask_fixed")
        self.judge_ask(X, want, fixed, was_fitted)
        for x in X:
            vals = world.vals_of(self.sp, x, self.cfg.get("eval_type", "list"))
            self.inflight.append(list(vals))
        c.event(self.tag, "ask", [world.vals_of(self.sp, x, "") for x in X])

    def judge_ask(self, X, want, fixed, was_fitted):
        sp, et = self.sp, self.cfg.get("eval_type", "list")
        if "dom" in self.inv:
            if not isinstance(X, (list, tuple)):
                raise Violation("proposal-format", f"ask returned {type(X).__name__}")
            if len(X) == 0:
                raise Violation("empty-answer", "ask returned an empty list")
            if len(X) > want:
                raise Violation("too-many-points", f"asked {want}, got {len(X)}")
            if len(X) < want and not self.may_be_empty(want, fixed, was_fitted):
                raise Violation("too-few-points", f"asked {want}, got {len(X)} in a space of size {world.space_size(sp):g} with {len(self.ref.rows)} known points")
            for x in X:
                bad = world.check_point(sp, x, et)
                if bad:
                    raise Violation("outside-search-space", f"{'model' if was_fitted else 'initial'} proposal {x}: {bad}")
                if fixed:
                    vals = dict(zip([v["name"] for v in sp], world.vals_of(sp, x, et)))
                    for k, v in fixed.items():
                        if core.canon(vals[k]) != core.canon(v):
                            raise Violation("fixed-value-ignored", f"{k} fixed to {v!r} but proposed {vals[k]!r}")
        if "dup" in self.inv and self.cfg["alg"] != "NoisyBO":
            pts = [world.vals_of(sp, x, et) for x in X]
            for i, p in enumerate(pts):
                for v, _ in self.ref.rows:
                    if same_point(sp, p, v):
                        raise Violation("known-point-proposed", f"{'model' if was_fitted else 'initial'} proposal {p} is already in the history")
                for q in pts[:i]:
                    if same_point(sp, p, q):
                        raise Violation("duplicate-in-batch", f"{p} proposed twice in one request")
        if "cons" in self.inv:
            self.judge_cons(X, was_fitted)

    def judge_cons(self, X, was_fitted):
        for x in X:
            vals = world.vals_of(self.sp, x, "")
            for con in self.cons:
                for z in con.value(vals):
                    if (abs(z) > 0.1 + 1e-9) if con.eq else (z > 0):
                        raise Violation("infeasible-proposal", f"{'model' if was_fitted else 'initial'} proposal {x}: constraint value {z} ({'eq' if con.eq else 'ineq'})")

    def do_lose(self, op):
        if self.inflight:
            self.inflight.pop(op["p"] % len(self.inflight))
            self.ctx.fault("result_lost")

    def do_deliver(self, op):
        """a message with the results of some outstanding points arrives"""
        if not self.inflight:
            return
        picks, order = op["pick"], []
        pool = list(range(len(self.inflight)))
        for p in picks:
            if not pool:
                break
            order.append(pool.pop(p % len(pool)))
        if order != list(range(len(order))):
            self.ctx.fault("reorder")
        if len(order) < len(self.inflight):
            self.ctx.fault("delay")
        pts = [self.inflight[i] for i in order]
        self.inflight = [x for i, x in enumerate(self.inflight) if i not in set(order)]
        fits = []
        for j, p in enumerate(pts):
            f = self.value(p)
            fv = op.get("fv")
            if fv and j < len(fv) and fv[j] is not None:
                f = tuple(fv[j]) if isinstance(fv[j], list) else (fv[j],) * self.n_obj
            k = (op.get("fail") or {}).get(str(j))
            if k:
                f = self.fail_fits(f, k, j)
            fits.append(f)
        self.report(pts, fits, op)

    def do_redeliver(self, op):
        """the network delivers an old message once more"""
        if not self.sent:
            return
        pts, fits = self.sent[op["p"] % len(self.sent)]
        self.ctx.fault("duplicate_message")
        self.report(pts, fits, op)

    def do_foreign(self, op):
        """results of points the optimizer never proposed"""
        rng = random.Random(op["ps"])
        pts = [world.random_point(rng, self.sp) for _ in range(op.get("k", 1))]
        fits = [self.value(p) for p in pts]
        for j, k in (op.get("fail") or {}).items():
            if int(j) < len(fits):
                fits[int(j)] = self.fail_fits(fits[int(j)], k, int(j))
        self.ctx.probe("foreign_points", len(pts))
        self.report(pts, fits, op)

    def flat(self, rows):
        """>5 observations, all the same: the optimizer declares defeat with FlatFitnessError"""
        if self.mo:
            return False
        f = np.array([r[1][0] for r in rows], dtype=float)
        return len(f) > 5 and np.isclose(np.std(f), 0)

    def report(self, pts, fits, op, expect_error=None):
        c = self.ctx
        X = self.message(pts, op)
        y = self.fits_arg(fits, op)
        before = core.canon([self.plain(X), y])
        kw = {}
        if op.get("index"):
            # labels: unique over the campaign, reused by every batch ("the j-th worker"), one per job
            how = op["index"]
            base = self.ref.reported if how is True else 0
            kw["index"] = [f"w{base + (0 if how == 'job' else j)}" for j in range(len(pts))]
        self.ref.reported += len(pts) * (self.n_obj if self.mo else 1)
        new = [(list(p), tuple(f)) for p, f in zip(pts, fits) if all(math.isfinite(z) for z in f)]
        self.ref.rows += new
        self.sent.append((copy.deepcopy(pts), copy.deepcopy(fits)))
        _, e = call(self.opt.tell, X, y, **kw)
        c.event(self.tag, "tell", pts, fits, type(e).__name__ if e else "ok")
        if "args" in self.inv and core.canon([self.plain(X), y]) != before:
            raise Violation("argument-changed", f"tell changed what it was given: {before} -> {core.canon([self.plain(X), y])}")
        if e is not None:
            from bayes_optim.utils.exception import FlatFitnessError

            if isinstance(e, FlatFitnessError) and self.flat(self.ref.rows):
                c.probe("flat_fitness")
                return
            raise Violation("unexpected-" + type(e).__name__, f"tell of {len(pts)} points raised {e} at {core.short_tb(e)}")
        self.ref.iters += 1
        if self.ref.rows:
            self.ref.trace.append(self.best())
        c.probe("reports")

    def plain(self, X):
        from bayes_optim import Solution

        if isinstance(X, Solution):
            return [list(r) for r in np.asarray(X, dtype=object)]
        return [list(x.items()) if isinstance(x, dict) else x for x in X]

    def best(self):
        return self.ref.best(self.cfg.get("minimize", True)) if not self.mo else self.pareto()

    # ------------------------------------------------------------------ stepping
    def do_step(self, op):
        c = self.ctx
        marks = [len(o.log) for o in self.objs]
        for o, m in zip(self.objs, marks):
            o.faults = {m + int(j): k for j, k in (op.get("fail") or {}).items()}
        _, e = call(self.opt.step)
        for o in self.objs:
            o.faults = {}
        logs = [o.log[m:] for o, m in zip(self.objs, marks)]
        raised = any(ent[1] is None for lg in logs for ent in lg)
        if e is not None and raised and "injected" in str(e):
            c.event(self.tag, "step", "objective raised")
            return
        if e is not None and campaign.is_expected_empty(e) and not any(logs) and self.may_be_empty(self.opt.n_point, None):
            c.probe("ask_empty")
            return
        if raised and e is None:
            raise Violation("error-swallowed", "the objective raised but step() returned normally")
        pts = [ent[0] for ent in logs[0]]
        fits = [tuple(lg[i][1] for lg in logs) for i in range(len(pts))] if all(len(lg) == len(pts) for lg in logs) else []
        if len(fits) != len(pts):
            raise Violation("evaluation-count", f"objectives were called {[len(l) for l in logs]} times")
        self.ref.reported += len(pts) * (self.n_obj if self.mo else 1)
        self.ref.rows += [(list(p), tuple(f)) for p, f in zip(pts, fits) if all(math.isfinite(z) for z in f)]
        c.event(self.tag, "step", pts, fits, type(e).__name__ if e else "ok")
        if e is not None:
            from bayes_optim.utils.exception import FlatFitnessError

            if isinstance(e, FlatFitnessError) and self.flat(self.ref.rows):
                c.probe("flat_fitness")
                return
            raise Violation("unexpected-" + type(e).__name__, f"step raised {e} at {core.short_tb(e)}")
        self.ref.iters += 1
        if self.ref.rows:
            self.ref.trace.append(self.best())
        c.probe("steps")

    # ------------------------------------------------------------------ checkpoints
    def path(self):
        return os.path.join(self.ctx.scratch, self.ckpt)

    def do_save(self, op):
        self.opt.save(self.path())
        self.snap = copy.deepcopy(self.ref)
        self.ctx.probe("saves")

    def do_crash(self, op):
        """the process dies; results on their way still arrive at its successor"""
        self.ctx.fault("process_crash")
        if self.snap is None:
            self.ref = Ref()
            self.ref.trace = []
            self.opt = None
            core.reset_logging()
            self.build()
        else:
            cls = type(self.opt)
            self.opt = None
            core.reset_logging()
            self.opt = cls.load(self.path())
            self.ref = copy.deepcopy(self.snap)
            self.ctx.probe("restores")
        self.ctx.event(self.tag, "restart", len(self.ref.rows))

    # ------------------------------------------------------------------ invariants
    def check(self):
        if "hist" in self.inv:
            self.check_history()
        if "inc" in self.inv:
            self.check_incumbent()
        if "pareto" in self.inv:
            self.check_pareto()

    def check_history(self, what="history"):
        opt, ref = self.opt, self.ref
        d = diff_rows(ref.rows, rows_of(opt, self.n_obj))
        if d:
            raise Violation("history-differs", d)
        if getattr(opt, "data", None) is not None and len(ref.rows):
            ne = np.asarray(opt.data.n_eval).ravel().tolist()
            if ne != [1] * len(ref.rows):
                raise Violation("eval-mark", f"n_eval is {ne}, every point was evaluated once")
            nm = [str(n) for n in opt.data.var_name]
            if sorted(nm) != sorted(v["name"] for v in self.sp):
                raise Violation("history-labels", f"columns {nm}")
            if len(np.asarray(opt.data.index).ravel()) != len(ref.rows):
                raise Violation("history-labels", "index length")
        if opt.eval_count != ref.reported:
            raise Violation("eval-count", f"eval_count is {opt.eval_count}, {ref.reported} evaluations were reported")
        if opt.iter_count != ref.iters:
            raise Violation("iter-count", f"iter_count is {opt.iter_count}, {ref.iters} reports were completed")

    def check_incumbent(self):
        from bayes_optim.utils.exception import RecommendationUnavailableError

        opt, ref = self.opt, self.ref
        x, e = call(opt.recommend)
        if not ref.rows:
            if e is None:
                raise Violation("phantom-recommendation", f"no evaluation succeeded yet, but recommend() returned {x}")
            if not isinstance(e, RecommendationUnavailableError):
                raise Violation("wrong-recommendation-error", f"{type(e).__name__}: {e}")
            return
        if e is not None:
            raise Violation("no-recommendation", f"recommend() raised {type(e).__name__}: {e} with {len(ref.rows)} evaluations known")
        for how, x in (("recommend()", x), ("xopt", opt.xopt)):
            f = float(np.asarray(x.fitness, dtype=float).ravel()[0])
            vals = list(np.asarray(x, dtype=object).ravel())
            best = self.best()
            if f != best:
                raise Violation("not-the-best", f"{how} has value {f!r}, the best reported value is {best!r}")
            if core.canon([vals, [f]]) not in set(canon_rows(ref.rows)):
                raise Violation("not-in-history", f"{how} {vals} with value {f} was never reported")
        tr = [float(np.asarray(z, dtype=float).ravel()[0]) for z in opt.hist_f]
        if tr != ref.trace:
            raise Violation("progress-trace", f"hist_f is {tr[-6:]} ({len(tr)} entries), should be {ref.trace[-6:]} ({len(ref.trace)})")

    # ------------------------------------------------------------------ multi-objective
    def sign(self):
        m = self.cfg.get("minimize", True)
        return [1.0 if z else -1.0 for z in (m if isinstance(m, list) else [m] * self.n_obj)]

    def pareto(self):
        s = self.sign()
        vec = sorted({r[1] for r in self.ref.rows})
        adj = [tuple(a * b for a, b in zip(s, f)) for f in vec]
        out = []
        for i, a in enumerate(adj):
            if not any(j != i and all(x <= y for x, y in zip(b, a)) and any(x < y for x, y in zip(b, a)) for j, b in enumerate(adj)):
                out.append(vec[i])
        return sorted(out)

    def check_pareto(self):
        from bayes_optim.utils.exception import RecommendationUnavailableError

        opt, ref = self.opt, self.ref
        x, e = call(opt.recommend)
        if not ref.rows:
            if e is None:
                raise Violation("phantom-recommendation", f"recommend() returned {x} without any evaluation")
            if not isinstance(e, RecommendationUnavailableError):
                raise Violation("wrong-recommendation-error", f"{type(e).__name__}: {e}")
            return
        if e is not None:
            raise Violation("no-recommendation", f"recommend() raised {type(e).__name__}: {e}")
        known = set(canon_rows(ref.rows))
        front = self.pareto()
        for how, x in (("recommend()", x), ("xopt", opt.xopt)):
            X = np.asarray(x, dtype=object).reshape(-1, len(self.sp))
            F = np.asarray(x.fitness, dtype=float).reshape(len(X), -1)
            got = []
            for row, f in zip(X, F):
                if core.canon([list(row), list(map(float, f))]) not in known:
                    raise Violation("not-in-history", f"{how} contains {list(row)} with {list(f)}, which was never reported")
                got.append(tuple(map(float, f)))
            extra = [f for f in got if f not in front]
            if extra:
                raise Violation("dominated-recommended", f"{how} contains {extra[0]}, which is dominated; front {front[:4]}")
            miss = [f for f in front if f not in got]
            if miss:
                raise Violation("pareto-point-missing", f"{how} lacks the non-dominated {miss[0]}")
        if len(opt.hist_f) != len(ref.trace):
            raise Violation("progress-trace", f"hist_f has {len(opt.hist_f)} entries for {len(ref.trace)} completed reports")
        for i, (got, want) in enumerate(zip(opt.hist_f, ref.trace)):
            g = sorted({tuple(map(float, f)) for f in np.asarray(got, dtype=float).reshape(-1, self.n_obj)})
            if g != [tuple(w) for w in want]:
                raise Violation("progress-trace", f"hist_f[{i}] is {g[:4]}, the set known then was {want[:4]}")


# ------------------------------------------------------------------------------ observable state
SETTINGS = ("max_FEs", "minimize", "n_point", "DoE_size", "ftarget", "n_obj", "n_job", "verbose", "instance_id", "random_seed", "data_file", "acquisition_fun", "dim")
ADAPTIVE = ("_acquisition_par", "_acquisition_fun", "_optimizer", "AQ_max_FEs", "AQ_n_restart", "t0", "tf", "schedule", "alpha", "eta", "_acquisition_par_list")


def fingerprint(opt, n_obj=1):
    """everything a user can see of the optimizer's state, as {name: canonical text}"""
    out = {}
    data = getattr(opt, "data", None)
    out["rows"] = core.canon([[v, list(f)] for v, f in rows_of(opt, n_obj)])
    if data is not None:
        out["n_eval"] = core.canon(np.asarray(data.n_eval).tolist())
        out["labels"] = core.canon(np.asarray(data.index).tolist())
        out["columns"] = core.canon([str(z) for z in data.var_name])
    out["eval_count"], out["iter_count"] = core.canon(opt.eval_count), core.canon(opt.iter_count)
    out["hist_f"] = core.canon([np.asarray(h, dtype=float).tolist() for h in opt.hist_f])
    x, e = call(opt.recommend)
    out["incumbent"] = type(e).__name__ if e is not None else core.canon([np.asarray(x, dtype=object).tolist(), np.asarray(x.fitness, dtype=float).tolist()])
    out["stop"] = core.canon({k: float(np.ravel(v)[0]) for k, v in opt.stop_dict.items()})
    for k in SETTINGS:
        v = getattr(opt, k, None)
        out[k] = core.canon(np.asarray(v).tolist() if k == "minimize" else v)
    for k in ADAPTIVE:
        v = getattr(opt, k, None)
        if isinstance(v, dict):
            v = {a: b for a, b in v.items() if isinstance(b, (int, float, str, np.floating))}
        out[k] = core.canon(v)
    out["names"] = core.canon([str(z) for z in opt.var_names])
    m = getattr(opt, "model", None)
    out["fitted"] = core.canon(bool(getattr(m, "is_fitted", False)))
    return out


def fingerprint_list(opt, n_obj=1):
    """as `fingerprint`, without the randomly chosen name"""
    return [f"{k}={v}" for k, v in sorted(fingerprint(opt, n_obj).items()) if k != "instance_id"]


def fp_diff(a, b):
    return [f"{k}: {a.get(k)} -> {b.get(k)}"[:500] for k in a if a.get(k) != b.get(k)]


# ------------------------------------------------------------------------------ operation generators
def S(rng):
    return rng.getrandbits(31)


def gen_fixed(rng, sp, p):
    if len(sp) < 2 or rng.random() > p:
        return None
    k = rng.randint(1, max(1, len(sp) - 1))
    i = rng.sample(range(len(sp)), k)
    return {"i": sorted(i) if rng.random() < 0.4 else i, "s": S(rng)}


def gen_ops(rng, cfg, n, mix):
    """mix: dict op -> weight, plus rates"""
    sp = cfg["space"]
    names = [k for k in ("ask", "deliver", "redeliver", "foreign", "lose", "step", "save", "crash") if mix.get(k)]
    w = [mix[k] for k in names]
    ops = []
    pfail = mix.get("pfail", 0.0)
    for _ in range(n):
        o = rng.choices(names, w)[0]
        op = {"op": o, "s": S(rng)}
        if o == "ask":
            if rng.random() < 0.5:
                op["n"] = rng.choice([1, 1, 2, 3, 4, 6])
            fx = gen_fixed(rng, sp, mix.get("pfixed", 0.0))
            if fx:
                op["fixed"] = fx
        elif o in ("deliver", "foreign", "redeliver"):
            k = rng.choice([1, 1, 2, 3, 4, 8]) if o == "deliver" else rng.choice([1, 1, 2, 4])
            if o == "deliver":
                inorder = rng.random() < 0.2
                op["pick"] = [0 if inorder else rng.randrange(64) for _ in range(k)]
            elif o == "foreign":
                op["k"], op["ps"] = k, S(rng)
            else:
                op["p"] = rng.randrange(64)
            fail = {}
            if rng.random() < pfail and o != "redeliver":
                whole = rng.random() < 0.3
                for j in range(k):
                    if whole or rng.random() < 0.5:
                        fail[str(j)] = rng.choice(["nan", "nan", "inf", "-inf"])
            if fail:
                op["fail"] = fail
            if mix.get("values") and o == "deliver" and rng.random() < mix["values"]:
                op["fv"] = [rng.choice(VALUES) for _ in range(k)]
            if rng.random() < 0.5:
                op["ks"] = rng.randrange(1, 1000)
            r = rng.random()
            if r < 0.2:
                op["yfmt"] = rng.choice(["array", "tuple"])
            if rng.random() < mix.get("psol", 0.0):
                op["fmt"] = "solution"
            if rng.random() < 0.15:
                op["index"] = rng.choice([True, "reused", "job"])
        elif o == "lose":
            op["p"] = rng.randrange(64)
        elif o == "step":
            if rng.random() < pfail:
                op["fail"] = {str(rng.randrange(4)): rng.choice(["nan", "inf", "raise", "raise"])}
        ops.append(op)
    return ops


VALUES = [0.0, -0.0, 1.0, 1.0, 2.0, -1.0, -3.5, 1e-300, -1e-300, 5e-324, 1e12, -1e12, 1e100, -1e100, 1e-9, -1e-9, 0.1 + 0.2, 0.3, 1.0 + 2**-52, 1.0 - 2**-53, None, None, None]


def run_ops(cp, ops):
    for op in ops:
        cp.do(op)
    return {"n": len(cp.ref.rows)}
