"""P10: a run stops at the budget or target, and reports truthfully."""
import math
import os
import random

import numpy as np

from .. import campaign, core, engine, world
from ..campaign import call
from ..core import Violation

RUNS = {"quick": 1000, "thorough": 20000}
RULE = "non-trivial: a run (or a user's own loop) was driven to its stop condition and judged at every iteration boundary; failing evaluations, interruptions and restores included."


def gen(rng, tier, i):
    kind = rng.choice(["run"] * 6 + ["loop"] * 3 + ["fmin"])
    if kind == "fmin":
        dim = rng.choice([1, 1, 2, 2, 3])
        n = rng.choice([1, 1, 2, 3])
        x0 = rng.choice(["none", "int", "warm", "warm_nof"])
        doe = rng.choice([2, 3, 4, 6])
        return {
            "kind": kind,
            "dim": dim,
            "lo": [rng.choice([-5.0, 0.0, 1.0]) for _ in range(dim)],
            "w": [rng.choice([1.0, 6.0]) for _ in range(dim)],
            "n": n,
            "x0": "int" if x0 == "none" and dim > 1 else x0,
            "doe": doe,
            "max_FEs": rng.choice([1, 2, doe, doe + 1, doe + n, doe + 2 * n + 1, 9]),
            "fseed": rng.choice([None, 0, 1, 42]),
            "scalar": dim == 1 and rng.random() < 0.4,
            "args": rng.random() < 0.3,
            "target": rng.choice([None, None, 0.3, 1.5, 2.0]),
            "fail": {str(rng.randrange(9)): rng.choice(["nan", "inf"]) for _ in range(rng.choice([0, 0, 1, 2]))},
            "obj_shift": rng.choice([0.0, -2.0]),
            "ops": [],
        }
    if rng.random() < 0.12:
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub",), n_obj=2)
    else:
        cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "stub", "rf"))
    cfg["aq_FEs"] = 20
    doe, n = cfg["doe"], cfg["n_point"]
    cfg["max_FEs"] = rng.choice([1, 2, doe - 1 or 1, doe, doe + 1, doe + n, doe + n + 1, doe + 3 * n, 14, 20])
    if cfg["alg"] == "AnnealingBO":
        cfg["max_FEs"] = max(cfg["max_FEs"], doe + 2)
    if cfg["alg"] == "MOBO":
        cfg["max_FEs"] = rng.choice([1, 3, 2 * doe, 2 * doe + 1, 2 * doe + 5, 20])
    elif rng.random() < 0.5:
        cfg["target_q"] = rng.choice([0.0, 0.1, 0.3, 0.6, 0.9])
        cfg["target_tie"] = rng.random() < 0.3
        cfg["target_zero"] = rng.choice([None, None, 1, 1.0])
    if rng.random() < 0.2 and cfg["alg"] != "MOBO":
        cfg["warm"] = {"n": rng.randint(1, 6), "s": engine.S(rng), "ks": 1}
    if rng.random() < 0.2:
        cfg["n_job"] = 2
    fails = {str(rng.randrange(20)): rng.choice(["nan", "inf", "nan", "-inf", "raise", "raise"]) for _ in range(rng.choice([0, 0, 1, 2, 4]))}
    if rng.random() < 0.06:
        fails = {str(k): "nan" for k in range(200)}
    sc = {"kind": kind, "cfg": cfg, "fail": fails, "restore": rng.choice([None, None, "interrupt", "end"]), "ops": []}
    if kind == "loop":
        mix = {"ask": 4, "deliver": 7, "foreign": 0.5, "step": 1, "save": 0.4, "crash": 0.3, "pfail": rng.choice([0, 0.2]), "values": rng.choice([0, 0.2])}
        sc["ops"] = [{"op": "ask", "s": 1}, {"op": "deliver", "s": 2, "pick": [0] * 4}] + engine.gen_ops(rng, cfg, rng.randint(4, 12), mix)
        cfg["fail"] = {}
    return sc


def set_target(cfg):
    q = cfg.get("target_q")
    if q is None:
        return
    rng = random.Random("target" + str(q))
    vals = sorted(world.objective_value(cfg["space"], world.random_point(rng, cfg["space"]), cfg, 0) for _ in range(20))
    if not cfg.get("minimize", True):
        vals.reverse()
    # a tie with a possible value, or something in between
    k = int(q * 19)
    cfg["ftarget"] = vals[k] if cfg.get("target_tie") else (vals[k] + vals[min(19, k + 1)]) / 2
    if cfg.get("target_zero"):  # the natural target of many problems
        cfg["obj_shift"] = cfg.get("obj_shift", 0.0) - cfg["ftarget"]
        cfg["ftarget"] = cfg["target_zero"] - 1


class C(engine.Campaign):
    def should_stop(self, evals, best):
        """-> set of reasons"""
        out = set()
        if evals >= self.cfg["max_FEs"]:
            out.add("max_FEs")
        t = self.cfg.get("ftarget")
        if t is not None and best is not None and (best < t if self.cfg.get("minimize", True) else best > t):
            out.add("ftarget")
        return out

    def bestv(self):
        return self.ref.best(self.cfg.get("minimize", True)) if self.ref.rows and not self.mo else None

    def judge_stop(self):
        """what the optimizer says about stopping, any time"""
        want = self.should_stop(self.ref.reported, self.bestv())
        got, e = call(self.opt.check_stop)
        if e is not None:
            raise Violation("unexpected-" + type(e).__name__, f"check_stop raised {e} at {core.short_tb(e)}")
        if bool(got) != bool(want):
            raise Violation("stop-condition", f"check_stop() says {bool(got)} after {self.ref.reported} of {self.cfg['max_FEs']} evaluations, best {self.bestv()!r}, target {self.cfg.get('ftarget')!r}")
        if set(self.opt.stop_dict) != want:
            raise Violation("stop-reason", f"reasons {sorted(self.opt.stop_dict)} given, {sorted(want)} hold")
        return want

    def judge_result(self, res):
        x, f, why = res
        want = self.should_stop(self.ref.reported, self.bestv())
        if set(why) != want:
            raise Violation("stop-reason", f"run() gives {dict(why)}, {sorted(want)} hold")
        if "ftarget" in why and float(np.ravel(why["ftarget"])[0]) != self.bestv():
            raise Violation("stop-reason", f"target hit by {why['ftarget']}, the best is {self.bestv()}")
        if self.mo:
            front = self.pareto()
            got = sorted({tuple(map(float, z)) for z in np.asarray(f, dtype=float).reshape(-1, self.n_obj)})
            if got != [tuple(z) for z in front]:
                raise Violation("wrong-result", f"run() returned the set {got[:3]}, the front is {front[:3]}")
            return
        v = float(np.ravel(f)[0])
        if v != self.bestv():
            raise Violation("wrong-result", f"run() returned the value {v}, the best call gave {self.bestv()}")
        vals = world.vals_of(self.sp, x, "")
        if core.canon([vals, [v]]) not in set(campaign.canon_rows(self.ref.rows)):
            raise Violation("wrong-result", f"run() returned {vals} with {v}, which no call gave")

    # ------------------------------------------------------------------ run()
    def run_once(self):
        """-> (result|None, exception|None); judges every iteration boundary"""
        opt, c = self.opt, self.ctx
        pos = [len(o.log) for o in self.objs]

        def spy(tell, X, *a, **k):
            # the calls of this iteration
            logs = [o.log[p:] for o, p in zip(self.objs, pos)]
            pts = [world.vals_of(self.sp, x, "") for x in X]
            for lg in logs:
                if sorted(engine.key(v) for v, _ in lg) != sorted(engine.key(p) for p in pts):
                    raise Violation("calls-differ", f"{len(lg)} calls of the objective for {len(pts)} told points")
            cols = []
            for lg in logs:
                got = {}
                for v, r in lg:
                    got.setdefault(engine.key(v), []).append(r)
                cols.append([got[engine.key(p)].pop(0) for p in pts])
            fits = [tuple(col[j] for col in cols) for j in range(len(pts))]
            want = self.should_stop(self.ref.reported, self.bestv())
            if want:
                raise Violation("stopped-too-late", f"another iteration although {sorted(want)} held: {self.ref.reported} of {self.cfg['max_FEs']} evaluations, best {self.bestv()!r}, target {self.cfg.get('ftarget')!r}")
            self.ref.reported += len(pts) * (self.n_obj if self.mo else 1)
            self.ref.rows += [(list(p), f) for p, f in zip(pts, fits) if all(math.isfinite(z) for z in f)]
            for i, o in enumerate(self.objs):
                pos[i] = len(o.log)
            c.event(self.tag, "iteration", pts, fits)
            c.probe("iterations")
            out = tell(X, *a, **k)
            self.ref.iters += 1
            return out

        with campaign.spying(opt, "tell", spy):
            res, e = call(opt.run)
        stray = [o.log[p:] for o, p in zip(self.objs, pos)]
        return res, e, stray

    def campaign_run(self, sc):
        from bayes_optim.utils.exception import FlatFitnessError, RecommendationUnavailableError

        c = self.ctx
        for o in self.objs:
            o.faults = {int(k): v for k, v in sc["fail"].items()}
            o.max_calls = 400
        if sc["fail"] and len(self.objs) > 1:
            self.objs[1].faults = {}
        for attempt in range(8):
            res, e, stray = self.run_once()
            if e is None:
                if any(stray):
                    raise Violation("calls-differ", f"{[len(s) for s in stray]} calls of the objective were never reported")
                break
            if "injected" in str(e):
                c.probe("interrupted_runs")
            elif isinstance(e, FlatFitnessError) and self.flat(self.ref.rows):
                return
            elif campaign.is_expected_empty(e) and self.may_be_empty(max(self.opt.n_point, self.cfg["doe"]), None):
                return
            elif isinstance(e, RecommendationUnavailableError) and not self.ref.rows:
                if not self.should_stop(self.ref.reported, None):
                    raise Violation("stopped-too-early", "run() gave up before the budget was used")
                c.probe("all_failed")
                return
            else:
                raise Violation("unexpected-" + type(e).__name__, f"run raised {e} at {core.short_tb(e)}")
            self.check_counters()
            if sc.get("restore") == "interrupt":
                self.reload()
        else:
            return
        if not self.should_stop(self.ref.reported, self.bestv()):
            raise Violation("stopped-too-early", f"run() ended after {self.ref.reported} of {self.cfg['max_FEs']} evaluations, best {self.bestv()!r}, target {self.cfg.get('ftarget')!r}")
        self.judge_result(res)
        self.check_counters()
        c.probe("finished_runs")
        if sc.get("restore") == "end":
            self.reload()
        # continuing a finished run evaluates nothing more
        n = [len(o.log) for o in self.objs]
        res, e, stray = self.run_once()
        if e is not None:
            raise Violation("unexpected-" + type(e).__name__, f"run() after the end raised {e}")
        if [len(o.log) for o in self.objs] != n:
            raise Violation("stopped-too-late", "calling run() again evaluated more points")
        self.judge_result(res)

    def check_counters(self):
        if self.opt.eval_count != self.ref.reported:
            raise Violation("eval-count", f"eval_count is {self.opt.eval_count}, the objective was called {self.ref.reported} times in completed iterations")
        if self.opt.iter_count != self.ref.iters:
            raise Violation("iter-count", f"iter_count is {self.opt.iter_count}, there were {self.ref.iters} iterations")
        self.judge_stop()

    def reload(self):
        self.opt.save(self.path())
        cls = type(self.opt)
        self.opt = None
        self.opt = cls.load(self.path())
        self.ctx.fault("process_crash")
        self.ctx.probe("restores")

    def check(self):
        if self.judge_now:
            self.judge_stop()

    judge_now = False


def fmin_case(sc, ctx):
    from bayes_optim import fmin

    calls, dim = [], sc["dim"]
    fails = {int(k): v for k, v in sc["fail"].items()}

    def f(x, *args):
        ctx.step(20)
        if args != ((7, "a") if sc["args"] else ()):
            raise Violation("fmin-args", f"the objective received {args}")
        x = [float(z) for z in np.ravel(x)]
        if len(calls) > 60:
            raise core.SimHang("fmin")
        for v, l, w in zip(x, sc["lo"], sc["w"]):
            if not l <= v <= l + w:
                raise Violation("outside-search-space", f"{x}")
        k = fails.get(len(calls))
        y = sum(((a - l) / w - 0.37) ** 2 * (j + 1) for j, (a, l, w) in enumerate(zip(x, sc["lo"], sc["w"]))) + 0.01 * math.sin(31 * sum(x)) + sc["obj_shift"]
        if k:
            ctx.fault("objective_" + k)
            y = math.nan if k == "nan" else math.inf
        calls.append((x, y))
        return y

    lo, hi = list(sc["lo"]), [a + w for a, w in zip(sc["lo"], sc["w"])]
    kw = dict(max_FEs=sc["max_FEs"], n_point=sc["n"], seed=sc["fseed"], acquisition_optimization={"max_FEs": 20, "n_restart": 1})
    if sc["args"]:
        kw["args"] = (7, "a")
    if sc["target"] is not None:
        kw["ftarget"] = sc["target"] + sc["obj_shift"]
    rng = random.Random(5)
    warm = []
    if sc["x0"] == "int":
        kw["x0"] = sc["doe"]
        first = sc["doe"]
    elif sc["x0"].startswith("warm"):
        X = [[rng.uniform(a, b) for a, b in zip(lo, hi)] for _ in range(sc["doe"])]
        kw["x0"] = X
        if sc["x0"] == "warm":
            fails2 = dict(fails)
            fails.clear()
            kw["y0"] = [f(x, *kw.get("args", ())) for x in X]
            fails.update(fails2)
            warm = list(calls)
            calls.clear()
        first = len(X)
    else:
        first = 5 * dim
    res, e = call(fmin, f, lo[0] if sc["scalar"] else lo, hi[0] if sc["scalar"] else hi, **kw)
    ctx.event("fmin", calls, type(e).__name__ if e else "ok")
    from bayes_optim.utils.exception import FlatFitnessError, RecommendationUnavailableError

    if e is not None:
        if isinstance(e, RecommendationUnavailableError) and not any(math.isfinite(y) for _, y in warm + calls):
            return None
        if campaign.is_expected_empty(e) or isinstance(e, FlatFitnessError):
            return None
        raise Violation("unexpected-" + type(e).__name__, f"fmin raised {e} at {core.short_tb(e)}")
    ctx.probe("finished_runs")
    own = 0
    if sc["x0"] == "warm_nof":
        own = first
        warm, calls = calls[:first], calls[first:]
    x, y, iters, evals, tried = res
    if evals not in (len(calls), len(calls) + own):
        raise Violation("eval-count", f"fmin reports {evals} evaluations, the objective was called {len(calls)} times" + (f" (+{own} on the initial points)" if own else ""))
    allc = [(x_, y_) for x_, y_ in warm + calls if math.isfinite(y_)]
    best = min(y_ for _, y_ in allc)
    y = float(np.ravel(y)[0])
    if y != best:
        raise Violation("wrong-result", f"fmin returned the value {y}, the best is {best}")
    xv = [float(z) for z in np.ravel(np.asarray(x, dtype=object))]
    if core.canon([xv, y]) not in {core.canon([a, b]) for a, b in allc}:
        raise Violation("wrong-result", f"fmin returned {xv} with {y}, which no call gave")
    # the stop condition at every iteration boundary
    sizes = [len(t) for t in tried]
    flat = [[float(z) for z in r] for t in tried for r in np.asarray(t, dtype=object).reshape(-1, dim)]
    expect = [a for a, _ in warm + calls]
    if core.canon(flat) != core.canon(expect):
        raise Violation("trial-points", f"fmin returned the trial points {core.canon(flat)[:300]} ({sizes}), the objective was called on {core.canon(expect)[:300]}")
    if warm:
        body = sizes[1:]
    else:
        body = sizes
        if body and body[0] != first:
            raise Violation("trial-points", f"{body[0]} initial points instead of {first}")
    if len(body) != iters:
        raise Violation("iter-count", f"fmin reports {iters} iterations but {len(body)} sets of trial points")
    done, bst = 0, min([b for _, b in warm if math.isfinite(b)], default=None)
    t = kw.get("ftarget")
    stop = lambda: done >= sc["max_FEs"] or (t is not None and bst is not None and bst < t)
    for k, n in enumerate(body):
        if stop():
            raise Violation("stopped-too-late", f"iteration {k} began after {done} of {sc['max_FEs']} evaluations, best {bst}, target {t}")
        doe = (5 * dim if warm else first) if bst is None else sc["n"]
        if n > doe:
            raise Violation("trial-points", f"{n} points in iteration {k}")
        for _, b in calls[done : done + n]:
            if math.isfinite(b):
                bst = b if bst is None else min(bst, b)
        done += n
    if not stop():
        raise Violation("stopped-too-early", f"fmin ended after {done} of {sc['max_FEs']} evaluations, best {bst}, target {t}")
    return None


def run(sc, ctx):
    if sc["kind"] == "fmin":
        return fmin_case(sc, ctx)
    cfg = sc["cfg"]
    set_target(cfg)
    cp = C(cfg, ctx)
    if sc["kind"] == "run":
        cp.campaign_run(sc)
    else:
        cp.judge_now = True
        cp.check()
        for op in sc["ops"]:
            cp.do(op)
        ctx.probe("loops")
    return None


def nontrivial(r):
    p = r["probes"]
    return bool(p.get("finished_runs") or p.get("loops") or p.get("all_failed"))
