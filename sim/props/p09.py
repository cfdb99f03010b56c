"""P09: parallel evaluation is exactly-once and aligned with the proposals."""
import math

import numpy as np

from .. import campaign, core, engine, world
from ..campaign import call, rows_of
from ..core import Violation

RUNS = {"quick": 420, "thorough": 20000}
RULE = "non-trivial: at least one batch of two or more points was evaluated by simulated workers whose completion order the scheduler chose (or by pre-empted threads), or a worker failed."


def gen(rng, tier, i):
    mode = rng.choice(["jobs", "jobs", "jobs", "own", "own", "mo", "mo", "rf", "rf"])
    if mode == "mo":
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub", "stub", "rf"), n_obj=rng.choice([2, 3]), dim=rng.choice([1, 2, 3]))
        cfg["n_job"] = rng.choice([1, 2, 3, 4])
    elif mode == "rf":
        cfg = campaign.gen_cfg(rng, models=("rf",), dim=rng.choice([1, 2, 3]))
        cfg["rf_jobs"], cfg["rf_n"] = rng.choice([2, 3, 4]), rng.choice([3, 5, 8])
        cfg["n_job"] = rng.choice([1, 1, 2])
    else:
        cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "rf"), dim=rng.choice([1, 2, 3, 4]))
        if mode == "own":
            cfg["parallel_obj"] = True
            cfg["n_job"] = rng.choice([1, 1, 3])
        else:
            cfg["n_job"] = rng.choice([2, 2, 3, 4, 8])
    cfg["aq_FEs"], cfg["aq_restart"] = 20, 1
    cfg["doe"] = rng.choice([2, 3, 5, 8, 12])
    if cfg["alg"] not in ("BO", "MOBO"):
        cfg["n_point"] = rng.choice([2, 3, 5])
    ops = []
    for _ in range(rng.randint(2, 4 if tier == "quick" else 8)):
        op = {"op": rng.choice(["step", "batch", "batch"]), "s": engine.S(rng)}
        r = rng.random()
        if r < 0.25:
            op["fail"] = {str(rng.randrange(8)): rng.choice(["raise", "raise", "nan", "inf"]) for _ in range(rng.choice([1, 1, 2]))}
            op["which"] = rng.randrange(3)
        elif r < 0.37:
            op["kill"] = [rng.randrange(10), rng.choice(["before", "after"])]
        if rng.random() < 0.3:
            op["n"] = rng.choice([1, 2, 4, 7])
        ops.append(op)
    if rng.random() < 0.7 and mode == "rf":
        ops.append({"op": "predict", "s": engine.S(rng), "k": rng.choice([1, 2, 5])})
    return {"cfg": cfg, "ops": ops, "preempt": mode == "rf" and rng.random() < 0.8 or rng.random() < 0.1}


class C(engine.Campaign):
    def counted(self, marks):
        return [o.log[m:] for o, m in zip(self.objs, marks)]

    def arm(self, op):
        marks = [len(o.log) for o in self.objs]
        f = {int(j): k for j, k in (op.get("fail") or {}).items()}
        o = self.objs[op.get("which", 0) % len(self.objs)]
        o.faults = {marks[self.objs.index(o)] + j: k for j, k in f.items()}
        self.ctx.kill_worker = list(op["kill"]) if op.get("kill") else None
        self.killed0 = self.ctx.faults.get("worker_killed", 0)
        return marks

    def disarm(self):
        for o in self.objs:
            o.faults = {}
        self.ctx.kill_worker = None

    def fp(self):
        f = engine.fingerprint(self.opt, self.n_obj)
        return {k: f[k] for k in ("rows", "eval_count", "iter_count", "hist_f", "incumbent")}

    def failed(self, e, logs, what, before):
        """the iteration failed: was that right, and did it leave no trace?"""
        if campaign.is_expected_empty(e) and not any(logs):
            return
        raised = any(ent[1] is None for lg in logs for ent in lg)
        killed = self.ctx.faults.get("worker_killed", 0) > self.killed0
        if not (raised and "injected" in str(e) or killed and "terminated" in str(e)):
            raise Violation("unexpected-" + type(e).__name__, f"{what} raised {e} at {core.short_tb(e)}")
        self.ctx.probe("failed_iterations")
        d = engine.fp_diff(before, self.fp())
        if d:
            raise Violation("failed-batch-recorded", f"a worker failed, yet {d[:2]}")

    def do_batch(self, op):
        """ask, evaluate and tell one after the other"""
        c = self.ctx
        n = op.get("n")
        if self.cfg["alg"] in ("BO", "MOBO") and self.fitted():
            n = None
        before = self.fp()
        marks = self.arm(op)
        X, e = call(self.opt.ask, **({} if n is None else {"n_point": n}))
        if e is not None:
            self.disarm()
            return self.failed(e, [], "ask", before)
        pts = [world.vals_of(self.sp, x, "") for x in X]
        y, e = call(self.opt.evaluate, X)
        self.disarm()
        logs = self.counted(marks)
        c.event(self.tag, "evaluate", pts, [lg for lg in logs], type(e).__name__ if e else "ok")
        if e is not None:
            return self.failed(e, logs, "evaluate", before)
        if any(ent[1] is None for lg in logs for ent in lg):
            raise Violation("error-swallowed", "a worker raised but evaluate() returned normally")
        c.probe("batches")
        if len(pts) > 1:
            c.probe("parallel_batches")
        self.judge_calls(pts, logs)
        vals = [tuple(np.ravel(z)) for z in y]
        want = self.results(pts, logs)
        if len(vals) != len(pts):
            raise Violation("result-count", f"{len(vals)} results for {len(pts)} points")
        keys = [engine.key(p) for p in pts]
        for k, p, a in zip(keys, pts, vals):
            # the same point may be in the batch twice (noisy problems), the calls in any order
            b = sorted((core.canon(list(w)) for j, w in zip(keys, want) if j == k))
            if sorted(core.canon(list(w)) for j, w in zip(keys, vals) if j == k) != b:
                raise Violation("result-misattached", f"{p} was evaluated to {b}, evaluate() says {list(a)}")
        _, e = call(self.opt.tell, X, y)
        self.after(pts, vals, e)

    def results(self, pts, logs):
        """what the objective(s) returned for each point, from the calls they received"""
        out = []
        for lg in logs:
            got = {}
            for v, r in lg:
                got.setdefault(engine.key(v), []).append(r)
            out.append([got[engine.key(p)].pop(0) for p in pts])
        return [tuple(o[i] for o in out) for i in range(len(pts))]

    def judge_calls(self, pts, logs):
        want = sorted(engine.key(p) for p in pts)
        for k, lg in enumerate(logs):
            got = sorted(engine.key(v) for v, _ in lg)
            if got != want:
                raise Violation("not-exactly-once", f"objective {k}: {len(got)} calls for {len(want)} points; not evaluated {[z for z in want if z not in got][:2]}, evaluated too often {[z for z in got if got.count(z) > want.count(z)][:2]}")

    def after(self, pts, fits, e):
        from bayes_optim.utils.exception import FlatFitnessError

        self.ref.reported += len(pts) * (self.n_obj if self.mo else 1)
        self.ref.rows += [(list(p), tuple(f)) for p, f in zip(pts, fits) if all(math.isfinite(z) for z in f)]
        if e is not None:
            if isinstance(e, FlatFitnessError) and self.flat(self.ref.rows):
                return
            raise Violation("unexpected-" + type(e).__name__, f"tell raised {e} at {core.short_tb(e)}")
        self.ref.iters += 1

    def do_step(self, op):
        before = self.fp()
        n0 = len(rows_of(self.opt, self.n_obj))
        proposed = []

        def spy(ask, *a, **k):
            X = ask(*a, **k)
            proposed.extend(world.vals_of(self.sp, x, "") for x in X)
            return X

        marks = self.arm(op)
        with campaign.spying(self.opt, "ask", spy):
            _, e = call(self.opt.step)
        self.disarm()
        logs = self.counted(marks)
        self.ctx.event(self.tag, "step", proposed, [lg for lg in logs], type(e).__name__ if e else "ok")
        raised = any(ent[1] is None for lg in logs for ent in lg)
        killed = self.ctx.faults.get("worker_killed", 0) > self.killed0
        if e is not None and (raised or killed or campaign.is_expected_empty(e)):
            return self.failed(e, logs, "step", before)
        if raised and e is None:
            raise Violation("error-swallowed", "a worker raised but step() returned normally")
        pts = proposed if proposed else [v for v, _ in logs[0]]
        if e is not None and not any(logs):
            raise Violation("unexpected-" + type(e).__name__, f"step raised {e} at {core.short_tb(e)}")
        self.judge_calls(pts, logs)
        self.ctx.probe("steps")
        if len(pts) > 1:
            self.ctx.probe("parallel_batches")
        self.after(pts, self.results(pts, logs), e)

    def do_predict(self, op):
        """the same forest predicts the same with one thread and with many"""
        m = self.opt.model
        if not self.fitted() or not hasattr(m, "n_jobs"):
            return
        import random

        rng = random.Random(op["s"])
        X = [world.random_point(rng, self.sp) for _ in range(op["k"])]
        X += [v for v, _ in self.ref.rows[:2]]
        jobs = m.n_jobs
        a = m.predict(X, eval_MSE=True)
        m.n_jobs = None
        try:
            b = m.predict(X, eval_MSE=True)
        finally:
            m.n_jobs = jobs
        self.ctx.probe("threaded_predictions")
        # mean and variance over the trees, computed by the trees themselves
        for name, x, z in (("mean", a[0], b[0]), ("MSE", a[1], b[1])):
            if not np.allclose(x, z, rtol=1e-9, atol=1e-12):
                raise Violation("threaded-prediction-differs", f"{name} {np.ravel(x)[:3]} with {jobs} threads, {np.ravel(z)[:3]} with one")

    def check(self):
        d = campaign.diff_rows(self.ref.rows, rows_of(self.opt, self.n_obj))
        if d:
            raise Violation("history-differs", d)
        if self.opt.eval_count != self.ref.reported:
            raise Violation("eval-count", f"eval_count is {self.opt.eval_count}, {self.ref.reported} evaluations were made")


def run(sc, ctx):
    ctx.kill_worker = None
    cp = C(sc["cfg"], ctx)
    return engine.run_ops(cp, sc["ops"])


def nontrivial(r):
    return bool(r["probes"].get("parallel_batches") and r["nsched"] or r["faults"].get("worker_killed") or r["faults"].get("objective_raises"))
