"""P13: a failing step never corrupts or loses recorded data."""
import copy
import math
import os
import random
import sys

import numpy as np

from .. import campaign, cond, core, disk, engine, world
from ..campaign import canon_rows, diff_rows, rows_of
from ..core import Violation

RUNS = {"quick": 420, "thorough": 20000}
RULE = "non-trivial: at least one injected failure was met by a request, an evaluation, a report or a save, and the optimizer was used again afterwards."
ASSUME = [
    "failures come out of calls the optimizer makes (surrogate training and prediction, the user's functions, the file system, pickling) or from malformed messages; an interrupt between two statements of the optimizer itself is not injected",
    "the twin that never met the failure is compared from the next acknowledged report on, for optimizers without self-adapting parameters and surrogates without a private random state",
]
STUB = ["surrogate model (in part of the runs): inverse-distance weighting instead of a forest or a Gaussian process"]
EXC = {"MemoryError": MemoryError, "RuntimeError": RuntimeError, "ValueError": ValueError, "interrupt": KeyboardInterrupt, "OSError": OSError, "FloatingPointError": FloatingPointError}
GATE = {"armed": None, "fired": False}


def gate(site):
    g = GATE["armed"]
    if not g or g["site"] != site:
        return
    if g["k"] > 0:
        g["k"] -= 1
        return
    GATE["armed"], GATE["fired"] = None, True
    core.ctx().fault(f"{site}_{g['exc']}")
    raise EXC[g["exc"]]("injected")


def gated(site, fn):
    def wrapper(*a, **k):
        gate(site)
        return fn(*a, **k)

    return wrapper


def prepare():
    """seams: the libraries below the surrogates, and the simulated surrogate itself"""
    import sklearn.tree._classes as tree

    base = tree.BaseDecisionTree
    base._fit = gated("fit", base._fit)
    base.predict = gated("predict", base.predict)
    world.StubModel.fit = gated("fit", world.StubModel.fit)
    world.StubModel.predict = gated("predict", world.StubModel.predict)
    import scipy.linalg as sl

    for name in ("cholesky", "solve_triangular", "cho_solve"):
        orig = getattr(sl, name)
        new = gated("fit", orig)
        for mod in [m for k, m in sorted(sys.modules.items()) if k.startswith("bayes_optim.surrogate")]:
            for attr, val in list(vars(mod).items()):
                if val is orig:
                    setattr(mod, attr, new)


def callb(fn, *a, **k):
    try:
        return fn(*a, **k), None
    except (Exception, KeyboardInterrupt) as e:
        return None, e


# ------------------------------------------------------------------------------------- generator
MALFORMED = ["fewer", "text", "list", "complex", "short_point", "long_point", "empty", "index", "scalar", "none_point", "bad_level", "bad_number"]


def gen(rng, tier, i):
    r = rng.random()
    if r < 0.1:
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub", "stub", "rf"), n_obj=2, simple=True)
    elif r < 0.2:
        cfg = cond.gen_cfg(rng)
    else:
        cfg = campaign.gen_cfg(rng, models=("stub", "stub", "rf", "gp"))
    conditional = cfg["alg"] == "ConditionalBO"
    cfg["aq_FEs"] = rng.choice([10, 20])
    cfg["aq_restart"] = rng.choice([1, 2])
    if cfg.get("model") == "rf":
        cfg["rf_seed"] = rng.randrange(100)
    if not conditional and cfg["alg"] != "MOBO":
        cfg["file"] = rng.random() < 0.3
        if rng.random() < 0.06 and cfg["model"] != "gp":
            cfg["ineq"] = [world.gen_constraint(rng, cfg["space"])]
    mix = {"ask": 5, "deliver": 6, "redeliver": 0.3 if cfg.get("model") != "gp" else 0, "foreign": 1, "step": 1.5, "save": 0.7, "lose": 0.2, "pfail": rng.choice([0, 0.2]), "pfixed": 0.0 if conditional else 0.15}
    ops = engine.gen_ops(rng, cfg, rng.randint(5, 14 if tier == "quick" else 34), mix)
    ops = [{"op": "ask", "s": engine.S(rng)}, {"op": "deliver", "s": engine.S(rng), "pick": [0] * rng.choice([1, 3, 8])}] + ops
    p = rng.choice([0.2, 0.35, 0.5])
    for op in ops:
        if rng.random() > p:
            continue
        o = op["op"]
        exc = rng.choice(["MemoryError", "MemoryError", "RuntimeError", "ValueError", "FloatingPointError", "OSError" if conditional else "interrupt"])
        if o in ("deliver", "redeliver", "foreign"):
            kind = rng.choice(["fit", "fit", "fit", "predict", "malformed", "malformed"] + (["disk"] * 2 if cfg.get("file") else []))
            if kind == "malformed":
                if conditional:
                    kind = "fit"
                else:
                    op["flt"] = {"site": "malformed", "kind": rng.choice(MALFORMED), "j": rng.randrange(8)}
                    continue
            if kind == "disk":
                op["flt"] = {"site": "disk", "plan": [{"what": "error", "nth": rng.choice([0, 0, 1]), "path": "d.csv", "errno": rng.choice(["ENOSPC", "EIO", "EACCES", "EMFILE"])}]}
            else:
                op["flt"] = {"site": kind, "k": rng.choice([0, 0, 1, 2, 5, 9]), "exc": exc}
        elif o == "ask":
            kind = rng.choice(["predict", "predict", "args"] + (["cons"] * 4 if cfg.get("ineq") or cfg.get("eq") else []))
            if kind == "args":
                op["flt"] = {"site": "args", "kind": rng.choice(["unknown", "text_n", "list_fixed"])} if not conditional else None
                if op["flt"] is None:
                    op.pop("flt")
            else:
                op["flt"] = {"site": kind, "k": rng.choice([0, 1, 3, 10, 40]), "exc": exc}
                if kind == "cons" and rng.random() < 0.5:
                    op["flt"]["j"] = rng.choice([0, 1, 1, 1, 2])
        elif o == "step":
            kind = rng.choice(["objective", "objective", "fit", "predict"] + (["disk"] if cfg.get("file") else []) + (["cons"] * 2 if cfg.get("ineq") or cfg.get("eq") else []))
            if kind == "disk":
                op["flt"] = {"site": "disk", "plan": [{"what": "error", "nth": 0, "path": "d.csv", "errno": "ENOSPC"}]}
            elif kind == "objective":
                op["fail"] = {str(rng.choice([0, 0, 1, 2])): "raise"}
            else:
                op["flt"] = {"site": kind, "k": rng.choice([0, 1, 3, 10]), "exc": exc}
        elif o == "save":
            op["flt"] = {"site": "save", "kind": rng.choice(["notdir", "pickle", "disk"]), "exc": rng.choice(["raise", "interrupt", "MemoryError"]), "nth": rng.choice([0, 1, 2])}
    return {"cfg": cfg, "ops": ops}


# ------------------------------------------------------------------------------------- the campaign
class Mixin:
    def setup(self, twin):
        self.twin, self.dirty, self.failures = twin, False, 0

    # ---- arming
    def arm(self, flt):
        GATE["armed"], GATE["fired"] = None, False
        if not flt:
            return
        if flt["site"] in ("fit", "predict"):
            GATE["armed"] = {"site": flt["site"], "k": flt["k"], "exc": flt["exc"]}
        elif flt["site"] == "disk":
            disk.DISK.arm(flt["plan"])
        elif flt["site"] == "cons":
            for con in self.cons:
                if "j" in flt:
                    con.arm_site(flt["j"], flt["k"] % 4, flt["k"])
                else:
                    con.fault_at = con.n + 1 + flt["k"]

    def disarm(self, flt):
        fired = GATE["fired"]
        GATE["armed"], GATE["fired"] = None, False
        if flt and flt["site"] == "disk":
            fired = bool(disk.DISK.fired())
            disk.DISK.disarm()
        for con in self.cons:
            fired = con.disarm_site() or fired
            if con.fault_at is not None:
                fired = fired or con.n >= con.fault_at
                con.fault_at = None
        return fired

    def injected(self, e, flt):
        if e is None:
            return False
        if flt["site"] == "disk":
            return isinstance(e, OSError)
        return True

    def failed(self, what):
        self.failures += 1
        self.ctx.probe("failures")
        self.ctx.event(self.tag, "failed", what)

    # ---- reports
    def report(self, pts, fits, op, expect_error=None):
        flt = op.get("flt")
        if not flt:
            n = self.ref.iters
            super().report(pts, fits, op)
            if self.twin is not None:
                self.mirror(pts, fits, op)
            if self.ref.iters > n and self.ref.rows:
                self.dirty = False
            return
        if flt["site"] == "malformed":
            return self.malformed(pts, fits, op, flt)
        kw = {"index": [f"w{self.ref.reported + j}" for j in range(len(pts))]} if op.get("index") else {}
        self.arm(flt)
        st = np.random.get_state()
        _, e = callb(self.opt.tell, self.message(pts, op), self.fits_arg(fits, op), **kw)
        fired = self.disarm(flt)
        if not fired:
            self.settle_ok(pts, fits, e, "tell")
        elif e is None:
            if self.cfg.get("model") != "gp":
                raise Violation("error-swallowed", f"the injected failure {flt} did not reach the caller of tell")
            self.settle_ok(pts, fits, e, "tell")
        else:
            self.settle(pts, fits, e, flt)
        if self.twin is not None:
            np.random.set_state(st)
            if self.kept:
                self.mirror(pts, fits, op)

    def settle_ok(self, pts, fits, e, what):
        """the fault did not fire (or was dealt with): an ordinary report"""
        from bayes_optim.utils.exception import FlatFitnessError

        self.add(pts, fits)
        self.kept = True
        if e is not None:
            if isinstance(e, FlatFitnessError) and self.flat(self.ref.rows):
                return
            raise Violation("unexpected-" + type(e).__name__, f"{what} raised {e} at {core.short_tb(e)}")
        self.ref.iters += 1
        if self.ref.rows:
            self.ref.trace.append(self.best())
            self.dirty = False

    def add(self, pts, fits):
        self.ref.reported += len(pts) * (self.n_obj if self.mo else 1)
        self.ref.rows += [(list(p), tuple(f)) for p, f in zip(pts, fits) if all(math.isfinite(z) for z in f)]
        self.sent.append((copy.deepcopy(pts), copy.deepcopy(fits)))

    def settle(self, pts, fits, e, flt):
        """a report failed: wholly recorded or not at all"""
        old = copy.deepcopy(self.ref)
        self.failed(f"{flt['site']} {type(e).__name__}")
        got = canon_rows(rows_of(self.opt, self.n_obj))
        new = [(list(p), tuple(f)) for p, f in zip(pts, fits) if all(math.isfinite(z) for z in f)]
        absent, full = canon_rows(old.rows), canon_rows(old.rows + new)
        if got[: len(absent)] != absent:
            raise Violation("recorded-data-lost", f"after {flt}: {diff_rows(old.rows, rows_of(self.opt, self.n_obj)[:len(absent)])}")
        n = len(pts) * (self.n_obj if self.mo else 1)
        if got == full and self.opt.eval_count == old.reported + n:
            self.add(pts, fits)
            self.kept = True
        elif got == absent and self.opt.eval_count == old.reported:
            self.kept = False
            self.inflight = pts + self.inflight  # the user still has them
        else:
            raise Violation("partly-recorded", f"after {flt} ({type(e).__name__}): {len(got) - len(absent)} of {len(new)} results are in the history, the evaluation counter went from {old.reported} to {self.opt.eval_count} for {n} evaluations")
        self.dirty = True
        self.loose_trace(old)

    def loose_trace(self, old):
        """an unfinished report may or may not count as an iteration"""
        if self.opt.iter_count not in (old.iters, old.iters + 1):
            raise Violation("iter-count", f"iter_count went from {old.iters} to {self.opt.iter_count} in a failed report")
        self.ref.iters = self.opt.iter_count
        if len(self.opt.hist_f) > len(old.trace) and self.kept:
            self.ref.trace.append(self.best())

    def malformed(self, pts, fits, op, flt):
        X = self.message(pts, {k: v for k, v in op.items() if k != "fmt"})
        y = [list(f) if self.mo else f[0] for f in fits]
        j, kind, kw = flt["j"] % len(pts), flt["kind"], {}
        isd = isinstance(X[j], dict)
        name = [v["name"] for v in self.sp]

        def put(i, val):
            X[j][name[i] if isd else i] = val

        if kind == "fewer":
            y = y[:-1]
        elif kind in ("text", "list", "complex"):
            bad = {"text": "abc", "list": [1.0, 2.0, 3.0], "complex": 1 + 2j}[kind]
            if self.mo:
                y[j] = list(y[j])
                y[j][0] = bad
            else:
                y[j] = bad
        elif kind == "short_point":
            if isd:
                X[j].pop(name[0])
            elif len(name) == 1:
                return
            else:
                X[j].pop()
        elif kind == "long_point":
            if isd:
                return
            X[j].append(1.0)
        elif kind == "empty":
            X, y = [], []
        elif kind == "index":
            kw["index"] = [f"w{q}" for q in range(len(pts) + 1)]
        elif kind == "scalar":
            y = 1.0
        elif kind == "none_point":
            X[j] = None
        elif kind == "bad_level":
            i = [i for i, v in enumerate(self.sp) if v["t"] in ("cat", "bool")]
            if not i:
                return
            put(i[0], "no such level")
        elif kind == "bad_number":
            i = [i for i, v in enumerate(self.sp) if v["t"] in ("real", "int")]
            if not i:
                return
            put(i[0], "seven")
        st = np.random.get_state()
        self.ctx.fault("malformed_" + kind)
        _, e = callb(self.opt.tell, X, y, **kw)
        np.random.set_state(st)
        if e is None:
            raise Violation("error-swallowed", f"tell accepted a malformed report ({kind}: {str(X)[:200]}, {str(y)[:100]})")
        self.failed("malformed " + kind)
        self.kept = False
        if self.opt.eval_count != self.ref.reported or canon_rows(rows_of(self.opt, self.n_obj)) != canon_rows(self.ref.rows):
            raise Violation("malformed-recorded", f"the malformed report ({kind}) raised {type(e).__name__} but left {len(rows_of(self.opt, self.n_obj))} records instead of {len(self.ref.rows)}, counter {self.opt.eval_count} instead of {self.ref.reported}")
        self.kept = False
        self.loose_trace(copy.deepcopy(self.ref))
        self.inflight = pts + self.inflight

    def mirror(self, pts, fits, op):
        from bayes_optim.utils.exception import FlatFitnessError

        np.random.seed(op.get("s", 0))
        kw = {"index": [f"w{j}" for j in range(len(pts))]} if op.get("index") else {}
        _, e = callb(self.twin.tell, self.message(pts, op), self.fits_arg(fits, op), **kw)
        if e is not None and not isinstance(e, FlatFitnessError):
            raise core.HarnessError(f"twin: {type(e).__name__} {e} {core.short_tb(e)}")

    # ---- requests
    def do_ask(self, op):
        flt = op.get("flt")
        if not flt:
            n, k = len(self.inflight), self.ctx.probes.get("ask_empty", 0)
            fit = self.fitted()
            super().do_ask(op)
            if self.twin is not None and not self.dirty:
                self.compare(op, self.inflight[n:], fit)
            return
        if flt["site"] == "args":
            kw = {"unknown": {"fixed": {"no such variable": 1}}, "text_n": {"n_point": "three"}, "list_fixed": {"fixed": [1, 2]}}[flt["kind"]]
            self.ctx.fault("bad_request_" + flt["kind"])
            X, e = callb(self.opt.ask, **kw)
            if e is not None:
                self.failed("ask arguments")
            return
        self.arm(flt)
        X, e = callb(self.opt.ask)
        fired = self.disarm(flt)
        if e is None:
            if fired and flt["site"] == "cons":
                raise Violation("error-swallowed", "a constraint raised but ask returned normally")
            if not isinstance(X, (list, tuple)):
                raise Violation("proposal-format", f"ask returned {type(X).__name__}")
            if not fired:
                for x in X:
                    if self.cfg["alg"] == "ConditionalBO":
                        self.judge_conf(x)
                        self.judge_order(x)
                    self.inflight.append(list(x[v["name"]] for v in self.sp) if self.cfg["alg"] == "ConditionalBO" else list(world.vals_of(self.sp, x, self.cfg.get("eval_type", "list"))))
            elif self.cfg["alg"] == "ConditionalBO":
                for x in X:
                    self.judge_order(x)
            if fired:
                self.failed("ask, tolerated")
            return
        if not fired and not (campaign.is_expected_empty(e) and self.may_be_empty(self.opt.n_point, None)):
            raise Violation("unexpected-" + type(e).__name__, f"ask raised {e} at {core.short_tb(e)}")
        if fired:
            self.failed(f"ask {flt['site']} {type(e).__name__}")

    def compare(self, op, pts, fitted):
        """the twin, which never met a failure, must propose the same"""
        if not self.fitted() or not self.twin.model.is_fitted:
            if self.fitted() != bool(self.twin.model.is_fitted):
                raise Violation("not-recovered", f"after an acknowledged report the optimizer's model is {'' if self.fitted() else 'not '}trained, that of an optimizer with the same history which met no failure is {'' if self.twin.model.is_fitted else 'not '}trained")
            return
        me, self.opt = self.opt, self.twin
        try:
            np.random.seed(op["s"])
            X, e, _, _ = self.ask(op)
        finally:
            self.opt = me
        if e is not None:
            if pts or not campaign.is_expected_empty(e):
                raise Violation("not-recovered", f"the optimizer proposes {pts}, one with the same history that met no failure raises {type(e).__name__}: {e}")
            return
        want = [list(world.vals_of(self.sp, x, self.cfg.get("eval_type", "list"))) for x in X]
        if core.canon(want) != core.canon(pts):
            raise Violation("not-recovered", f"the optimizer proposes {pts}, one with the same history that met no failure {want}")
        self.ctx.probe("twin_compared")

    # ---- stepping
    def do_step(self, op):
        flt = op.get("flt")
        marks = [len(o.log) for o in self.objs]
        if not flt:
            st = (len(self.ref.rows), self.ref.iters)
            n = self.failures
            super().do_step(op)
            logs = [o.log[m:] for o, m in zip(self.objs, marks)]
            if any(ent[1] is None for lg in logs for ent in lg):
                self.failed("objective")
                return
            self.mirror_logs(logs, op)
            if self.ref.iters > st[1] and self.ref.rows:
                self.dirty = False
            return
        self.arm(flt)
        _, e = callb(self.opt.step)
        fired = self.disarm(flt)
        logs = [o.log[m:] for o, m in zip(self.objs, marks)]
        pts = [ent[0] for ent in logs[0]]
        if self.cfg["alg"] == "ConditionalBO":
            for p in pts:
                x = dict(zip([v["name"] for v in self.sp], p))
                self.judge_conf(x)
                self.judge_order(x)
        if any(len(lg) != len(pts) for lg in logs):
            raise Violation("evaluation-count", f"objectives were called {[len(lg) for lg in logs]} times")
        fits = [tuple(lg[i][1] for lg in logs) for i in range(len(pts))]
        if not fired:
            if e is not None and not pts and campaign.is_expected_empty(e) and self.may_be_empty(self.opt.n_point, None):
                return
            self.settle_ok(pts, fits, e, "step")
        elif e is None:
            if flt["site"] in ("fit", "disk", "cons") and self.cfg.get("model") != "gp":
                raise Violation("error-swallowed", f"the injected failure {flt} did not reach the caller of step")
            self.settle_ok(pts, fits, e, "step")
        elif not pts:
            self.failed(f"step {flt['site']} {type(e).__name__}")
            return
        else:
            keep = list(self.inflight)
            self.settle(pts, fits, e, flt)
            if not self.kept:
                raise Violation("evaluations-lost", f"step evaluated {len(pts)} points, then failed with {type(e).__name__}, and has no record of them")
            self.inflight = keep
        if self.kept:
            self.mirror_logs(logs, op)

    def mirror_logs(self, logs, op):
        if self.twin is None or not logs[0]:
            return
        pts = [ent[0] for ent in logs[0]]
        self.mirror(pts, [tuple(lg[i][1] for lg in logs) for i in range(len(pts))], {"s": op["s"]})

    # ---- saving
    def do_save(self, op):
        flt = op.get("flt")
        if not flt:
            return super().do_save(op)
        before = engine.fingerprint(self.opt, self.n_obj)
        path = self.path()
        if flt["kind"] == "notdir":
            with open(os.path.join(self.ctx.scratch, "blk"), "w"):
                path = os.path.join(self.ctx.scratch, "blk", "c.pkl")
        elif flt["kind"] == "pickle":
            self.objs[0].pickle_fault = flt["exc"]
        else:
            disk.DISK.arm([{"what": "error", "nth": flt["nth"], "path": "ckpt", "errno": "ENOSPC"}])
        _, e = callb(self.opt.save, path)
        fired = True
        if flt["kind"] == "pickle":
            fired = self.objs[0].pickle_fault is None
            self.objs[0].pickle_fault = None
        elif flt["kind"] == "disk":
            fired = bool(disk.DISK.fired())
            disk.DISK.disarm()
        else:
            self.ctx.fault("not_a_directory")
        if fired and e is None and flt["kind"] != "disk":
            raise Violation("error-swallowed", f"save returned normally despite {flt}")
        if e is not None:
            if not fired:
                raise Violation("unexpected-" + type(e).__name__, f"save raised {e} at {core.short_tb(e)}")
            self.failed("save " + flt["kind"])
        d = engine.fp_diff(before, engine.fingerprint(self.opt, self.n_obj))
        if d:
            raise Violation("failed-save-changed-optimizer", str(d[:2]))


class C13(Mixin, engine.Campaign):
    pass


class K13(Mixin, cond.CondCampaign):
    pass


def run(sc, ctx):
    cfg = sc["cfg"]
    d = disk.Disk(ctx.scratch)
    disk.install(d)
    d.active = True
    extra = {}
    if cfg.get("file"):
        extra["data_file"] = os.path.join(ctx.scratch, "d.csv")
    cls = K13 if cfg["alg"] == "ConditionalBO" else C13
    cp = cls(cfg, ctx, ("hist", "inc" if cfg["alg"] != "MOBO" else "pareto", "dom", "dup", "cons"), "ckpt.pkl", extra)
    twin = None
    if cfg["alg"] in ("BO", "ParallelBO", "NoisyBO") and cfg["model"] in ("stub", "rf"):
        objs, cons = cp.objs, cp.cons
        np.random.seed(1)
        twin, _, _ = campaign.build(dict(cfg, name="twin"))
    cp.setup(twin)
    cp.check()
    for op in sc["ops"]:
        cp.do(op)
    # the causes are gone: the optimizer must be fully usable
    cp.do({"op": "ask", "s": 7})
    if cp.inflight:
        cp.do({"op": "deliver", "s": 8, "pick": [0] * 4})
    cp.do({"op": "ask", "s": 9})
    return {"rows": len(cp.ref.rows), "failures": cp.failures}


def nontrivial(r):
    return bool(r["probes"].get("failures"))
