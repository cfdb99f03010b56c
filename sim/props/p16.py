"""P16: warm-start data are taken over faithfully and free of charge."""
import os

import numpy as np

from .. import campaign, cond, core, engine, world
from ..core import Violation

RUNS = {"quick": 600, "thorough": 25000}
RULE = "non-trivial: the warm-started optimizer received late, reordered, duplicated or failed results, was restarted, or ran to its budget."
INV = ("hist", "inc", "dom", "dup")


def gen(rng, tier, i):
    cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "rf", "gp"))
    r = rng.random()
    if r < 0.06:
        cfg = cond.gen_cfg(rng)
    elif r < 0.14:
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub",), n_obj=rng.choice([2, 2, 3]))
    cfg["aq_FEs"] = 15
    cfg["aq_restart"] = 1
    if rng.random() < 0.3 and cfg.get("model") != "gp":
        cfg["obj"] = "coarse"
    fmt = rng.choice([None, None, "solution"])
    cfg["warm"] = {"n": rng.choice([1, 2, 3, 5, 8]), "s": engine.S(rng), "ks": rng.choice([0, 1, 5, 7]), "fmt": fmt, "arr": rng.random() < 0.4, "setter": rng.random() < 0.2}
    if cfg.get("model") != "gp" and rng.random() < 0.25:
        cfg["warm"]["dup"] = True
    mix = {"ask": 4, "deliver": 5, "redeliver": 0.4, "foreign": 0.7, "lose": 0.3, "step": 1, "save": 0.7, "crash": 0.5, "pfail": rng.choice([0, 0.2, 0.5]), "pfixed": 0.1}
    for k in ("redeliver", "foreign", "lose", "step", "crash"):
        if rng.random() < 0.4:
            mix[k] = 0
    if cfg.get("model") == "gp":
        mix["redeliver"] = 0
    mode = "run" if rng.random() < 0.25 and cfg["alg"] not in ("MOBO", "ConditionalBO") else "ops"
    if mode == "run":
        cfg["max_FEs"] = rng.choice([1, 3, 5, 8])
    ops = [{"op": "ask", "s": engine.S(rng)}] + engine.gen_ops(rng, cfg, rng.randint(1, 10 if tier == "quick" else 25), mix)
    sc = {"cfg": cfg, "ops": ops, "mode": mode}
    if rng.random() < 0.3:
        sc["csv"] = True
    return sc


class C(engine.Campaign):
    def build(self):
        w = self.cfg["warm"]
        if w.get("setter"):
            pts, fits = self.warm_points(w)
            self.opt, self.objs, self.cons = campaign.build(self.cfg, **self.extra)
            data = (self.message(pts, {"fmt": w.get("fmt"), "ks": w.get("ks", 1)}), [list(f) if self.mo else f[0] for f in fits])
            self.ref.rows = [(list(p), tuple(f)) for p, f in zip(pts, fits)]
            self.ref.warm = len(pts)
            self.opt.warm_data = data
        else:
            super().build()


def run(sc, ctx):
    cfg, w = sc["cfg"], sc["cfg"]["warm"]
    try:
        inv = ("hist", "pareto", "dom", "dup") if cfg["alg"] == "MOBO" else INV
        cp = (cond.CondCampaign if cfg["alg"] == "ConditionalBO" else C)(cfg, ctx, inv, extra={"data_file": os.path.join(ctx.scratch, "d.csv")} if sc.get("csv") else None)
    except Exception as e:  # noqa
        from bayes_optim.utils.exception import FlatFitnessError

        if isinstance(e, FlatFitnessError):
            ctx.probe("flat_fitness")
            return None
        raise Violation("warm-start-rejected", f"{type(e).__name__}: {e} at {core.short_tb(e)}")
    ctx.probe("warm_points", cp.ref.warm)
    cp.check()
    if not cp.ref.warm:
        return None
    if len(cp.opt.hist_f):
        raise Violation("warm-start-counted", f"the progress trace has {len(cp.opt.hist_f)} entries before any report")
    if cp.objs[0].log:
        raise Violation("warm-start-evaluated", "the objective was called while taking over the warm-start data")
    if cfg["alg"] != "ConditionalBO" and not cp.fitted():
        raise Violation("initial-design-not-skipped", "the model is not trained on the warm-start data")
    if sc["mode"] == "run":
        np.random.seed(sc["ops"][0]["s"])
        o = cp.objs[0]
        o.max_calls = cfg["max_FEs"] + 60
        out, e = campaign.call(cp.opt.run)
        ctx.probe("runs")
        if e is not None:
            from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

            if isinstance(e, AskEmptyError) and cp.may_be_empty(cfg.get("n_point", 1), None) or isinstance(e, FlatFitnessError):
                return None
            raise Violation("unexpected-" + type(e).__name__, f"run() raised {e} at {core.short_tb(e)}")
        n = len(o.log)
        lo, hi = cfg["max_FEs"], cfg["max_FEs"] + cp.opt.n_point - 1
        if not lo <= n <= hi:
            raise Violation("budget", f"{n} evaluations with a budget of {lo} and {cp.ref.warm} warm-start points")
        cp.ref.rows += [(list(v), (f,)) for v, f in o.log]
        cp.ref.reported = n
        d = campaign.diff_rows(cp.ref.rows, campaign.rows_of(cp.opt))
        if d:
            raise Violation("history-differs", d)
        for v, f in o.log:
            bad = world.check_point(cfg["space"], dict(zip([z["name"] for z in cfg["space"]], v)), "dict")
            if bad:
                raise Violation("outside-search-space", bad)
        return n
    first = True
    for op in sc["ops"]:
        if first and op["op"] == "ask" and not op.get("n") and cfg["alg"] != "ConditionalBO":
            np.random.seed(op["s"])
            X, e = campaign.call(cp.opt.ask)
            if e is None and len(X) > cp.opt.n_point:
                raise Violation("initial-design-not-skipped", f"the first request was answered with {len(X)} points instead of {cp.opt.n_point}")
        first = False
        cp.do(op)
    return len(cp.ref.rows)


def nontrivial(r):
    return bool(r["faults"]) or bool(r["probes"].get("runs"))
