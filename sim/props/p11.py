"""P11: a seeded campaign is reproducible."""
import contextlib
import io
import os
import random

import numpy as np

from .. import campaign, cond, core, engine, world
from ..campaign import call
from ..core import Violation

RUNS = {"quick": 240, "thorough": 12000}
RULE = "non-trivial: the same seeded campaign was executed at least twice in different environments (clock, entropy, hash seed, worker schedule, logging, memory layout, random state left behind by others)."
ALT = True
SEEDS = [0, 0, 1, 2, 7, 42, 123456789, 2**31, 2**32 - 1]


def gen(rng, tier, i):
    r = rng.random()
    kind = "fmin" if r < 0.08 else "cond" if r < 0.25 else "run" if r < 0.5 else "ops"
    sc = {"kind": kind, "ops": []}
    seed = rng.choice(SEEDS) if rng.random() < 0.7 else rng.getrandbits(32)
    if kind == "fmin":
        sc.update(dim=rng.choice([1, 2, 2]), n=rng.choice([1, 1, 2]), doe=rng.choice([2, 4]), max_FEs=rng.choice([4, 6, 7]), fseed=seed, **rng.choice([{"aq": 20, "rs": 1}, {"aq": 150, "rs": 5}]))
    else:
        if kind == "cond":
            cfg = cond.gen_cfg(rng)
        elif rng.random() < 0.12:
            cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub", "rf"), n_obj=2)
        else:
            cfg = campaign.gen_cfg(rng, models=("stub", "rf", "rf", "gp"))
        cfg["aq_FEs"] = rng.choice([10, 20])
        if rng.random() < 0.3:  # several restarts of the candidate search, as by default
            cfg["aq_FEs"], cfg["aq_restart"] = rng.choice([60, 150]), rng.choice([4, 6])
        cfg["random_seed"] = seed
        if rng.random() < 0.5:
            cfg["instance_id"] = False
        if cfg.get("model") == "rf" and rng.random() < 0.5:
            cfg["rf_jobs"] = rng.choice([2, 4])
        if rng.random() < 0.15 and cfg["alg"] not in ("MOBO", "ConditionalBO"):
            cfg["warm"] = {"n": rng.randint(1, 5), "s": engine.S(rng), "ks": 1}
        if rng.random() < 0.1 and cfg.get("model") == "stub" and cfg["alg"] != "MOBO":
            cfg["ineq"] = [world.gen_constraint(rng, cfg["space"])]
        sc["cfg"] = cfg
        if kind == "run":
            cfg["max_FEs"] = cfg["doe"] + rng.choice([1, 3, 5]) * (2 if cfg["alg"] == "MOBO" else 1)
            if cfg["alg"] in ("BO", "MOBO") and rng.random() < 0.5:
                cfg["n_job"] = rng.choice([2, 3])
        else:
            mix = {"ask": 5, "deliver": 6, "foreign": 0.7, "step": 1, "lose": 0.3, "pfail": rng.choice([0, 0.2]), "pfixed": 0.1 if kind == "ops" and not cfg.get("ineq") else 0}
            n = rng.randint(3, 9 if tier == "quick" else 20)
            ops = engine.gen_ops(rng, cfg, min(n, 3) if cfg.get("ineq") else n, mix)
            sc["ops"] = [{"op": "ask"}, {"op": "deliver", "pick": [0] * 8}] + ops
            for op in sc["ops"]:
                op.pop("s", None)
    envs = []
    for k in range(rng.choice([1, 2])):
        envs.append(
            {
                "clock_seed": rng.getrandbits(20),
                "clock_mode": rng.choice(["steady", "jumpy", "stalled"]),
                "entropy_seed": rng.getrandbits(20),
                "sched_seed": rng.getrandbits(20),
                "pollute": rng.getrandbits(20),
                "log": rng.random() < 0.3,
                "verbose": rng.random() < 0.3,
                "alt": rng.random() < 0.6,
                "preempt": rng.random() < 0.15,
            }
        )
    sc["envs"] = envs
    sc["reseed"] = rng.choice([1, 2, 3, 5])
    return sc


def plan(sc):
    out = [("main", dict(sc, env={}))]
    for e in sc["envs"]:
        v = dict(sc, env=e)
        v.update({k: e[k] for k in ("clock_seed", "clock_mode", "entropy_seed", "sched_seed", "preempt")})
        out.append(("alt" if e["alt"] else "main", v))
    # the same with another seed
    o = dict(sc, env={}, other=True)
    if sc["kind"] == "fmin":
        o["fseed"] = (sc["fseed"] + sc["reseed"]) % 2**32
    else:
        o["cfg"] = dict(sc["cfg"], random_seed=(sc["cfg"]["random_seed"] + sc["reseed"]) % 2**32)
    return out + [("main", o)]


def run(sc, ctx):
    env = sc["env"]
    p = env.get("pollute")
    junk = None
    if p is not None:
        np.random.seed(p)
        random.seed(p)
        np.random.rand(p % 17)
        np.random.randn(p % 3)
        junk = [bytearray(k % 97) for k in range(p % 5003)]
        ctx.fault("random_state_left_by_others")
        ctx.fault("other_clock_entropy_schedule")
    ex = {}
    if env.get("log"):
        ex["log_file"] = os.path.join(ctx.scratch, f"l{p}.log")
    if env.get("verbose"):
        ex["verbose"] = True
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        if sc["kind"] == "fmin":
            out = run_fmin(sc, ctx, ex)
        elif sc["kind"] == "run":
            out = run_run(sc, ctx, ex)
        else:
            cls = cond.CondCampaign if sc["kind"] == "cond" else engine.Campaign
            cp = cls(sc["cfg"], ctx, (), extra=ex)
            out = []
            for op in sc["ops"]:
                n0 = len(ctx.events)
                cp.do(op)
                out.append([core.canon(e) for e in ctx.events[n0:]])
            out.append(final(cp.opt, cp.n_obj))
    del junk
    ctx.probe("executions")
    return out


def final(opt, n_obj):
    fp = engine.fingerprint(opt, n_obj)
    for k in ("instance_id", "verbose", "random_seed"):
        fp.pop(k, None)
    return [f"{k}={v}" for k, v in sorted(fp.items())]


def run_run(sc, ctx, ex):
    cfg = sc["cfg"]
    cp = engine.Campaign(cfg, ctx, (), extra=ex)
    for o in cp.objs:
        o.max_calls = 200
    res, e = call(cp.opt.run)
    if e is not None and not campaign.is_expected_empty(e) and type(e).__name__ != "FlatFitnessError":
        raise Violation("unexpected-" + type(e).__name__, f"run raised {e} at {core.short_tb(e)}")
    rows = [core.canon([v, list(f)]) for v, f in campaign.rows_of(cp.opt, cp.n_obj)]
    return [[r] for r in rows] + [[type(e).__name__]] + [final(cp.opt, cp.n_obj)]


def run_fmin(sc, ctx, ex):
    import bayes_optim

    calls = []

    def f(x):
        ctx.step(10)
        calls.append(core.canon([float(z) for z in np.ravel(x)]))
        return float(sum((z - 0.3) ** 2 for z in np.ravel(x)))

    ex.pop("log_file", None)
    kw = dict(x0=sc["doe"], n_point=sc["n"], max_FEs=sc["max_FEs"], seed=sc["fseed"], acquisition_optimization={"max_FEs": sc.get("aq", 20), "n_restart": sc.get("rs", 1)}, **ex)
    res, e = call(bayes_optim.fmin, f, [-1.0] * sc["dim"], [2.0] * sc["dim"], **kw)
    if e is not None:
        raise Violation("unexpected-" + type(e).__name__, f"fmin raised {e} at {core.short_tb(e)}")
    return [[c] for c in calls] + [[core.canon(np.ravel(np.asarray(res[1], dtype=float)).tolist()), core.canon(res[2]), core.canon(res[3])]]


def judge(sc, outs):
    base = outs[0]
    for e, out in zip(sc["envs"], outs[1:-1]):
        for k, (a, b) in enumerate(zip(base, out)):
            if a != b:
                d = [f"{x} <> {y}" for x, y in zip(a, b) if x != y] or [f"{a} <> {b}"]
                what = sc["ops"][k] if k < len(sc["ops"]) else k
                return ("not-reproducible", f"[{ {x: e[x] for x in ('alt', 'log', 'verbose', 'clock_mode', 'preempt')} }] {sc['kind']} step {what}: {d[0][:900]}")
        if len(base) != len(out):
            return ("not-reproducible", f"{len(base)} steps against {len(out)}")
    other = outs[-1]
    if sc["kind"] == "fmin":
        first, alt = base[0], other[0]
    elif sc["cfg"].get("warm"):
        return
    elif not any(v["t"] == "real" and "prec" not in v and v.get("scale", "linear") == "linear" and not v.get("cond") and not cond.is_selector(sc["cfg"]["space"], v["name"]) for v in sc["cfg"]["space"]) or sc["kind"] in ("ops", "cond") and (sc["ops"] or [{}])[0].get("op") != "ask":
        return
    else:
        first, alt = base[0], other[0]
    if first == alt:
        return ("seed-ignored", f"seed {sc['fseed'] if sc['kind'] == 'fmin' else sc['cfg']['random_seed']} and another seed give the same first proposals {str(first)[:300]}")
