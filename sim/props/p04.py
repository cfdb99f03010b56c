"""P04: known points are not proposed again."""
from .. import campaign, cond, engine, world

RUNS = {"quick": 600, "thorough": 30000}
RULE = "non-trivial: the space is small or coarse, so that the optimizer had to avoid known points, and results came late, reordered, duplicated or failed or the process was restarted."
INV = ("dup",)


def small_space(rng):
    for _ in range(50):
        sp = world.gen_space(rng, rng.choice([("int",), ("cat", "bool"), ("int", "cat", "ord", "bool"), ("real",), ("real", "bool", "int")]), rng.choice([1, 2, 2, 3]))
        for v in sp:
            if v["t"] == "real":
                v["prec"] = rng.choice([0, 1, 1])
                v.pop("scale", None)
                v["lo"], v["hi"] = rng.choice([(0.0, 1.0), (-1.0, 1.0), (0.0, 5.0), (1.0, 3.0)])
            elif v["t"] == "int":
                v["hi"] = v["lo"] + rng.choice([1, 2, 3, 5, 8]) * v.get("step", 1)
        if world.space_size(sp) <= 60:
            return sp
    return [{"t": "bool", "name": "b0"}, {"t": "int", "name": "i1", "lo": 0, "hi": 3}]


def gen(rng, tier, i):
    small = rng.random() < 0.75
    cfg = campaign.gen_cfg(rng, algs=["BO", "BO", "ParallelBO", "ParallelBO", "AnnealingBO", "SelfAdaptiveBO", "MultiAcquisitionBO"], models=("stub", "stub", "rf") if small else ("stub", "rf", "gp"))
    if small:
        cfg["space"] = small_space(rng)
        cfg.pop("aq_opt", None)
    r = rng.random()
    if r < 0.06:
        cfg = cond.gen_cfg(rng, small=True)
    elif r < 0.12:
        cfg = dict(campaign.gen_cfg(rng, algs=["MOBO"], models=("stub",), n_obj=2), space=cfg["space"])
        cfg.pop("aq_opt", None)
    cfg["doe"] = rng.choice([1, 2, 3, 5, 8])
    cfg["aq_FEs"] = 20
    cfg["aq_restart"] = 1
    if rng.random() < 0.25:
        cfg["warm"] = {"n": rng.randint(1, 8), "s": engine.S(rng), "ks": 1}
    mix = {"ask": 7, "deliver": 7, "redeliver": 0.3, "foreign": 1, "lose": 0.3, "step": 1, "save": 0.5, "crash": 0.4, "pfail": rng.choice([0, 0.2]), "pfixed": rng.choice([0, 0.3])}
    if cfg.get("model") == "gp":
        mix["redeliver"] = 0
    ops = [{"op": "ask", "s": engine.S(rng)}, {"op": "deliver", "s": 3, "pick": [0] * 8}]
    return {"cfg": cfg, "ops": ops + engine.gen_ops(rng, cfg, rng.randint(5, 20 if tier == "quick" else 50), mix)}


def run(sc, ctx):
    cp = (cond.CondCampaign if sc["cfg"]["alg"] == "ConditionalBO" else engine.Campaign)(sc["cfg"], ctx, INV)
    return engine.run_ops(cp, sc["ops"])
