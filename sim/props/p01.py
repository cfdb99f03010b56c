"""P01: every reported evaluation is recorded exactly once, unaltered, in order."""
from .. import campaign, engine

RUNS = {"quick": 700, "thorough": 30000}
RULE = "non-trivial: at least one message was reordered, delayed, duplicated, lost, failed, or the process was restarted."
INV = ("hist", "args")


def gen(rng, tier, i):
    n_obj = 1
    if rng.random() < 0.15:
        n_obj = rng.choice([2, 3])
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub", "rf"), n_obj=n_obj)
    else:
        cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "stub", "rf"))
    cfg["aq_FEs"] = 15
    cfg["aq_restart"] = 1
    mix = {"ask": 4, "deliver": 6, "redeliver": 1, "foreign": 1, "lose": 0.5, "step": 1, "save": 0.5, "crash": 0.4, "pfail": rng.choice([0, 0.2, 0.5]), "psol": 0.08}
    for k in ("redeliver", "foreign", "lose", "step", "crash", "save"):
        if rng.random() < 0.4:
            mix[k] = 0
    return {"cfg": cfg, "ops": [{"op": "ask", "s": 1}] + engine.gen_ops(rng, cfg, rng.randint(5, 22 if tier == "quick" else 40), mix)}


def run(sc, ctx):
    cp = engine.Campaign(sc["cfg"], ctx, INV)
    cp.check()
    return engine.run_ops(cp, sc["ops"])
