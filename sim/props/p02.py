"""P02: the recommended solution is always the true best of the history."""
from .. import campaign, engine

RUNS = {"quick": 800, "thorough": 30000}
RULE = "non-trivial: results arrived late, reordered, duplicated or failed, or the process was restarted, with ties and extreme values."
INV = ("inc",)


def gen(rng, tier, i):
    cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "stub", "rf"))
    cfg["aq_FEs"] = 15
    cfg["aq_restart"] = 1
    cfg["minimize"] = rng.random() < 0.5
    if rng.random() < 0.3:
        cfg["obj"] = "coarse"
    if rng.random() < 0.2:
        cfg["warm"] = {"n": rng.randint(1, 6), "s": engine.S(rng), "ks": 1}
    mix = {"ask": 4, "deliver": 6, "redeliver": 0.7, "foreign": 1, "lose": 0.3, "step": 1, "save": 0.7, "crash": 0.5, "pfail": rng.choice([0, 0.2, 0.5]), "values": rng.choice([0, 0.5, 1.0])}
    for k in ("redeliver", "foreign", "lose", "step", "crash"):
        if rng.random() < 0.4:
            mix[k] = 0
    return {"cfg": cfg, "ops": [{"op": "ask", "s": 1}] + engine.gen_ops(rng, cfg, rng.randint(5, 22 if tier == "quick" else 40), mix)}


def run(sc, ctx):
    cp = engine.Campaign(sc["cfg"], ctx, INV)
    cp.check()
    return engine.run_ops(cp, sc["ops"])
