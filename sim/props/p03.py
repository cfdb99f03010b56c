"""P03: every proposal lies in the declared search space."""
from .. import campaign, cond, engine

RUNS = {"quick": 420, "thorough": 20000}
RULE = "non-trivial: at least one request was answered by the model and the history contains late, reordered, failed or foreign results or a restart."
INV = ("dom",)


def gen(rng, tier, i):
    r = rng.random()
    if rng.random() < 0.06:
        cfg = cond.gen_cfg(rng)
    elif r < 0.1:
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub", "rf"), n_obj=2)
    elif r < 0.2:
        cfg = campaign.gen_cfg(rng, models=("stub", "rf"), kinds=("real", "int", "cat", "subset", "bool"))
    else:
        cfg = campaign.gen_cfg(rng, models=("stub", "stub", "rf", "gp"))
    mix = {"ask": 7, "deliver": 6, "redeliver": 0.3, "foreign": 0.7, "lose": 0.3, "step": 0.5, "save": 0.3, "crash": 0.3, "pfail": rng.choice([0, 0.2, 0.5]), "pfixed": rng.choice([0, 0.5])}
    if cfg.get("model") == "gp":
        mix["redeliver"] = 0
    ops = [{"op": "ask", "s": engine.S(rng)}, {"op": "deliver", "s": 3, "pick": [0] * 8}]
    return {"cfg": cfg, "ops": ops + engine.gen_ops(rng, cfg, rng.randint(4, 14 if tier == "quick" else 30), mix)}


def run(sc, ctx):
    cp = (cond.CondCampaign if sc["cfg"]["alg"] == "ConditionalBO" else engine.Campaign)(sc["cfg"], ctx, INV)
    return engine.run_ops(cp, sc["ops"])


def nontrivial(r):
    return bool(r.get("faults")) and bool(r.get("probes", {}).get("ask_model"))
