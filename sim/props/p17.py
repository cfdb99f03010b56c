"""P17: conditional spaces: valid configurations and right attribution."""
from .. import cond, engine

RUNS = {"quick": 400, "thorough": 20000}
RULE = "non-trivial: at least one message was reordered, delayed, duplicated, lost, failed, or the process was restarted."
INV = ("hist", "args", "inc")


def gen(rng, tier, i):
    cfg = cond.gen_cfg(rng)
    mix = {"ask": 5, "deliver": 6, "redeliver": 0.4, "foreign": 0.6, "lose": 0.4, "step": 1, "save": 0.5, "crash": 0.4, "pfail": rng.choice([0, 0.2, 0.5]), "pfixed": rng.choice([0, 0.3])}
    for k in ("redeliver", "foreign", "lose", "step", "crash", "save"):
        if rng.random() < 0.4:
            mix[k] = 0
    return {"cfg": cfg, "ops": [{"op": "ask", "s": 1}] + engine.gen_ops(rng, cfg, rng.randint(4, 12 if tier == "quick" else 30), mix)}


def run(sc, ctx):
    cp = cond.CondCampaign(sc["cfg"], ctx, INV)
    cp.check()
    return engine.run_ops(cp, sc["ops"])
