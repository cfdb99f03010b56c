"""P18: multi-objective: the recommended set is exactly the Pareto set."""
from .. import campaign, engine

RUNS = {"quick": 500, "thorough": 20000}
RULE = "non-trivial: results arrived late, reordered, duplicated or failed (possibly in one objective only), or the process was restarted."
INV = ("pareto", "hist")
GRIDS = [
    [0.0, 1.0, 2.0],
    [-1.0, -0.0, 0.0, 1.0],
    [1.0, 1.0 + 2**-52, 1.0 - 2**-53, 1.0 + 1e-9],
    [1e6, 1e6 + 1e-3, 1e6 + 2e-3, -1e6],
    [1e-12, 2e-12, 3e-12, -1e-12],
    [10.0, 1e4, 1e8, -1e8],
    [5e-324, 0.0, 1e-300, 2e-300],
]


def gen(rng, tier, i):
    n_obj = rng.choice([2, 2, 2, 3, 3, 4])
    cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub", "stub", "stub", "rf"), n_obj=n_obj)
    cfg["aq_FEs"] = 10
    cfg["aq_restart"] = 1
    r = rng.random()
    cfg["minimize"] = True if r < 0.25 else False if r < 0.5 else [rng.random() < 0.5 for _ in range(n_obj)]
    if rng.random() < 0.3:
        cfg["obj"] = "coarse"
    many = n_obj >= 4
    mix = {"ask": 2 if many else 4, "deliver": 6, "redeliver": 0.7, "foreign": 1.5, "lose": 0.3, "step": 0.7, "save": 0.7, "crash": 0.5, "pfail": rng.choice([0, 0.2, 0.5])}
    for k in ("redeliver", "foreign", "lose", "step", "crash"):
        if rng.random() < 0.4:
            mix[k] = 0
    ops = [{"op": "ask", "s": 1, "n": rng.choice([2, 4, 8])}] + engine.gen_ops(rng, cfg, rng.randint(5, 20 if tier == "quick" else 40), mix)
    g = [rng.choice(GRIDS) for _ in range(n_obj)]
    p = rng.choice([0, 0.6, 1.0])
    for op in ops:
        if op["op"] == "deliver":
            op.pop("fv", None)
            if rng.random() < p:
                op["fv"] = [[rng.choice(gk) for gk in g] for _ in op["pick"]]
    return {"cfg": cfg, "ops": ops}


def run(sc, ctx):
    cp = engine.Campaign(sc["cfg"], ctx, INV)
    cp.check()
    return engine.run_ops(cp, sc["ops"])
