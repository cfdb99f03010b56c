"""P05: proposals respect the user's constraints."""
from .. import campaign, cond, core, engine, world
from ..core import Violation

RUNS = {"quick": 140, "thorough": 4000}
RULE = "non-trivial: constrained requests were answered after late, reordered or failed results or a restart, or the constraint function failed."
INV = ("cons",)


def gen(rng, tier, i):
    cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "rf", "gp"), dim=rng.choice([2, 2, 3]))
    sp = cfg["space"]
    cfg["doe"] = rng.choice([2, 3, 4])
    cfg["aq_FEs"] = rng.choice([15, 30])
    cfg["aq_restart"] = rng.choice([1, 2])
    num = [j for j, v in enumerate(sp) if v["t"] in ("real", "int")]
    reals = [j for j, v in enumerate(sp) if v["t"] == "real"]
    r = rng.random()
    if reals and r < 0.3:
        cfg["eq"] = [{"k": "eqv", "i": rng.choice(reals), "c": round(rng.uniform(0.2, 0.8), 3)}]
        others = [j for j in reals if j != cfg["eq"][0]["i"]]
        if others and rng.random() < 0.4:
            cfg["eq"].append({"k": "eqv", "i": rng.choice(others), "c": round(rng.uniform(0.2, 0.8), 3)})
        if rng.random() < 0.3:
            cfg["ineq"] = [world.gen_constraint(rng, sp)]
    else:
        cfg["ineq"] = [world.gen_constraint(rng, sp) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.1:
        cfg["ineq"] = [{"k": "never"}]
    if rng.random() < 0.1:
        cfg = dict(cond.gen_cfg(rng), doe=1, aq_FEs=15)
        sp = cfg["space"]
        cfg["ineq"] = [cond.gen_constraint(rng, sp) for _ in range(rng.choice([1, 1, 2]))]
    mix = {"ask": 6, "deliver": 6, "foreign": 0.5, "lose": 0.2, "step": 0.5, "save": 0.3, "crash": 0.3, "pfail": rng.choice([0, 0.2]), "pfixed": rng.choice([0, 0.4])}
    ops = [{"op": "ask", "s": engine.S(rng)}, {"op": "deliver", "s": 3, "pick": [0] * 8}, {"op": "ask", "s": engine.S(rng)}]
    ops += engine.gen_ops(rng, cfg, rng.randint(1, 4 if tier == "quick" else 10), mix)
    if rng.random() < 0.3:
        ops += [{"op": "save", "s": 4}, {"op": "crash", "s": 5}, {"op": "ask", "s": engine.S(rng)}]
    if rng.random() < 0.5:
        k = rng.choice([0, rng.randrange(len(ops))])
        bad = {"op": "badcons", "s": engine.S(rng), "n": rng.choice([1, 2])}
        if rng.random() < 0.35:
            bad["at"] = int(10 ** rng.uniform(0, 3.8))
        else:
            bad["site"] = [rng.choice([0, 1, 1, 1, 2, 3]), rng.choice([0, 0, 1, 4]), rng.choice([1, 2, 3, 8, rng.randrange(10)])]
        ops.insert(k, bad)
        ops.append({"op": "ask", "s": engine.S(rng), "n": 1})
    return {"cfg": cfg, "ops": ops}


class C(engine.Campaign):
    def do_badcons(self, op):
        """the constraint function raises at its k-th call during this request"""
        rows = len(self.ref.rows)
        con = self.cons[0]
        if op.get("site"):
            con.arm_site(*op["site"])
        else:
            con.fault_at = con.n + op["at"]
        X, e, want, fixed = self.ask(op)
        fired = con.disarm_site() if op.get("site") else con.fault_at <= con.n
        con.fault_at = None
        self.ctx.event("badcons", fired, type(e).__name__ if e else len(X))
        if fired:
            if e is None:
                raise Violation("constraint-error-swallowed", f"the constraint function raised at call {op.get('at') or op['site']} but ask returned {X}")
            if campaign.is_expected_empty(e):
                raise Violation("constraint-error-swallowed", "the constraint function raised but ask reported an empty answer")
        elif e is not None and not campaign.is_expected_empty(e):
            raise Violation("unexpected-" + type(e).__name__, f"{e} at {core.short_tb(e)}")
        elif e is None:
            self.judge_ask(X, want, fixed, self.fitted())
            self.inflight += [world.vals_of(self.sp, x, "") for x in X]


class CC(cond.CondCampaign):
    do_badcons = C.do_badcons


def run(sc, ctx):
    cp = (CC if sc["cfg"]["alg"] == "ConditionalBO" else C)(sc["cfg"], ctx, INV)
    return engine.run_ops(cp, sc["ops"])


def nontrivial(r):
    return bool(r.get("faults")) and bool(r.get("probes", {}).get("ask_model") or r.get("probes", {}).get("ask_doe"))
