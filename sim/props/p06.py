"""P06: a restored checkpoint continues exactly where the saved optimizer stood."""
import copy
import os
import pickle

import numpy as np

from .. import campaign, cond, core, engine
from ..core import Violation

RUNS = {"quick": 260, "thorough": 12000}
RULE = "non-trivial: at least one checkpoint was taken and restored between two operations of the campaign (in the same process or in a new one, with results still outstanding)."
ALT = True


def gen(rng, tier, i):
    r = rng.random()
    if r < 0.09:
        return gen_cond(rng, tier)
    if r < 0.2:
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub", "rf"), n_obj=2)
    else:
        cfg = campaign.gen_cfg(rng, models=("stub", "stub", "rf", "rf", "gp"))
    cfg["aq_FEs"] = 20
    if rng.random() < 0.3:
        cfg["random_seed"] = rng.randrange(1000)
    if rng.random() < 0.2:
        cfg["ftarget"] = -1e9 if cfg.get("minimize") else 1e9
    if rng.random() < 0.2 and cfg["alg"] != "MOBO":
        cfg["warm"] = {"n": rng.randint(1, 6), "s": engine.S(rng), "ks": 1}
    if rng.random() < 0.15 and cfg["model"] == "stub" and cfg["alg"] != "MOBO":
        cfg["ineq" if rng.random() < 0.7 else "eq"] = [engine.world.gen_constraint(rng, cfg["space"])]
    mix = {"ask": 5, "deliver": 6, "redeliver": 0.3, "foreign": 0.7, "step": 1, "lose": 0.3, "pfail": rng.choice([0, 0.2]), "pfixed": 0.1}
    if cfg["model"] == "gp":
        mix["redeliver"] = 0
    con = cfg.get("ineq") or cfg.get("eq")
    if con:
        mix["pfixed"] = 0
    n = rng.randint(3, 10 if tier == "quick" else 18)
    if con:
        n = min(n, 3)
    ops = engine.gen_ops(rng, cfg, n, mix)
    if rng.random() < 0.9:
        ops = [{"op": "ask", "s": 11}, {"op": "deliver", "s": 12, "pick": [0] * 8}] + ops
    return finish(rng, cfg, ops)


def gen_cond(rng, tier):
    cfg = cond.gen_cfg(rng)
    cfg["aq_FEs"] = 10
    if rng.random() < 0.3:
        cfg["random_seed"] = rng.randrange(1000)
    mix = {"ask": 6, "deliver": 4, "foreign": 0.5, "step": 0.5, "lose": 0.5, "pfail": rng.choice([0, 0.2])}
    return finish(rng, cfg, [{"op": "ask", "s": 11}] + engine.gen_ops(rng, cfg, rng.randint(3, 7 if tier == "quick" else 14), mix))


def finish(rng, cfg, ops):
    cuts = sorted(rng.sample(range(len(ops) + 1), min(len(ops), rng.choice([1, 1, 2, 3]))))
    modes = [m for m in ("save", "reload", "process") if rng.random() < 0.6] or ["reload"]
    return {"cfg": cfg, "ops": ops, "cuts": cuts, "modes": modes, "alt": rng.random() < 0.5}


def plan(sc):
    out = [("main", dict(sc, mode="plain"))]
    for m in sc["modes"]:
        if m == "process":
            k = min(sc["cuts"][-1], len(sc["ops"]))
            out.append(("main", dict(sc, mode="first", cut=k)))
            out.append(("alt" if sc["alt"] else "main", dict(sc, mode="second", cut=k)))
        else:
            out.append(("main", dict(sc, mode=m)))
    return out


class C(engine.Campaign):
    def state(self):
        """the harness's side of the world at the moment of the crash"""
        return {"inflight": self.inflight, "sent": self.sent, "ref": self.ref}


class CC(cond.CondCampaign):
    state = C.state

    def judge_order(self, x, fixed=None):
        pass

    def check(self):
        pass


def run(sc, ctx):
    cfg, ops, mode = sc["cfg"], sc["ops"], sc["mode"]
    C = CC if cfg["alg"] == "ConditionalBO" else globals()["C"]
    path = os.path.join(ctx.scratch, "c.pkl")
    side = os.path.join(ctx.scratch, "side.pkl")
    if mode == "second":
        cp = C.__new__(C)
        cp.cfg, cp.ctx, cp.inv, cp.tag, cp.sp = cfg, ctx, set(), "", cfg["space"]
        cp.n_obj, cp.mo, cp.snap = cfg.get("n_obj", 1), cfg.get("alg") == "MOBO", None
        cp.objs, cp.cons = campaign.register(cfg)
        if C is CC:
            cp.br, cp.tried, cp.tried_ok = cond.branches(cp.sp), [], False
            cp.objs[0].value_of = cp.value
        with open(side, "rb") as f:
            st = pickle.load(f)
        cp.inflight, cp.sent, cp.ref, seq, before = st["inflight"], st["sent"], st["ref"], st["seq"], st["fp"]
        np.random.seed(99)
        cp.opt = campaign.classes()[cfg["alg"]].load(path)
        ctx.probe("restores_in_new_process")
        d = engine.fp_diff(before, engine.fingerprint(cp.opt, cp.n_obj))
        if d:
            raise Violation("restored-state-differs", f"after loading in a new process: {d[:3]}")
        ops = ops[sc["cut"] :]
        base = sc["cut"]
    else:
        np.random.seed(7)
        cp = C(cfg, ctx)
        seq, base = [], 0
    cuts = set(sc["cuts"]) if mode in ("save", "reload") else set()
    if mode == "first":
        ops = ops[: sc["cut"]]

    def cut():
        fp = engine.fingerprint(cp.opt, cp.n_obj)
        rs = core.canon(np.random.get_state()[1].tolist())
        cp.opt.save(path)
        ctx.probe("saves")
        d = engine.fp_diff(fp, engine.fingerprint(cp.opt, cp.n_obj))
        if d:
            raise Violation("save-changed-optimizer", f"{d[:3]}")
        if mode == "reload":
            cls = type(cp.opt)
            cp.opt = None
            cp.opt = cls.load(path)
            ctx.probe("restores_in_process")
            d = engine.fp_diff(fp, engine.fingerprint(cp.opt, cp.n_obj))
            if d:
                raise Violation("restored-state-differs", f"{d[:3]}")
        if rs != core.canon(np.random.get_state()[1].tolist()):
            raise Violation("checkpoint-touches-rng", f"saving or loading changed the global random state ({mode})")
        return fp

    for k, op in enumerate(ops):
        if base + k in cuts:
            cut()
        n0 = len(ctx.events)
        cp.do(op)
        seq.append([core.canon(e) for e in ctx.events[n0:]] + [engine.fingerprint(cp.opt, cp.n_obj)])
    if base + len(ops) in cuts:
        cut()
    if mode == "first":
        fp = cut()
        with open(side, "wb") as f:
            pickle.dump(dict(cp.state(), seq=seq, fp=fp), f)
        ctx.fault("process_crash")
        return None
    return seq


def judge(sc, outs):
    ref = outs[0]
    for (w, v), out in zip(plan(sc), outs):
        if v["mode"] == "first" or out is None:
            continue
        for k, (a, b) in enumerate(zip(ref, out)):
            if a != b:
                d = [f"{x[:400]} <> {y[:400]}" for x, y in zip(a[:-1], b[:-1]) if x != y] or engine.fp_diff(a[-1], b[-1])
                return ("continuation-differs", f"[{v['mode']}] operation {k} {sc['ops'][k]}: uninterrupted <> restored: {d[:2]}")
        if len(ref) != len(out):
            return ("continuation-differs", f"[{v['mode']}] {len(out)} operations instead of {len(ref)}")


def nontrivial(r):
    return bool(r["probes"].get("saves"))
