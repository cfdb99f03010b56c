"""P12: optimizers in one process do not disturb each other."""
import copy
import gc
import os

import numpy as np

from .. import campaign, cond, core, engine, world
from ..core import Violation

RUNS = {"quick": 320, "thorough": 15000}
RULE = "non-trivial: at least two optimizers were used alternately in one process; each is compared with its own run alone."
ASSUME = ["the shared random source is pinned before every operation, so that 'the same random draws' is well defined"]


def gen(rng, tier, i):
    k = rng.choice([2, 2, 3])
    cfgs = []
    share = rng.random() < 0.4
    first = None
    for j in range(k):
        if rng.random() < 0.1:
            cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub",), n_obj=2, simple=True)
        elif rng.random() < 0.1:
            cfg = cond.gen_cfg(rng)
        else:
            cfg = campaign.gen_cfg(rng, models=("stub", "stub", "rf", "gp"))
        cfg["aq_FEs"] = rng.choice([10, 20])
        cfg["aq_restart"] = rng.choice([1, 2])
        cfg["name"] = f"z{j}"
        cfg["instance_id"] = rng.random() < 0.4
        if rng.random() < 0.3:
            cfg["random_seed"] = rng.choice([0, 1, 42])
        if cfg["alg"] in ("BO", "ParallelBO", "AnnealingBO", "SelfAdaptiveBO") and rng.random() < 0.4:
            acq = cfg.get("acq") or ("EI" if cfg["alg"] == "BO" else "MGFI")
            if acq == "MGFI":
                cfg["acq_par"] = {"t": rng.choice([0.5, 1.0, 3.0])}
            elif acq == "UCB":
                cfg["acq_par"] = {"alpha": rng.choice([0.2, 0.5, 0.9])}
        if rng.random() < 0.2 and cfg["alg"] not in ("MOBO", "ConditionalBO"):
            cfg["warm"] = {"n": rng.randint(1, 5), "s": engine.S(rng), "ks": 1, "fmt": rng.choice([None, None, "solution"]), "arr": rng.random() < 0.5}
        if share and j and first["alg"] not in ("ConditionalBO",) and cfg["alg"] not in ("ConditionalBO",) and cfg.get("model") != "gp":
            cfg["space"] = copy.deepcopy(first["space"])
            cfg["shared"] = True
        if cfg["alg"] in ("BO", "ParallelBO", "AnnealingBO") and cfg.get("model") == "stub" and rng.random() < 0.05:
            cfg["ineq" if rng.random() < 0.7 else "eq"] = [world.gen_constraint(rng, cfg["space"])]
        if j == 0:
            first = cfg
            if share and cfg["alg"] != "ConditionalBO":
                cfg["shared"] = True
        cfgs.append(cfg)
    ops = []
    alive = list(range(k))
    parent = {}
    for j in range(k):
        ops.append({"op": "new", "who": j, "s": engine.S(rng)})
    rng.shuffle(ops)
    if rng.random() < 0.5:  # some are constructed later
        late = ops.pop()
    else:
        late = None
    born = {o["who"] for o in ops}
    n = rng.randint(6, 16 if tier == "quick" else 40)
    nxt = k
    gone = set()
    for t in range(n):
        if late and t == n // 3:
            ops.append(late)
            born.add(late["who"])
        j = rng.choice([b for b in sorted(born) if b not in gone])
        root = j
        while root in parent:
            root = parent[root]
        r = rng.random()
        if r < 0.06 and nxt < k + 2:
            ops.append({"op": "clone", "who": j, "new": nxt, "s": engine.S(rng)})
            parent[nxt] = j
            born.add(nxt)
            nxt += 1
        elif r < 0.1 and len(born - gone) > 1:
            ops.append({"op": "discard", "who": j})
            gone.add(j)
        else:
            c = cfgs[root]
            mix = {"ask": 5, "deliver": 5, "redeliver": 0.2 if c.get("model") != "gp" else 0, "foreign": 1, "step": 1, "lose": 0.2, "save": 0.5, "pfail": 0.15, "pfixed": 0.1 if c["alg"] != "ConditionalBO" else 0}
            op = engine.gen_ops(rng, c, 1, mix)[0]
            ops.append(dict(op, who=j))
    return {"cfgs": cfgs, "ops": ops}


def entities(sc):
    out = {}
    for op in sc["ops"]:
        if op["op"] == "new":
            out[op["who"]] = None
        elif op["op"] == "clone" and op["who"] in out:
            out[op["new"]] = op["who"]
    return out


def plan(sc):
    ents = entities(sc)
    return [("main", dict(sc, solo=None)), ("main", dict(sc, solo=None, shift=1))] + [("main", dict(sc, solo=j)) for j in sorted(ents)]


def space_text(space):
    out = [space.__class__.__name__, core.canon([str(n) for n in space.var_name])]
    for v in space.data:
        d = {k: str(x) for k, x in v.__dict__.items() if isinstance(x, (int, float, str, tuple, list, bool, type(None)))}
        out.append(type(v).__name__ + core.canon(d))
    return out


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.cps, self.seq, self.users = {}, {}, []
        self.shared = None

    def extra(self, cfg):
        """the user's own objects, possibly passed to several optimizers"""
        if cfg.get("shared"):
            if self.shared is None:
                self.shared = {"space": world.build_space(cfg["space"]), "aq": {}}
                self.users.append(("shared search space", self.shared["space"], space_text(self.shared["space"])))
            space = self.shared["space"]
            key = core.canon([cfg.get("aq_FEs"), cfg.get("aq_restart"), cfg.get("aq_opt")])
            if key not in self.shared["aq"]:
                d = dict({"max_FEs": cfg["aq_FEs"], "n_restart": cfg["aq_restart"]}, **({"optimizer": cfg["aq_opt"]} if cfg.get("aq_opt") else {}))
                self.shared["aq"][key] = d
                self.users.append(("acquisition_optimization", d, copy.deepcopy(d)))
            ex = {"search_space": space, "acquisition_optimization": self.shared["aq"][key]}
            if cfg.get("acq_par"):
                key = "par" + core.canon(cfg["acq_par"])
                if key not in self.shared["aq"]:
                    self.shared["aq"][key] = dict(cfg["acq_par"])
                    self.users.append(("acquisition_par", self.shared["aq"][key], dict(cfg["acq_par"])))
                ex["acquisition_par"] = self.shared["aq"][key]
            return ex
        ex = {}
        if cfg["alg"] != "ConditionalBO":
            s = world.build_space(cfg["space"])
            self.users.append(("search space", s, space_text(s)))
            ex["search_space"] = s
            if cfg.get("acq_par"):
                d = dict(cfg["acq_par"])
                self.users.append(("acquisition_par", d, dict(d)))
                ex["acquisition_par"] = d
        return ex

    def check_users(self):
        for what, obj, before in self.users:
            now = space_text(obj) if "space" in what else engine.Watched.text(obj) if "warm" in what else obj
            if now != before:
                raise Violation("user-object-changed", f"{what}: {str(before)[:300]} -> {str(now)[:300]}")

    def pin(self, op):
        if "s" in op:
            np.random.seed((op["s"] + self.sc.get("shift", 0)) % 2**32)

    def note(self, j, n0, op, state0):
        cp = self.cps[j]
        ev = [core.canon(list(e)[1:]) for e in self.ctx.events[n0:]]
        st = np.random.get_state()
        self.seq.setdefault(str(j), []).append([op["op"]] + ev + [engine.fingerprint_list(cp.opt, cp.n_obj)])
        self.check_users()
        return core.hashlib.sha1(st[1].tobytes()).hexdigest()


def run(sc, ctx):
    w = World(sc, ctx)
    solo = sc["solo"]
    line = None
    if solo is not None:  # the ancestors of this optimizer
        ents = entities(sc)
        line = [solo]
        while ents.get(line[0]) is not None:
            line.insert(0, ents[line[0]])
    keys = []
    switched = 0
    last = None
    for k, op in enumerate(sc["ops"]):
        j = op["who"]
        if line is not None:
            cur = line[0]
            if j != cur:
                continue
            if op["op"] == "clone" and (len(line) < 2 or op["new"] != line[1]):
                continue
        elif op["op"] != "new" and j not in w.cps:
            continue
        if j != last and last is not None:
            switched += 1
        last = j
        n0 = len(ctx.events)
        if op["op"] == "new":
            w.pin(op)
            cfg = sc["cfgs"][j]
            cls = cond.CondCampaign if cfg["alg"] == "ConditionalBO" else engine.Campaign
            ex = w.extra(cfg)
            if cls is cond.CondCampaign and not cfg["instance_id"]:
                ex["instance_id"] = None
            w.cps[j] = cls(cfg, ctx, ("args",), f"c{j}.pkl", ex, tag=f"o{j}")
            if getattr(w.cps[j], "warm_watch", None):
                w.users.append(w.cps[j].warm_watch)
            h = w.note(j, n0, op, None)
            if cfg.get("random_seed") is None:
                keys.append((k, op, h))
            continue
        if j not in w.cps:
            raise core.HarnessError(f"operation on unborn {j}")
        if op["op"] == "discard":
            w.cps.pop(j).opt = None
            gc.collect()
            continue
        cp = w.cps[j]
        if op["op"] == "clone":
            w.pin(op)
            cp.do_save(op)
            m = op["new"]
            new = copy.copy(cp)
            new.ckpt, new.tag = f"c{m}.pkl", f"o{m}"
            new.ref, new.inflight, new.sent, new.snap = copy.deepcopy(cp.ref), copy.deepcopy(cp.inflight), copy.deepcopy(cp.sent), None
            if hasattr(cp, "tried"):
                new.tried = list(cp.tried)
            new.opt = type(cp.opt).load(cp.path())
            w.cps[m] = new
            ctx.probe("clones")
            keys.append((k, op, w.note(m, n0, op, None)))
            if line is not None:
                line.pop(0)
                w.cps.pop(j).opt = None
            continue
        w.pin(op)
        o = dict(op)
        o.pop("s", None)
        cp.do(o)
        keys.append((k, op, w.note(j, n0, op, None)))
        if op["op"] == "save":
            cp.snap = None
    if solo is None:
        ctx.probe("switches", switched)
        ctx.fault("optimizer_switch", switched)
    return {"seq": w.seq, "keys": [[k, op["op"], h] for k, op, h in keys]}


def judge(sc, outs):
    both = outs[0]
    a, b = {k: h for k, _, h in both["keys"]}, {k: h for k, _, h in outs[1]["keys"]}
    for k, o, h in both["keys"]:
        if b.get(k) == h:
            return ("random-source-reset", f"operation {k} {sc['ops'][k]} leaves the shared random source in the same state whatever it was before")
    for j, out in zip(sorted(entities(sc)), outs[2:]):
        x, y = both["seq"].get(str(j), []), out["seq"].get(str(j), [])
        for k, (p, q) in enumerate(zip(x, y)):
            if p != q:
                d = [f"{u} <> {v}" for u, v in zip(p[:-1], q[:-1]) if u != v] or [f"{u} <> {v}" for u, v in zip(p[-1], q[-1]) if u != v]
                return ("disturbed", f"optimizer {j} ({(sc['cfgs'] + [{}] * 9)[j].get('alg', 'clone')}), its operation {k} ({p[0]}), together <> alone: {str(d[:1])[:1200]}")
        if len(x) != len(y):
            return ("disturbed", f"optimizer {j}: {len(x)} operations together, {len(y)} alone")


def simpler(sc):
    for j in range(len(sc["cfgs"])):
        c = copy.deepcopy(sc)
        c["ops"] = [o for o in c["ops"] if o["who"] != j and o.get("new") != j]
        yield c


def nontrivial(r):
    return bool(r["probes"].get("switches"))
