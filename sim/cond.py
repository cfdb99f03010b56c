"""Conditional search spaces: random condition trees, an independent evaluator, a campaign on them."""
import copy
import itertools
import math
import random
from collections import deque

import numpy as np

from . import campaign, core, engine, world
from .campaign import call
from .core import Violation

SEL_VALUES = {
    "int": [0, 1, 2, 3, -1, -2],
    "cat": ["", "A", "B", "C", "0", "None", "x y"],
    "catn": [0, 1, 2, 5],
    "bool": [False, True],
    "ord": [0, 2, 4, 8],
    "real": [0.0, 0.5, -1.5, 2.25],
}


def gen_tree(rng, tier="quick"):
    """-> [var descriptors], each with "cond": [selector, value] or absent"""
    out, n = [], [0]

    def leaf(cond):
        v = world.gen_var(rng, n[0], ("real", "real", "int", "cat", "bool"), simple=rng.random() < 0.6)
        v["name"] = f"v{n[0]}" if rng.random() < 0.7 else rng.choice(["lr", "units", "Drop", "a_b"]) + str(n[0])
        n[0] += 1
        if cond:
            v["cond"] = cond
        out.append(v)

    def selector(cond, depth, budget):
        kind = rng.choice(["int", "int", "cat", "catn", "bool", "ord", "real"])
        name = f"{rng.choice(['s', 'sel', 'K'])}{n[0]}"
        n[0] += 1
        k = min(rng.choice([1, 2, 2, 3]), len(SEL_VALUES[kind]), budget)
        named = rng.sample(SEL_VALUES[kind], max(1, k))
        if kind == "int":
            v = {"t": "int", "name": name, "lo": min(named) - rng.choice([0, 1]), "hi": max(named) + rng.choice([1, 2])}
        elif kind == "real":
            v = {"t": "real", "name": name, "lo": min(named) - 1.0, "hi": max(named) + 1.0}
        elif kind == "bool":
            v = {"t": "bool", "name": name}
        else:
            lv = named + [x for x in SEL_VALUES[kind] if x not in named][: rng.choice([0, 1])]
            if len(lv) < 2:
                lv = named + [x for x in SEL_VALUES[kind] if x not in named][:1]
            rng.shuffle(lv)
            v = {"t": "ord" if kind == "ord" else "cat", "name": name, "levels": lv}
        if cond:
            v["cond"] = cond
        out.append(v)
        for val in named:
            kids = rng.choice([1, 1, 2, 2, 3])
            nsel = 0
            for _ in range(kids):
                if depth > 0 and nsel < 2 and rng.random() < 0.3:
                    selector([name, val], depth - 1, 2)
                    nsel += 1
                else:
                    leaf([name, val])

    for _ in range(rng.choice([1, 1, 1, 2])):
        selector(None, rng.choice([0, 1, 1, 2]), 3)
    for _ in range(rng.choice([0, 1, 2])):
        leaf(None)
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def build_space(sp, rng=None):
    from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, SearchSpace

    vs = []
    for v in sp:
        kw = {"name": v["name"]}
        if v.get("cond"):
            kw["conditions"] = f"{v['cond'][0]} == {v['cond'][1]!r}"
        t = v["t"]
        if t == "real":
            vs.append(Real([v["lo"], v["hi"]], precision=v.get("prec"), scale=v.get("scale", "linear"), **kw))
        elif t == "int":
            vs.append(Integer([v["lo"], v["hi"]], step=v.get("step", 1), **kw))
        elif t == "cat":
            vs.append(Discrete(list(v["levels"]), **kw))
        elif t == "ord":
            vs.append(Ordinal(list(v["levels"]), **kw))
        else:
            vs.append(Bool(**kw))
    return SearchSpace(vs)


def kids(sp, name):
    return [v for v in sp if v.get("cond") and v["cond"][0] == name]


def is_selector(sp, name):
    return bool(kids(sp, name))


def branches(sp):
    """all branches as sorted tuples of (selector, value)"""

    def paths(name):
        """assignments to selectors in the subtree of the active selector `name`"""
        out = []
        vals = []
        for k in kids(sp, name):
            if not any(type(k["cond"][1]) is type(u) and k["cond"][1] == u for u in vals):
                vals.append(k["cond"][1])
        for val in vals:
            subs = [paths(k["name"]) for k in kids(sp, name) if k["cond"][1] == val and is_selector(sp, k["name"])]
            for item in itertools.product(*subs):
                out.append(((name, val),) + tuple(z for it in item for z in it))
        return out

    roots = [v["name"] for v in sp if not v.get("cond") and is_selector(sp, v["name"])]
    return [tuple(sorted((z for it in item for z in it), key=str)) for item in itertools.product(*[paths(r) for r in roots])]


def active(sp, conf):
    """names of the variables that must have a value in configuration `conf`"""
    act = set()
    todo = [v for v in sp if not v.get("cond")]
    while todo:
        v = todo.pop()
        act.add(v["name"])
        x = conf.get(v["name"])
        for k in kids(sp, v["name"]):
            if x is not None and world.type_eq(x, k["cond"][1]) or isinstance(x, (bool, np.bool_)) and isinstance(k["cond"][1], bool) and bool(x) == k["cond"][1]:
                todo.append(k)
    return act


def branch_of(sp, conf):
    act = active(sp, conf)
    return tuple(sorted(((v["name"], conf[v["name"]]) for v in sp if v["name"] in act and is_selector(sp, v["name"])), key=str))


def random_conf(rng, sp, branch):
    conf = dict(branch)
    act = active(sp, conf)
    for v in sp:
        if v["name"] in act and v["name"] not in conf:
            conf[v["name"]] = world.random_point(rng, [v])[0]
    return [conf.get(v["name"]) for v in sp]


def gen_constraint(rng, sp):
    """an inequality on some of the variables, active or not"""
    own = [j for j, v in enumerate(sp) if not is_selector(sp, v["name"])]
    idx = own if own and rng.random() < 0.85 else list(range(len(sp)))
    con = world.gen_constraint(rng, [sp[j] for j in idx])
    for k in ("i", "j"):
        if k in con:
            con[k] = idx[con[k]]
    return con


def inner_optimizers(opt):
    """the optimizers of the branches, under whatever name `opt` keeps them"""
    out = []
    for v in vars(opt).values():
        if isinstance(v, dict):
            v = v.values()
        if isinstance(v, (list, tuple, deque, type({}.values()))):
            out += [z for z in v if hasattr(z, "ask") and hasattr(z, "tell") and hasattr(z, "logger") and all(z is not y for y in out)]
    return out


class CondCampaign(engine.Campaign):
    """a ConditionalBO driven by the simulated workers"""

    def __init__(self, *a, **k):
        self.tried = []
        self.tried_ok = True
        self.br = None
        super().__init__(*a, **k)

    def build(self):
        from bayes_optim import surrogate
        from bayes_optim.extension import ConditionalBO

        cfg = self.cfg
        self.br = branches(self.sp)
        space = build_space(self.sp)
        self.objs, self.cons = campaign.register(cfg)
        self.objs[0].value_of = self.value
        kw = dict(
            search_space=space,
            obj_fun=self.objs[0],
            DoE_size=cfg.get("doe", 4),
            max_FEs=cfg.get("max_FEs", 30),
            minimize=cfg.get("minimize", True),
            n_point=cfg.get("n_point", 2),
            n_job=cfg.get("n_job", 1),
            instance_id=cfg.get("name", "z0"),
            acquisition_optimization={"max_FEs": cfg.get("aq_FEs", 20), "n_restart": cfg.get("aq_restart", 1)},
        )
        if cfg.get("random_seed") is not None:
            kw["random_seed"] = cfg["random_seed"]
        for con in self.cons:
            kw["eq_fun" if con.eq else "ineq_fun"] = con
        kw.update(self.extra)
        self.tried, self.tried_ok = [], True
        warm = cfg.get("warm")
        if warm:
            pts, fits = self.warm_points(warm)
            X = self.message(pts, {"ks": warm.get("ks", 1)})
            if warm.get("fmt") == "solution":
                from bayes_optim import Solution

                X = Solution([list(p) for p in pts], var_name=[v["name"] for v in self.sp])
            y = [f[0] for f in fits]
            data = (X, np.array(y) if warm.get("arr") else y)
            self.warm_watch = engine.Watched("warm-start data", data)
            if not warm.get("setter"):
                kw["warm_data"] = data
            self.ref.rows = [(list(p), tuple(f)) for p, f in zip(pts, fits)]
            self.ref.warm = len(pts)
        self.opt = ConditionalBO(**kw)
        if warm:
            if warm.get("setter"):
                self.opt.warm_data = data
            self.tried = sorted({core.canon(self.branch(p)) for p in pts})
            if self.warm_watch.text(data) != self.warm_watch[2]:
                raise Violation("argument-changed", "the warm-start data were changed")
        self.ctx.event(self.tag, "build", "ConditionalBO", len(self.br))

    def branch(self, vals):
        return branch_of(self.sp, dict(zip([v["name"] for v in self.sp], vals)))

    def warm_points(self, warm):
        rng = random.Random(warm["s"])
        pts = []
        for _ in range(warm["n"]):
            p = random_conf(rng, self.sp, rng.choice(self.br))
            if not any(engine.same_point(self.sp, p, q) for q in pts):
                pts.append(p)
        return pts, [self.value(p) for p in pts]

    def value(self, vals):
        s = self.cfg.get("obj_scale", 1.0)
        return (s * (world.unit([str(v) if v is None else v for v in vals], "c") - 0.5) + self.cfg.get("obj_shift", 0.0),)

    def message(self, pts, op):
        names = [v["name"] for v in self.sp]
        rng = random.Random(f"keys/{op.get('ks', 0)}")
        out = []
        for p in pts:
            items = list(zip(names, p))
            if op.get("ks"):
                rng.shuffle(items)
            out.append(dict(items))
        return out

    def fitting(self, fixed):
        """the branches that allow the fixed values"""
        return [b for b in self.br if all((dict(b)[k] == v) if k in dict(b) else k in active(self.sp, dict(b)) for k, v in (fixed or {}).items())]

    def free(self, b, fixed):
        d = dict(b)
        return [v for v in self.sp if v["name"] in active(self.sp, d) and v["name"] not in d and v["name"] not in (fixed or {})]

    def fixed_of(self, op):
        fx = op.get("fixed")
        if not fx:
            return None
        rng = random.Random(fx["s"])
        conf = random_conf(rng, self.sp, rng.choice(self.br))
        fixed = {self.sp[i]["name"]: conf[i] for i in fx["i"] if i < len(self.sp) and conf[i] is not None}
        if not fixed or not all(self.free(b, fixed) for b in self.fitting(fixed)):
            return None
        return fixed

    def ask(self, op):
        kw = {"n_point": op["n"]} if op.get("n") else {}
        fixed = self.fixed_of(op)
        if fixed:
            kw["fixed"] = dict(fixed)
        X, e = call(self.opt.ask, **kw)
        if fixed and kw["fixed"] != fixed:
            raise Violation("argument-changed", f"ask changed the caller's dictionary {fixed} to {kw['fixed']}")
        return X, e, op.get("n") or self.cfg.get("n_point", 2), fixed

    def do_ask(self, op):
        c = self.ctx
        X, e, want, fixed = self.ask(op)
        if e is not None:
            if campaign.is_expected_empty(e) and (self.ref.rows or self.cons) and self.may_be_empty(want, fixed):
                c.probe("ask_empty")
                c.event(self.tag, "ask", "empty")
                self.tried_ok = False
                return
            raise Violation("unexpected-" + type(e).__name__, f"ask({op}, fixed={fixed}) raised {e} at {core.short_tb(e)}")
        self.judge_ask(X, want, fixed, True)
        for x in X:
            self.inflight.append([x[v["name"]] for v in self.sp])
        c.probe("asks")
        c.probe("ask_model" if self.ref.rows else "ask_doe")
        if fixed:
            c.probe("ask_fixed")
        c.event(self.tag, "ask", [[x[v["name"]] for v in self.sp] for x in X])

    def judge_ask(self, X, want, fixed, was_fitted):
        if not isinstance(X, (list, tuple)) or len(X) > want or not X or len(X) < want and not self.may_be_empty(want, fixed):
            raise Violation("wrong-number-of-points", f"asked {want} points, got {X}")
        for x in X:
            self.judge_conf(x)
            self.judge_order(x, fixed)
            for k, v in (fixed or {}).items():
                if core.canon(x[k]) != core.canon(v):
                    raise Violation("fixed-value-ignored", f"{k} fixed to {v!r} but proposed {x[k]!r}")
        self.judge_dup([[x[v["name"]] for v in self.sp] for x in X])
        if "cons" in self.inv:
            self.judge_cons(X, was_fitted)

    def judge_dup(self, pts):
        if "dup" not in self.inv:
            return
        for i, p in enumerate(pts):
            for v, _ in self.ref.rows:
                if engine.same_point(self.sp, p, v):
                    raise Violation("known-point-proposed", f"proposal {p} is already in the history")
            for q in pts[:i]:
                if engine.same_point(self.sp, p, q):
                    raise Violation("duplicate-in-batch", f"{p} proposed twice in one request")

    def judge_order(self, x, fixed=None):
        b = core.canon(branch_of(self.sp, x))
        if self.tried_ok and len(self.tried) < len(self.br):
            if b in self.tried:
                left = [u for u in map(core.canon, self.fitting(fixed)) if u not in self.tried]
                if left:
                    raise Violation("branch-repeated", f"branch {b} is proposed again although {left} were not tried yet")
                return
            self.tried.append(b)
            self.ctx.probe("first_tries")

    def do_step(self, op):
        log = self.objs[0].log
        m = len(log)
        try:
            super().do_step(op)
        finally:
            names = [v["name"] for v in self.sp]
            pts = [dict(zip(names, ent[0])) for ent in log[m:]]
        for x in pts:
            self.judge_conf(x)
            self.judge_order(x)
        if len(pts) != self.cfg.get("n_point", 2):
            self.tried_ok = False

    def may_be_empty(self, n, fixed, was_fitted=True):
        if self.cons:
            return True
        return any(not engine.roomy(self.free(b, fixed), len(self.ref.rows) + n, True) for b in self.fitting(fixed))

    def judge_conf(self, x):
        names = [v["name"] for v in self.sp]
        if not isinstance(x, dict) or sorted(map(str, x)) != sorted(names):
            raise Violation("proposal-format", f"{x}")
        act = active(self.sp, x)
        for v in self.sp:
            val = x[v["name"]]
            if v["name"] in act:
                if val is None:
                    raise Violation("active-variable-missing", f"{v['name']} must have a value in {x}")
                bad = world.in_domain(v, val)
                if bad:
                    raise Violation("outside-search-space", f"{v['name']}: {bad} in {x}")
            elif val is not None:
                raise Violation("inactive-variable-set", f"{v['name']} must be None in {x} (needs {v['cond']})")

    def do_foreign(self, op):
        rng = random.Random(op["ps"])
        pts = [random_conf(rng, self.sp, rng.choice(self.br)) for _ in range(op.get("k", 1))]
        fits = [self.value(p) for p in pts]
        for j, k in (op.get("fail") or {}).items():
            if int(j) < len(fits):
                fits[int(j)] = self.fail_fits(fits[int(j)], k, int(j))
        self.ctx.probe("foreign_points", len(pts))
        self.report(pts, fits, op)

    def do_deliver(self, op):
        super().do_deliver(dict(op, fmt=None))

    def do_redeliver(self, op):
        super().do_redeliver(dict(op, fmt=None))

    def flat(self, rows):
        """some branch has >5 observations, all the same"""
        per = {}
        for v, f in rows:
            per.setdefault(core.canon(branch_of(self.sp, dict(zip([z["name"] for z in self.sp], v)))), []).append(f[0])
        return any(len(f) > 5 and np.isclose(np.std(f), 0) for f in per.values())

    def do_save(self, op):
        super().do_save(op)
        self.snap_tried = (list(self.tried), self.tried_ok)

    def do_crash(self, op):
        had = self.snap is not None
        super().do_crash(op)
        if had:
            self.tried, self.tried_ok = list(self.snap_tried[0]), self.snap_tried[1]

    def check(self):
        self.check_history()
        self.check_incumbent()
        self.check_branches()

    def check_branches(self):
        """each branch's optimizer holds exactly the results of its branch"""
        bos, subs = inner_optimizers(self.opt), getattr(self.opt, "subspaces", None)
        if not isinstance(subs, (list, tuple)) or len(bos) != len(subs):
            return
        names = [v["name"] for v in self.sp]
        want = {}
        for v, f in self.ref.rows:
            conf = dict(zip(names, v))
            want.setdefault(core.canon(branch_of(self.sp, conf)), []).append((conf, f))
        got = 0
        for (fixed, cs), bo in zip(subs, bos):
            b = core.canon(tuple(sorted(fixed.items(), key=str)))
            cols = [str(z) for z in cs.var_name]
            rows = [([conf[k] for k in cols], f) for conf, f in want.get(b, [])]
            d = campaign.diff_rows(rows, campaign.rows_of(bo))
            if d:
                raise Violation("wrong-branch-data", f"branch {b}: {d}")
            got += len(rows)
        if got != len(self.ref.rows):
            raise Violation("wrong-branch-data", f"{got} of {len(self.ref.rows)} results belong to the optimizer's branches")


def gen_cfg(rng, small=False):
    sp = gen_tree(rng)
    if small:
        for v in sp:
            if not is_selector(sp, v["name"]):
                if v["t"] == "real":
                    v.update(lo=0.0, hi=1.0, prec=rng.choice([0, 1]))
                    v.pop("scale", None)
                elif v["t"] == "int":
                    v["hi"] = v["lo"] + rng.choice([1, 2, 3]) * v.get("step", 1)
    return {
        "alg": "ConditionalBO",
        "eval_type": "dict",
        "space": sp,
        "n_point": rng.choice([2, 2, 3, 4]),
        "doe": rng.choice([2, 5]),
        "minimize": rng.random() < 0.6,
        "max_FEs": 60,
        "aq_FEs": rng.choice([10, 20]),
        "obj_scale": rng.choice([1.0, 100.0]),
        "obj_shift": rng.choice([0.0, -50.0]),
    }
