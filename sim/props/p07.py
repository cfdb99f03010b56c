"""P07: saving a checkpoint is atomic under crashes and disk faults."""
import copy
import os
import random

import numpy as np

from .. import campaign, core, disk, engine
from ..campaign import call
from ..core import Violation

RUNS = {"quick": 520, "thorough": 30000}
RULE = "non-trivial: at least one save was hit by a crash, power loss, disk fault, pickling failure or interrupt and the checkpoint was judged afterwards."
ASSUME = [
    "power-loss model: file contents reach the disk by fsync or never, or partly; directory updates reach it in order, any prefix; everything older than the current save is durable",
]


def gen_fault(rng):
    r = rng.random()
    if r < 0.08:
        return {"obj": rng.choice(["raise", "interrupt", "MemoryError"])}
    f = {"nth": rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])}
    what = rng.choice(["error", "error", "crash", "crash", "crash_after", "crash_after", "torn_crash", "torn_error", "short"])
    f["what"] = what
    if what == "error":
        f["errno"] = rng.choice(["ENOSPC", "EIO", "EDQUOT", "EACCES"])
        if rng.random() < 0.4:
            f["op"] = rng.choice(["open_w", "write", "fsync|fdatasync", "replace|rename", "close"])
            f["nth"] = rng.choice([0, 0, 0, 1])
        if rng.random() < 0.2:
            f["sticky"] = True
    if what in ("torn_crash", "torn_error", "short"):
        f["op"], f["frac"], f["nth"] = "write", round(rng.random(), 3), rng.choice([0, 0, 0, 1, 2])
        f["errno"] = rng.choice(["ENOSPC", "EIO"])
    return {"plan": [f]}


def gen(rng, tier, i):
    r = rng.random()
    if r < 0.1:
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub",), n_obj=2, dim=rng.choice([1, 2, 3]))
    else:
        cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "rf", "rf"), dim=rng.choice([1, 2, 3]))
    cfg["aq_FEs"] = 20
    cfg["rf_n"] = rng.choice([4, 8, 20])
    if cfg["model"] == "rf" and rng.random() < 0.5:
        cfg["rf_n"] = 40
    mix = {"ask": 3, "deliver": 4, "foreign": 1, "pfail": 0.15}
    ops = []
    if rng.random() < 0.85:
        ops += [{"op": "ask", "s": 1}, {"op": "deliver", "s": 2, "pick": [0] * 8}]
    for _ in range(rng.randint(1, 4 if tier == "quick" else 7)):
        ops += engine.gen_ops(rng, cfg, rng.choice([0, 1, 1, 2, 3]), mix)
        op = {"op": "save", "s": engine.S(rng)}
        if rng.random() < 0.85:
            op.update(gen_fault(rng))
        if rng.random() < 0.3:
            op["power"] = engine.S(rng)
        ops.append(op)
        r = rng.random()
        if r < 0.25:
            ops.append({"op": "kill", "s": 1})
            if rng.random() < 0.4:
                ops[-1]["power"] = engine.S(rng)
        elif r < 0.35:
            ops.append({"op": "badload", "s": 1, "nth": rng.choice([0, 1])})
    ops += engine.gen_ops(rng, cfg, 1, mix) + [{"op": "save", "s": 3}, {"op": "kill", "s": 4}]
    where = rng.choice(["ckpt.pkl", "ckpt.pkl", "sub/dir/c.pkl", "REL", "REL", "ckpt", "run.tmp", "a.b/state.v2.bin"])
    return {"cfg": cfg, "ops": ops, "where": where, "second": rng.random() < 0.35 and rng.choice(["other.pkl", "STEM.bak", "STEM.old", "NAME.bak"]), "log": rng.random() < 0.25}


class C(engine.Campaign):
    def path(self):
        return self.where

    def setup(self, sc):
        self.where = "rel.pkl" if sc["where"] == "REL" else os.path.join(self.ctx.scratch, sc["where"])
        self.cls = type(self.opt)
        self.states = [(None, None)]  # acceptable contents of the checkpoint file: (fingerprint, reference)
        self.d = disk.DISK

    def fp(self):
        return engine.fingerprint(self.opt, self.n_obj)

    # -------------------------------------------------------------- faults
    def do_save(self, op):
        c, d = self.ctx, self.d
        d.checkpoint_durable()
        before = self.fp()
        new = (before, copy.deepcopy(self.ref))
        d.arm(op.get("plan") or [])
        if op.get("obj"):
            self.objs[0].pickle_fault = op["obj"]
        err, crashed = None, False
        try:
            self.opt.save(self.path())
        except core.SimCrash:
            crashed = True
        except (Exception, KeyboardInterrupt) as e:
            err = e
        self.objs[0].pickle_fault = None
        hits = d.fired()
        d.disarm()
        c.event(self.tag, "save", "crash" if crashed else type(err).__name__ if err else "ok", [f["what"] for f in hits])
        c.probe("save_crashed" if crashed else "save_failed" if err else "save_ok")
        if crashed:
            self.states.append(new)
            self.restart(op)
            return
        if err is not None:
            if not hits and not op.get("obj"):
                raise Violation("unexpected-" + type(err).__name__, f"save raised {err} without any fault at {core.short_tb(err)}")
            self.states.append(new)
        else:
            self.states = [new]
        diff = engine.fp_diff(before, self.fp())
        if diff:
            raise Violation("live-optimizer-damaged", f"after {'a failed' if err else 'a'} save: {diff[:3]}")
        self.judge_file("after a failed save" if err else "after a successful save")
        if op.get("power"):
            self.restart(op)

    def do_kill(self, op):
        self.restart(op)

    def do_badload(self, op):
        """reading the checkpoint fails; trying again works"""
        if self.states == [(None, None)] or len(self.states) > 1:
            return
        self.d.arm([{"what": "error", "errno": "EIO", "op": "open_r", "nth": 0}])
        x, e = call(self.cls.load, self.path())
        hit = self.d.fired()
        self.d.disarm()
        if hit and e is None:
            raise Violation("error-swallowed", "the checkpoint could not be read but load() returned normally")
        self.judge_file("after a failed load")

    def restart(self, op):
        c, d = self.ctx, self.d
        c.fault("process_crash")
        self.opt = None
        d.crashed = True
        core.reset_logging()
        if op.get("power"):
            c.fault("power_loss")
            # a finished save may not have reached the disk's directory yet
            if len(self.states) == 1 and getattr(self, "older", None):
                self.states = self.older + self.states
            d.power_loss(random.Random(op["power"]))
        d.reboot()
        k = self.judge_file("after the crash")
        d.checkpoint_durable()
        fp, ref = self.states[k]
        self.states = [self.states[k]]
        self.older = None
        if fp is None:
            self.ref = campaign.Ref()
            self.ref.trace = []
            self.build()
        else:
            self.opt = self.cls.load(self.path())
            self.ref = copy.deepcopy(ref)
            c.probe("restores")
        c.event(self.tag, "restart", len(self.ref.rows))

    def judge_file(self, when):
        """-> index of the acceptable state the file holds"""
        there = os.path.exists(self.path())
        if not there:
            for k, (fp, _) in enumerate(self.states):
                if fp is None:
                    return k
            raise Violation("checkpoint-lost", f"{when}: the file is gone although an earlier save succeeded")
        st = np.random.get_state()
        x, e = call(self.cls.load, self.path())
        np.random.set_state(st)
        if e is not None:
            raise Violation("checkpoint-corrupt", f"{when}: load raised {type(e).__name__}: {e}")
        fp = engine.fingerprint(x, self.n_obj)
        for k, (want, _) in reversed(list(enumerate(self.states))):
            if want is not None and not engine.fp_diff(want, fp):
                return k
        want = [w for w, _ in self.states if w is not None]
        raise Violation("checkpoint-wrong-state", f"{when}: neither the old nor the new state: {engine.fp_diff(want[-1], fp)[:3] if want else 'nothing was ever saved'}")

    def do(self, op):
        if op["op"] == "save":
            # what a power cut during or right after this save may fall back to
            self.older = list(self.states)
        super().do(op)


def run(sc, ctx):
    d = disk.install(disk.Disk(ctx.scratch))
    d.active = True
    cfg = sc["cfg"]
    extra = {"log_file": os.path.join(ctx.scratch, "l.log")} if sc.get("log") else {}
    cp = C(cfg, ctx, inv=("hist",), extra=extra)
    cp.setup(sc)
    other = None
    if sc.get("second"):
        # another optimizer's checkpoint in the same folder must not be touched
        o = C(dict(cfg, name="z1"), ctx)
        p = os.path.abspath(cp.path())
        stem = sc["second"].replace("STEM", os.path.splitext(os.path.basename(p))[0]).replace("NAME", os.path.basename(p))
        op2 = os.path.join(os.path.dirname(p), stem)
        o.opt.save(op2)
        other = (op2, d.read(d.rel(op2)))
    d.checkpoint_durable()
    for op in sc["ops"]:
        cp.do(op)
        if other and (not os.path.exists(other[0]) or d.read(d.rel(other[0])) != other[1]):
            raise Violation("other-file-touched", f"{other[0]} changed during {op['op']}")
    return None


def nontrivial(r):
    p = r["probes"]
    return bool(p.get("save_crashed") or p.get("save_failed") or r["faults"].get("power_loss"))
