"""P14: logging is isolated and never influences the optimisation."""
import io
import logging
import os
import sys

import numpy as np

from .. import campaign, cond, core, disk, engine
from ..core import Violation

RUNS = {"quick": 260, "thorough": 12000}
RULE = "non-trivial: several optimizers were interleaved, or one was discarded, saved and restored, or the log disk failed."


def gen(rng, tier, i):
    k = rng.choice([1, 2, 2, 3])
    cfgs = []
    for j in range(k):
        r = rng.random()
        if r < 0.1:
            cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub",), n_obj=2, simple=True)
        elif r < 0.25:
            cfg = cond.gen_cfg(rng)
        else:
            cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "rf"), algs=["BO", "BO", "ParallelBO", "ParallelBO", "AnnealingBO", "NoisyBO", "MultiAcquisitionBO"])
        cfg["aq_FEs"] = 12
        cfg["aq_restart"] = 1
        cfg["name"] = rng.choice(["z", "experiment-", "experiment run no. "]) + str(j)
        cfg["instance_id"] = rng.random() < 0.5
        cfg["verbose"] = rng.random() < 0.2
        # a file, a file given by a relative path, in a folder that gets lost, in a folder that never was
        cfg["log"] = rng.choice(["log", "log", "log", "log", "rel", "sub", "missing", None])
        cfgs.append(cfg)
    if k > 1 and rng.random() < 0.15:
        cfgs[1]["log"] = "same"  # two optimizers, one file
        cfgs[0]["log"] = "same"
    ops = []
    for _ in range(rng.randint(6, 16 if tier == "quick" else 40)):
        j = rng.randrange(k)
        r = rng.random()
        if r < 0.08:
            ops.append({"op": "crash", "who": j})
            if rng.random() < 0.4:
                ops[-1]["rmlogs"] = True
        elif r < 0.15:
            ops.append({"op": "reload", "who": j})
        elif r < 0.22:
            ops.append({"op": "recreate", "who": j})
        elif r < 0.3:
            ops.append({"op": "save", "who": j})
        else:
            mix = {"ask": 4, "deliver": 5, "foreign": 1, "step": 1, "lose": 0.2, "pfail": 0.3}
            op = engine.gen_ops(rng, cfgs[j], 1, mix)[0]
            op.pop("s", None)
            ops.append(dict(op, who=j))
    fault = None
    if rng.random() < 0.4:
        fault = {"what": rng.choice(["error", "torn_error", "short"]), "op": "write", "nth": rng.choice([0, 1, 3, 8]), "path": ".log", "errno": rng.choice(["ENOSPC", "EIO"]), "frac": 0.5, "sticky": rng.random() < 0.5}
    return {"cfgs": cfgs, "ops": ops, "fault": fault, "root": rng.random() < 0.3, "modes": ["on", "off"] + (["fail"] if fault else [])}


def plan(sc):
    return [("main", dict(sc, mode=m)) for m in sc["modes"]]


class Recorder:
    """all logging calls made by the code under test"""

    def __init__(self):
        self.calls = []
        rec = self

        def wrap(name):
            real = getattr(logging.Logger, name)

            def f(self, msg, *args, **kw):
                rec.calls.append((self.name, getattr(logging, name.upper(), 0), str(msg) % args if args else str(msg)))
                return real(self, msg, *args, **kw)

            setattr(logging.Logger, name, f)

        log = logging.Logger.log

        def f(self, level, msg, *args, **kw):
            rec.calls.append((self.name, level, str(msg) % args if args else str(msg)))
            return log(self, level, msg, *args, **kw)

        logging.Logger.log = f
        for n in ("debug", "info", "warning", "error", "critical"):
            wrap(n)

    def take(self):
        out, self.calls = self.calls, []
        return out


def parse(content, msgs):
    """None if `content` is exactly the messages, each with a one-line header; else a complaint"""
    pos = 0
    for k, m in enumerate(msgs):
        at = pos
        while True:
            at = content.find(m + "\n", at)
            if at < 0 or "\n" in content[pos:at]:
                line = content[pos:].split("\n")[0][:120]
                return f"message {k + 1} of {len(msgs)} ({m[:80]!r}) is not where it should be; the file goes on with {line!r}"
            break
        pos = at + len(m) + 1
    if pos != len(content):
        return f"unexpected text after the {len(msgs)} messages: {content[pos:][:160]!r}"


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.cps, self.exp, self.names = {}, {}, {}
        self.rec = Recorder()
        self.on = sc["mode"] != "off"
        self.seq = []
        self.lost, self.root = False, None
        os.makedirs(os.path.join(ctx.scratch, "logs"), exist_ok=True)
        self.user_logging()

    def user_logging(self):
        """the user's own logging set-up, on the root logger"""
        for h in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(h)
        if self.sc.get("root"):
            self.root = io.StringIO()
            h = logging.StreamHandler(self.root)
            h.setLevel(logging.DEBUG)
            logging.getLogger().addHandler(h)

    def logfile(self, j):
        cfg = self.sc["cfgs"][j]
        if not self.on or not cfg["log"]:
            return None
        if cfg["log"] == "missing" or cfg["log"] == "sub" and self.lost:
            return None  # there is no such folder: no log, but nothing else is amiss
        return self.where(j)

    def where(self, j):
        kind = self.sc["cfgs"][j]["log"]
        return os.path.join(self.ctx.scratch, {"same": "same.log", "sub": f"logs/o{j}.log", "missing": f"no/such/o{j}.log"}.get(kind, f"o{j}.log"))

    def extra(self, j):
        d = {}
        kind = self.sc["cfgs"][j]["log"]
        if self.on and kind:
            d["log_file"] = f"o{j}.log" if kind == "rel" else self.where(j)
        if self.on and self.sc["cfgs"][j]["verbose"]:
            d["verbose"] = True
        return d

    def loggers(self, j):
        opt = self.cps[j].opt
        return {opt.logger.name} | {b.logger.name for b in cond.inner_optimizers(opt)}

    def create(self, j):
        cfg = self.sc["cfgs"][j]
        cls = cond.CondCampaign if cfg["alg"] == "ConditionalBO" else engine.Campaign
        ex = self.extra(j)
        if cls is cond.CondCampaign and not cfg["instance_id"]:
            ex["instance_id"] = None
        cp = cls(cfg, self.ctx, (), f"c{j}.pkl", ex, tag=f"o{j}")
        self.cps[j] = cp

    def act(self, j, fn):
        """run something for optimizer j and attribute what was logged"""
        out0, err0 = len(sys.stdout.getvalue()), len(sys.stderr.getvalue())
        self.rec.take()
        fn()
        calls = self.rec.take()
        names = self.loggers(j)
        f = self.logfile(j)
        if f:
            self.exp.setdefault(f, []).extend(m for n, lv, m in calls if n in names)
        self.ctx.probe("messages", len(calls))
        if self.sc["mode"] == "fail":
            return
        if not (self.on and self.sc["cfgs"][j]["verbose"]):
            out, err = sys.stdout.getvalue()[out0:], sys.stderr.getvalue()[err0:]
            if out:
                raise Violation("prints-to-console", f"optimizer {j} is not verbose but printed {out[:200]!r}")
            if err and f:  # (without any log file the logging module itself shows warnings)
                raise Violation("prints-to-console", f"optimizer {j} is not verbose but wrote to stderr: {err[:300]!r}")
        if self.root is not None and self.root.getvalue():
            raise Violation("logs-elsewhere", f"optimizer {j}'s messages went to the user's root logger: {self.root.getvalue()[:200]!r}")
        self.check()

    def check(self):
        for j in range(len(self.sc["cfgs"])):
            f = self.logfile(j)
            if not f:
                continue
            try:
                with open(f, encoding="utf-8") as h:
                    text = h.read()
            except FileNotFoundError:
                text = ""
            bad = parse(text, self.exp.get(f, []))
            if bad:
                raise Violation("log-differs", f"{os.path.basename(f)}: {bad}")


def run(sc, ctx):
    np.random.seed(5)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    d = disk.install(disk.Disk(ctx.scratch))
    w = World(sc, ctx)
    n = len(sc["cfgs"])
    for j in range(n):
        w.act(j, lambda: w.create(j))
    if sc["mode"] == "fail":
        d.active = True
        d.arm([sc["fault"]])
    saved = {}
    for op in sc["ops"]:
        j = op["who"]
        cp = w.cps[j]
        if op["op"] == "save":
            w.act(j, lambda: cp.do_save(op))
        elif op["op"] == "reload":
            if cp.snap is None:
                continue

            def f():
                cls = type(cp.opt)
                cp.opt = None
                cp.opt = cls.load(cp.path())
                cp.ref = engine.copy.deepcopy(cp.snap)

            w.act(j, f)
            ctx.probe("restores")
        elif op["op"] == "recreate":
            ctx.probe("recreated")
            cp.opt = None
            cp.ref = engine.Ref()
            cp.ref.trace = []
            cp.inflight, cp.sent, cp.snap = [], [], None
            w.act(j, lambda: w.create(j))
        elif op["op"] == "crash":
            # the process dies: all optimizers start over or from their checkpoints
            ctx.fault("process_crash")
            core.reset_logging()
            w.user_logging()
            if op.get("rmlogs") and not w.lost:  # restored where the folder of the logs does not exist
                ctx.fault("log_folder_lost")
                w.lost = True
                p = os.path.join(ctx.scratch, "logs")
                for f in os.listdir(p):
                    os.remove(os.path.join(p, f))
                os.rmdir(p)
            for i in range(n):
                c = w.cps[i]
                c.inflight = []
                if c.snap is None:
                    w.act(i, lambda: w.create(i))
                else:

                    def f():
                        cls = type(c.opt)
                        c.opt = None
                        c.opt = cls.load(c.path())
                        c.ref = engine.copy.deepcopy(c.snap)
                        if hasattr(c, "snap_tried"):
                            c.tried, c.tried_ok = list(c.snap_tried[0]), c.snap_tried[1]

                    w.act(i, f)
                    ctx.probe("restores")
        else:
            w.act(j, lambda: cp.do(op))
        w.seq.append([core.canon([list(v), list(f)]) for v, f in campaign.rows_of(w.cps[j].opt, w.cps[j].n_obj)][-3:] + [w.cps[j].opt.eval_count, w.cps[j].opt.iter_count, core.canon(w.cps[j].inflight)])
    if sc["mode"] == "fail" and not d.fired():
        ctx.probe("log_fault_not_reached")
    return w.seq


def judge(sc, outs):
    for m, out in zip(sc["modes"][1:], outs[1:]):
        for k, (a, b) in enumerate(zip(outs[0], out)):
            if a != b:
                return ("logging-changes-outcome", f"operation {k} {sc['ops'][k]}: with logging {a}, logging {m} {b}")
        if len(outs[0]) != len(out):
            return ("logging-changes-outcome", f"{len(outs[0])} operations with logging, {len(out)} with logging {m}")


def nontrivial(r):
    return bool(r["faults"]) or bool(r["probes"].get("restores")) or bool(r["probes"].get("recreated"))
