"""P08: the evaluation data file is complete and parseable under crashes and disk faults."""
import copy
import csv
import math
import os

from .. import campaign, cond, core, disk, engine, world
from ..campaign import call, rows_of
from ..core import Violation

RUNS = {"quick": 620, "thorough": 30000}
RULE = "non-trivial: at least one report was acknowledged and at least one append was hit by a fault or crash, or the process was restarted with the data file in place."
ASSUME = ["kill model: what reached the kernel survives the death of the process (no power loss claimed for the data file)"]
NASTY = ["a,b", 'say "hi"', "x;y", "it's", "p q", "", " ", "1", "nan", "é,", '"', ",,"]


def gen(rng, tier, i):
    if rng.random() < 0.15:
        cfg = campaign.gen_cfg(rng, algs=["MOBO"], models=("stub",), n_obj=rng.choice([2, 2, 3]))
    else:
        cfg = campaign.gen_cfg(rng, models=("stub", "stub", "stub", "rf"))
    for v in cfg["space"]:
        if v["t"] == "cat" and all(isinstance(z, str) for z in v["levels"]) and rng.random() < 0.6:
            v["levels"] = rng.sample(NASTY, min(len(NASTY), len(v["levels"])))
    cfg["aq_FEs"] = 20
    if rng.random() < 0.08:
        cfg = cond.gen_cfg(rng)
        for v in cfg["space"]:
            if v["t"] == "cat" and "None" in v["levels"] or (v.get("cond") or [0, 0])[1] == "None":
                cfg = campaign.gen_cfg(rng, models=("stub",))
                break
    elif rng.random() < 0.2:
        cfg["space"].append({"t": "subset", "name": "sub_x", "levels": ["A", "B", "C"][: rng.choice([2, 3])]})
        cfg["model"] = "stub"
        cfg["doe_only"] = True  # the model-based search does not support subsets
    mix = {"ask": 4, "deliver": 6, "redeliver": 0.4, "foreign": 2, "step": 0 if cfg.get("doe_only") else 1.5, "save": 1.5, "crash": 1.2, "pfail": rng.choice([0, 0.3]), "values": 0.3}
    ops = engine.gen_ops(rng, cfg, rng.randint(5, 14 if tier == "quick" else 30), mix)
    if cfg.get("doe_only"):
        ops = [o for o in ops if o["op"] not in ("ask",)]
    elif rng.random() < 0.7:
        ops = [{"op": "ask", "s": 1}, {"op": "deliver", "s": 2, "pick": [0] * 8}] + ops
    p = rng.choice([0.15, 0.3, 0.5])
    for op in ops:
        if op["op"] in ("deliver", "redeliver", "foreign", "step") and rng.random() < p:
            what = rng.choice(["error", "error", "torn_error", "torn_crash", "torn_crash", "short", "crash", "crash_after"])
            f = {"what": what, "nth": rng.choice([0, 0, 1, 2, 3]), "path": "d.csv"}
            if what == "error":
                f["errno"] = rng.choice(["ENOSPC", "EIO", "EACCES", "EMFILE"])
                if rng.random() < 0.6:
                    f["op"], f["nth"] = rng.choice(["open_w", "write", "close", "open_r"]), 0
            if what in ("torn_crash", "torn_error", "short"):
                f["op"], f["nth"], f["frac"] = "write", 0, round(rng.random(), 3)
                f["errno"] = rng.choice(["ENOSPC", "EIO"])
            op["plan"] = [f]
    pre = rng.choice([None, None, None, None, "old,line,1\n", "old,line,1\nx,y", "h"])
    return {"cfg": cfg, "ops": ops, "pre": pre, "rel": rng.random() < 0.4}


def decode(v, text):
    t = v["t"]
    if v.get("cond") and text == "None":  # not active
        return None
    if t == "real":
        return float(text)
    if t == "int":
        return int(text)
    if t == "bool":
        return {"True": True, "False": False}[text]
    if t == "subset":
        for s in world.subsets(v["levels"]):
            if str(s) == text:
                return s
        raise ValueError(text)
    for lv in v["levels"]:
        if str(lv) == text:
            return lv
    raise ValueError(text)


class Mixin:
    def setup(self, sc):
        self.segs = []  # ("ack"|"maybe"|"pre", rows)
        self.d = disk.DISK
        if sc.get("pre"):
            self.segs.append(("pre", sc["pre"]))

    # ------------------------------------------------------------------ running an operation under faults
    def armed(self, op, fn, what):
        """-> (exception|None, crashed, faults that hit)"""
        self.d.arm(op.get("plan") or [])
        crashed, err = False, None
        try:
            fn()
        except core.SimCrash:
            crashed = True
        except Exception as e:  # noqa
            err = e
        hits = self.d.fired()
        self.d.disarm()
        self.ctx.event(self.tag, what, "crash" if crashed else type(err).__name__ if err else "ok", [f["what"] for f in hits])
        return err, crashed, hits

    def finish(self, pts, fits, err, crashed, hits, what, op):
        from bayes_optim.utils.exception import FlatFitnessError

        rows = [(list(p), tuple(f)) for p, f in zip(pts, fits) if all(math.isfinite(z) for z in f)]
        if crashed:
            self.segs.append(("maybe", rows))
            self.ctx.probe("crash_in_append")
            self.do_crash(op)
            return
        if err is None:
            self.segs.append(("ack", rows))
            self.ctx.probe("acknowledged_lines", len(rows))
            self.ref.iters += 1
        else:
            self.segs.append(("maybe", rows))
            self.ctx.probe("append_failed" if hits else "flat")
            if not hits and not (isinstance(err, FlatFitnessError) and self.flat(self.ref.rows + rows)):
                raise Violation("unexpected-" + type(err).__name__, f"{what} raised {err} without any fault at {core.short_tb(err)}")
        self.resync()

    def resync(self):
        self.ref.rows = [(list(v), tuple(f)) for v, f in rows_of(self.opt, self.n_obj)]

    def report(self, pts, fits, op, expect_error=None):
        X, y = self.message(pts, op), self.fits_arg(fits, op)
        self.sent.append((copy.deepcopy(pts), copy.deepcopy(fits)))
        err, crashed, hits = self.armed(op, lambda: self.opt.tell(X, y), "tell")
        self.finish(pts, fits, err, crashed, hits, "tell", op)

    def do_step(self, op):
        marks = [len(o.log) for o in self.objs]
        for o, m in zip(self.objs, marks):
            o.faults = {m + int(j): k for j, k in (op.get("fail") or {}).items() if k != "raise"}
        err, crashed, hits = self.armed(op, self.opt.step, "step")
        for o in self.objs:
            o.faults = {}
        logs = [o.log[m:] for o, m in zip(self.objs, marks)]
        if err is not None and campaign.is_expected_empty(err) and not any(logs):
            return
        pts = [e[0] for e in logs[0]]
        fits = [tuple(lg[i][1] for lg in logs) for i in range(len(pts))]
        self.finish(pts, fits, err, crashed, hits, "step", op)

    def do_crash(self, op):
        self.d.crashed = True
        self.opt, cls = None, type(self.opt)
        core.reset_logging()
        self.d.reboot()
        self.ctx.fault("process_crash")
        if self.snap is None:
            self.ref = campaign.Ref()
            self.ref.trace = []
            self.build()
        else:
            self.tried_ok = False
            self.opt = cls.load(self.path())
            self.ref = copy.deepcopy(self.snap)
            self.ctx.probe("restores")
        self.ctx.event(self.tag, "restart", len(self.ref.rows))

    # ------------------------------------------------------------------ the oracle
    def check(self):
        if not self.d.exists("d.csv"):
            if any(k == "ack" and rows for k, rows in self.segs) or any(k == "pre" for k, _ in self.segs):
                raise Violation("data-file-missing", "evaluations were acknowledged but the data file does not exist")
            return
        text = self.d.read("d.csv").decode("utf-8", "replace")
        torn = any(k == "maybe" for k, _ in self.segs)
        pre = next((r for k, r in self.segs if k == "pre"), "")
        if not text.startswith(pre):
            raise Violation("earlier-content-lost", f"the file began with {pre!r}, now with {text[:60]!r}")
        text = text[len(pre) :]
        if text and pre and not pre.endswith("\n"):
            if not text.startswith("\n"):
                raise Violation("line-not-its-own", f"appended {text[:40]!r} to the unfinished line {pre!r}")
        lines = [ln for ln in text.split("\n")]
        unfinished = lines.pop() if lines else ""
        if unfinished and not ([k for k, r in self.segs if r] or [""])[-1] == "maybe":
            raise Violation("line-unfinished", f"the last line {unfinished!r} has no end although its report was acknowledged")
        if unfinished:
            lines.append(unfinished)
        lines = [ln for ln in lines if ln.strip("\r")]
        if torn:
            recs = []
            for ln in lines:
                try:
                    r = list(csv.reader([ln]))
                except csv.Error:
                    r = []
                recs.append(r[0] if len(r) == 1 else None)
        else:
            try:
                recs = [r for r in csv.reader(text.splitlines(True)) if r]
            except csv.Error as e:
                raise Violation("not-parseable", f"{e}: {text[:200]!r}")
        segs = [(k, r) for k, r in self.segs if k != "pre"]
        bad = match(segs, recs, self.parse)
        if bad:
            raise Violation(bad[0], bad[1] + f"; file: {[ln[:120] for ln in lines[-6:]]}")

    def parse(self, rec):
        """-> canonical text of (values, objective values) | None"""
        d = len(self.sp)
        if rec is None or len(rec) < d + self.n_obj:
            return None
        try:
            off = len(rec) - self.n_obj - 1 - d  # label in front, number of evaluations before the objectives
            vals = [decode(v, rec[off + j]) for j, v in enumerate(self.sp)]
            f = [float(z) for z in rec[-self.n_obj :]]
        except (ValueError, KeyError, IndexError):
            return None
        return core.canon([vals, f])


class C(Mixin, engine.Campaign):
    pass


class CC(Mixin, cond.CondCampaign):
    def judge_order(self, x, fixed=None):
        pass


def match(segs, recs, parse):
    """can the records be explained by the segments?  -> None | (class, message)"""
    got = [parse(r) for r in recs]
    want = [[core.canon([v, list(f)]) for v, f in rows] for _, rows in segs]
    n = len(got)
    ends = {0}  # positions reachable after the segments so far
    for (kind, rows), w in zip(segs, want):
        nxt = set()
        for p in ends:
            if kind == "ack":
                if got[p : p + len(w)] == w:
                    nxt.add(p + len(w))
            else:
                # Python's buffers may try a failed write once more, gluing the second attempt to the
                # torn end of the first: lines of its own, at most two of them spoiled
                own, front = set(w), {(p, 0)}
                for _ in range(2 * len(w) + 2):
                    for q, junk in list(front):
                        if q < n and got[q] in own:
                            front.add((q + 1, junk))
                        if q < n and w and junk < 2:
                            front.add((q + 1, junk + 1))
                nxt |= {q for q, _ in front}
        if not nxt:
            p = max(ends)
            miss = next((z for j, z in enumerate(w) if p + j >= n or got[p + j] != z), w[0] if w else "")
            return ("record-missing", f"the evaluation {miss} of an acknowledged report cannot be read from the file where it belongs (records {p}..{p + len(w)} of {n})")
        ends = nxt
    if n not in ends:
        return ("unexpected-record", f"{n} records, {max(ends)} can be accounted for; surplus {recs[max(ends)]}")
    return None


def run(sc, ctx):
    d = disk.install(disk.Disk(ctx.scratch))
    p = os.path.join(ctx.scratch, "d.csv")
    if sc.get("pre"):
        with open(p, "w") as f:
            f.write(sc["pre"])
    d.active = True
    cp = (CC if sc["cfg"]["alg"] == "ConditionalBO" else C)(sc["cfg"], ctx, extra={"data_file": "d.csv" if sc.get("rel") else p})
    cp.setup(sc)
    d.checkpoint_durable()
    for op in sc["ops"]:
        cp.do(op)
    return None


def nontrivial(r):
    f = r["faults"]
    return bool(r["probes"].get("acknowledged_lines")) and any(k.startswith("disk_") or k == "process_crash" for k in f)
