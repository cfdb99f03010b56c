"""Seeded search over scenarios: generate, run each in a forked child, judge, minimise, report."""
import argparse
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("BOSIM_REPO", "/repo")
RUN_TIMEOUT = 150.0
real_time = time.time
real_sleep = time.sleep


# ------------------------------------------------------------------------------ code under test
def load_target():
    """import the code under test from the working tree, never from cached byte code"""
    import importlib.machinery as im

    orig = im.SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path.startswith(REPO + os.sep):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    im.SourceFileLoader.get_code = get_code
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import bayes_optim  # noqa
    import bayes_optim.bayes_opt  # noqa
    import bayes_optim.extension  # noqa
    import bayes_optim.utils._daemon  # noqa

    got = os.path.realpath(bayes_optim.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"bayes_optim imported from {got}")
    import dill  # noqa
    import joblib  # noqa
    import scipy.stats  # noqa

    from . import campaign, core, disk, par, world  # noqa

    core.note_loggers()


def load_prop(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


# ------------------------------------------------------------------------------ one run, in a child
def _child(prop, variant, scratch, out_fd):
    from . import core, par

    mod = load_prop(prop)
    res = {}
    ctx = None
    try:
        import warnings

        import numpy as np

        # importing the package turns warnings into errors; a user may or may not undo that
        if variant.get("warn") == "ignore":
            warnings.simplefilter("ignore")
        random.seed(0)
        np.random.seed(0)
        ctx = core.set_ctx(core.Ctx(variant, scratch))
        core.install_clock()
        core.install_entropy()
        core.fast_norm()
        par.install()
        ctx.now = ctx.t0
        out = mod.run(variant, ctx)
        res = {"ok": True, "out": out}
    except core.Violation as e:
        res = {"violation": {"cls": e.cls, "msg": e.msg[:2000]}}
    except core.SimHang as e:
        res = {"violation": {"cls": "hang", "msg": str(e), "tb": core.short_tb(e)}}
    except core.HarnessError as e:
        res = {"harness": f"{e}\n{traceback.format_exc()}"}
    except core.SimCrash as e:
        res = {"harness": f"stray simulated crash {e}\n{traceback.format_exc()}"}
    except BaseException as e:  # noqa
        res = {"violation": {"cls": "unexpected-" + type(e).__name__, "msg": f"{e} at {core.short_tb(e, 8)}"[:2000]}}
    if ctx is not None:
        try:
            res.update(
                digest=ctx.digest(),
                faults=ctx.faults,
                probes=ctx.probes,
                steps=ctx.steps,
                simtime=max(0.0, ctx.now - ctx.t0) if ctx.clock_mode == "steady" else 0.0,
                inter=ctx.interleaving.hexdigest() if ctx.n_sched else "",
                nsched=ctx.n_sched,
                nevents=len(ctx.events),
                trace=[core.canon(list(e))[:300] for e in ctx.events[-400:]] if variant.get("want_trace") else None,
            )
        except BaseException as e:  # noqa
            res.setdefault("harness", repr(e))
    data = json.dumps(res, default=str).encode()
    try:
        os.write  # the disk layer may have replaced it; use the real one
        from . import disk

        w = disk.R.get("os.write", os.write)
        while data:
            n = w(out_fd, data)
            data = data[n:]
    finally:
        os._exit(0)


def run_variant(prop, variant, scratch):
    """fork a child for one simulated execution; -> result dict"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(dn, fd)
            os.setpgid(0, 0)
            os.chdir(scratch)
            _child(prop, variant, scratch, w)
        finally:
            os._exit(3)
    os.close(w)
    chunks, t0 = [], real_time()
    timed_out = False
    while True:
        left = RUN_TIMEOUT - (real_time() - t0)
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    if timed_out:
        return {"timeout": True}
    try:
        return json.loads(b"".join(chunks))
    except Exception:
        return {"died": True}


# ------------------------------------------------------------------------------ alternate interpreter
class Alt:
    """a second interpreter with another string-hash seed, running variants on request"""

    def __init__(self, hashseed):
        self.a, b = socket.socketpair()
        env = dict(os.environ, BOSIM_HASHSEED=str(hashseed), PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(VERIF, "check.py"), "serve", str(b.fileno())],
            env=env,
            pass_fds=[b.fileno()],
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
        )
        b.close()

    def run(self, prop, variant, scratch):
        send(self.a, {"prop": prop, "variant": variant, "scratch": scratch})
        return recv(self.a)

    def close(self):
        try:
            self.a.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()


def send(s, obj):
    b = json.dumps(obj).encode()
    s.sendall(struct.pack("!I", len(b)) + b)


def recv(s):
    def need(n):
        out = b""
        while len(out) < n:
            b = s.recv(n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    return json.loads(need(struct.unpack("!I", need(4))[0]))


def serve(fd):
    load_target()
    gc.collect()
    gc.freeze()
    s = socket.socket(fileno=int(fd))
    while True:
        try:
            req = recv(s)
        except EOFError:
            return 0
        send(s, run_variant(req["prop"], req["variant"], req["scratch"]))


# ------------------------------------------------------------------------------ one scenario
def run_scenario(prop, scenario, base, alt=None):
    """execute all variants of a scenario and judge them -> result"""
    mod = load_prop(prop)
    plan = mod.plan(scenario) if hasattr(mod, "plan") else [("main", scenario)]
    scratch = tempfile.mkdtemp(prefix="run", dir=base)
    results = []
    try:
        for where, variant in plan:
            for attempt in range(2):
                res = alt.run(prop, variant, scratch) if where == "alt" and alt else run_variant(prop, variant, scratch)
                if not res.get("timeout") and not res.get("died"):
                    break
            if res.get("timeout"):
                res = {"violation": {"cls": "hang", "msg": f"no end within {RUN_TIMEOUT:.0f} s (twice)"}}
            elif res.get("died"):
                res = {"violation": {"cls": "interpreter-died", "msg": "the process of the simulated run died (twice)"}}
            results.append(res)
            if "violation" in res or "harness" in res:
                break
        total = merge(results)
        if "violation" not in total and "harness" not in total and hasattr(mod, "judge"):
            v = mod.judge(scenario, [r.get("out") for r in results])
            if v:
                total["violation"] = {"cls": v[0], "msg": v[1][:2000]}
        return total
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def merge(results):
    t = {"faults": {}, "probes": {}, "steps": 0, "simtime": 0.0, "nsched": 0, "runs": len(results), "nevents": 0}
    d, inter = hashlib.sha1(), hashlib.sha1()
    for r in results:
        for k in ("faults", "probes"):
            for n, c in (r.get(k) or {}).items():
                t[k][n] = t[k].get(n, 0) + c
        for k in ("steps", "simtime", "nsched", "nevents"):
            t[k] += r.get(k) or 0
        d.update((r.get("digest") or "").encode())
        inter.update((r.get("inter") or "").encode())
        for k in ("violation", "harness"):
            if k in r and k not in t:
                t[k] = r[k]
        if r.get("trace"):
            t.setdefault("trace", []).append(r["trace"])
    t["digest"] = d.hexdigest()
    t["inter"] = inter.hexdigest() if t["nsched"] else ""
    return t


def make(prop, seed, i, tier):
    mod = load_prop(prop)
    rng = random.Random(f"{prop}/{seed}/{i}")
    sc = mod.gen(rng, tier, i)
    sc.setdefault("seed", rng.getrandbits(40))
    sc.setdefault("warn", "ignore" if rng.random() < 0.3 else "import")
    return json.loads(json.dumps(sc))


# ------------------------------------------------------------------------------ minimisation
def minimise(prop, scenario, viol, base, alt, budget=60.0):
    mod = load_prop(prop)
    t_end = real_time() + budget
    tried = 0
    cls = viol["cls"]
    best, bestv = scenario, viol

    def fails(sc):
        nonlocal tried
        tried += 1
        try:
            r = run_scenario(prop, sc, base, alt)
        except Exception:
            return None
        v = r.get("violation")
        return v if v and v["cls"] == cls else None

    improved = True
    while improved and real_time() < t_end:
        improved = False
        ops = best.get("ops", [])
        n = max(1, len(ops) // 2)
        while n >= 1 and real_time() < t_end:
            i = 0
            while i < len(best.get("ops", [])) and real_time() < t_end:
                c = copy.deepcopy(best)
                del c["ops"][i : i + n]
                v = fails(c)
                if v:
                    best, bestv, improved = c, v, True
                else:
                    i += n
            n //= 2
        for c in list(mod.simpler(best)) if hasattr(mod, "simpler") else list(simpler(best)):
            if real_time() > t_end:
                break
            v = fails(c)
            if v:
                best, bestv, improved = c, v, True
                break
    return best, bestv, tried


def simpler(sc):
    """generic simplifications of a scenario"""
    for i, op in enumerate(sc.get("ops", [])):
        for k in list(op):
            if k in ("faults", "fixed", "dup", "plan") and op[k]:
                c = copy.deepcopy(sc)
                c["ops"][i].pop(k)
                yield c
        if op.get("n", 0) and isinstance(op.get("n"), int) and op["n"] > 1:
            c = copy.deepcopy(sc)
            c["ops"][i]["n"] = 1
            yield c
    cfg = sc.get("cfg")
    if isinstance(cfg, dict):
        for k, v in (("model", "stub"), ("n_job", 1), ("eval_type", "list"), ("alg", "BO"), ("minimize", True), ("obj", "bowl"), ("obj_scale", 1.0), ("obj_shift", 0.0)):
            if k in cfg and cfg[k] != v:
                c = copy.deepcopy(sc)
                c["cfg"][k] = v
                if k == "alg":
                    c["cfg"]["n_point"] = 1
                    c["cfg"].pop("acq", None)
                yield c


# ------------------------------------------------------------------------------ a check
def known_findings(prop):
    """entries of known-findings.json that are still open: {"property","cls","match","what"}"""
    try:
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            return [e for e in json.load(f)["open"] if e["property"] == prop]
    except FileNotFoundError:
        return []


def matches(entry, viol):
    return entry["cls"] == viol["cls"] and entry.get("match", "") in viol["msg"]


def worker(prop, seed, tier, idx, base, fd, alt, t_end):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    out = os.fdopen(fd, "w", buffering=1)
    for i in idx:
        if real_time() > t_end:
            out.write(json.dumps({"i": i, "skipped": True}) + "\n")
            continue
        try:
            sc = make(prop, seed, i, tier)
            res = run_scenario(prop, sc, base, alt)
        except BaseException as e:  # noqa
            res = {"harness": f"{e!r}\n{traceback.format_exc()}"}
        res.pop("trace", None)
        res["i"] = i
        out.write(json.dumps(res) + "\n")
    out.close()
    os._exit(0)


def check(prop, tier, seed, runs=None, jobs=None, start=0, quiet=False, want_results=False):
    t0 = real_time()
    jobs = jobs or min(8, os.cpu_count() or 8)
    mod = load_prop(prop)
    alts = []
    if getattr(mod, "ALT", False):
        alts = [Alt(1000 + 7 * w) for w in range(jobs)]
    load_target()
    if hasattr(mod, "prepare"):
        mod.prepare()
    gc.collect()
    gc.freeze()
    runs = runs or mod.RUNS[tier]
    cap = float(os.environ.get("BOSIM_CAP", getattr(mod, "CAP", {}).get(tier, 420 if tier == "quick" else 20000)))
    t_end = t0 + cap
    base = tempfile.mkdtemp(prefix=f"bosim-{prop}-")
    procs, fds = [], {}
    results, viols, harness, skipped = [], [], [], 0
    known = known_findings(prop)
    hit = {}
    try:
        for w in range(jobs):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for q in fds:
                    os.close(q)
                try:
                    worker(prop, seed, tier, range(start + w, start + runs, jobs), base, wfd, alts[w] if alts else None, t_end)
                finally:
                    os._exit(4)
            os.close(wfd)
            procs.append(pid)
            fds[r] = b""
        live = set(fds)
        stop = False
        while live and not stop:
            ready, _, _ = select.select(list(live), [], [], 30)
            for r in ready:
                b = os.read(r, 1 << 16)
                if not b:
                    live.discard(r)
                    continue
                fds[r] += b
                *lines, fds[r] = fds[r].split(b"\n")
                for ln in lines:
                    res = json.loads(ln)
                    if res.get("skipped"):
                        skipped += 1
                        continue
                    results.append(res)
                    if "harness" in res:
                        harness.append(res)
                    elif "violation" in res:
                        e = next((e for e in known if matches(e, res["violation"])), None)
                        if e:
                            hit.setdefault(e["what"], []).append(res["i"])
                        else:
                            viols.append(res)
            if viols and not want_results:
                stop = True
        for pid in procs:
            if stop:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
        for r in fds:
            os.close(r)
        rc = 0
        report = None
        if viols:
            v = min(viols, key=lambda r: r["i"])
            report = publish(prop, tier, seed, v, base, alts[0] if alts else None)
            rc = 1
        if want_results:
            return results
        wall = real_time() - t0
        evidence(prop, tier, seed, mod, results, wall, viols, harness, skipped, report, hit)
        for e in known:
            print(f"KNOWN-FINDING: property={prop} {e['what']} (met in {len(hit.get(e['what'], []))} of {len(results)} runs)")
        nt = sum(1 for r in results if r.get("faults") or r.get("nsched") or r.get("probes"))
        print(f"{prop} {tier} seed={seed}: {len(results)} runs ({nt} non-trivial), {sum(r.get('steps', 0) for r in results)} steps, {wall:.1f} s, violations: {len(viols)}")
        if harness:
            print(f"HARNESS ERROR in run {harness[0]['i']}: {harness[0]['harness']}", file=sys.stderr)
            if rc == 0:
                rc = 2
        if skipped and rc == 0:
            print(f"note: {skipped} runs not started within {cap:.0f} s", file=sys.stderr)
            if len(results) < max(1, runs // 20):
                rc = 2
        if rc == 1:
            print(f"  {report['violation']['cls']}: {report['violation']['msg']}")
            print(f"VIOLATION property={prop} replay={report['path']}")
        return rc
    finally:
        for a in alts:
            a.close()
        shutil.rmtree(base, ignore_errors=True)


def publish(prop, tier, seed, res, base, alt):
    sc = make(prop, seed, res["i"], tier)
    small, v, tried = minimise(prop, sc, res["violation"], base, alt)
    small["want_trace"] = True
    again = run_scenario(prop, small, base, alt)
    trace = again.get("trace")
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    doc = {
        "property": prop,
        "seed": seed,
        "run": res["i"],
        "violation": again.get("violation", v),
        "digest": again.get("digest"),
        "scenario": small,
        "original_ops": len(sc.get("ops", [])),
        "ops": len(small.get("ops", [])),
        "minimiser_runs": tried,
        "reproduced": again.get("violation", {}).get("cls") == v["cls"],
        "trace": trace,
    }
    h = hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    doc["path"] = path
    return doc


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    prop = doc["property"]
    mod = load_prop(prop)
    alt = Alt(1000) if getattr(mod, "ALT", False) else None
    load_target()
    if hasattr(mod, "prepare"):
        mod.prepare()
    base = tempfile.mkdtemp(prefix="bosim-replay-")
    try:
        res = run_scenario(prop, doc["scenario"], base, alt)
    finally:
        if alt:
            alt.close()
        shutil.rmtree(base, ignore_errors=True)
    for t in res.get("trace") or []:
        for line in t:
            print("   ", line)
    v = res.get("violation")
    same = bool(v) and v["cls"] == doc["violation"]["cls"] and res.get("digest") == doc.get("digest")
    print(f"recorded: {doc['violation']['cls']}: {doc['violation']['msg']}")
    print(f"replayed: {v['cls'] + ': ' + v['msg'] if v else 'no violation'}  (same history: {res.get('digest') == doc.get('digest')})")
    if v:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if "harness" in res:
        print(res["harness"], file=sys.stderr)
        return 2
    return 0


def evidence(prop, tier, seed, mod, results, wall, viols, harness, skipped, report, hit):
    faults, probes = {}, {}
    for r in results:
        for src, dst in ((r.get("faults"), faults), (r.get("probes"), probes)):
            for k, n in (src or {}).items():
                dst[k] = dst.get(k, 0) + n
    nontriv = getattr(mod, "nontrivial", lambda r: bool(r.get("faults") or r.get("nsched")))
    distinct = {r.get("digest") for r in results if nontriv(r)}
    sims = sum(r.get("runs", 1) for r in results)
    samples = []
    for r in results[:2]:
        s = make(prop, seed, r["i"], tier)
        samples.append({"run": r["i"], "scenario": json.loads(json.dumps(s))})
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE + "  Distinct: by the SHA-1 of the run's complete event history.",
            "samples": samples,
            "simulated_executions": sims,
            "simulated_executions_per_hour": int(sims / max(wall, 1e-9) * 3600),
            "seeds_per_hour": int(len(results) / max(wall, 1e-9) * 3600),
            "steps": sum(r.get("steps", 0) for r in results),
            "simulated_seconds": round(sum(r.get("simtime", 0) for r in results), 3),
            "history_events": sum(r.get("nevents", 0) for r in results),
            "scheduling_decisions": sum(r.get("nsched", 0) for r in results),
            "distinct_interleavings": len({r.get("inter") for r in results if r.get("inter")}),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "runs_not_started_for_lack_of_time": skipped,
            "harness_errors": len(harness),
            "known_findings_met": {k: len(v) for k, v in hit.items()},
            "real_components": getattr(mod, "REAL", REAL),
            "stubbed_components": getattr(mod, "STUB", STUB),
        },
        "assumptions": getattr(mod, "ASSUME", []) + ASSUME,
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    if report:
        doc["coverage"]["violation"] = {k: report[k] for k in ("violation", "path", "ops", "original_ops", "reproduced")}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)


REAL = [
    "bayes_optim package (all of it, from /repo's working tree)",
    "numpy, scipy, scikit-learn, dill, joblib front end (dispatch, ordering, error propagation)",
    "Python's buffered I/O and logging",
]
STUB = [
    "clock, OS entropy: simulator PRNG",
    "joblib workers, executors, threads: one scheduler in one process",
    "surrogate in part of the runs: small deterministic stand-in with injectable training failures; random forest and Gaussian process in the rest",
    "objective, constraints, evaluation workers: simulator",
    "system calls on files below the scratch directory: interposed (faults, crashes, power loss)",
]
ASSUME = [
    "seeded sampling, not enumeration: a clean batch is evidence, not proof",
    "a simulated run executes on one OS thread; pre-emption happens only at calls that pass through a seam",
]


def determinism(props, seed, runs):
    """every scenario twice: other worker count, other interpreter hash seed; diff the histories"""
    t0 = real_time()
    from . import core  # noqa

    bad = total = 0
    alts = [Alt(4242 + w) for w in range(8)]
    load_target()
    for p in props:
        m = load_prop(p)
        if hasattr(m, "prepare"):
            m.prepare()
    gc.freeze()
    base = tempfile.mkdtemp(prefix="bosim-det-")
    jobs = []
    for p in props:
        for i in range(runs):
            jobs.append((p, i))
    pids = []
    r, w = os.pipe()
    for k in range(8):
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = os.fdopen(w, "w", buffering=1)
            for p, i in jobs[k::8]:
                sc = make(p, seed, i, "quick")
                mod = load_prop(p)
                plan = mod.plan(sc) if hasattr(mod, "plan") else [("main", sc)]
                digs = []
                for rep in range(3):
                    scratch = tempfile.mkdtemp(prefix="run", dir=base)
                    dd = []
                    for where, v in plan:
                        if rep == 2:
                            res = alts[k].run(p, v, scratch)
                        else:
                            res = run_variant(p, v, scratch)
                        dd.append((res.get("digest"), res.get("steps"), res.get("inter"), json.dumps(res.get("violation"))))
                    shutil.rmtree(scratch, ignore_errors=True)
                    digs.append(dd)
                out.write(json.dumps([p, i, digs[0] == digs[1] == digs[2], digs if not digs[0] == digs[1] == digs[2] else None]) + "\n")
            out.close()
            os._exit(0)
        pids.append(pid)
    os.close(w)
    per = {}
    with os.fdopen(r) as f:
        for ln in f:
            p, i, ok, digs = json.loads(ln)
            total += 1
            per.setdefault(p, [0, 0])
            per[p][0] += 1
            if not ok:
                bad += 1
                per[p][1] += 1
                print("DIVERGED", p, i, digs)
    for pid in pids:
        os.waitpid(pid, 0)
    for a in alts:
        a.close()
    shutil.rmtree(base, ignore_errors=True)
    print(json.dumps({"scenarios": total, "executions_each": 3, "diverged": bad, "per_property": per, "wall_s": round(real_time() - t0, 1)}))
    return 1 if bad else 0


def main(argv):
    if argv and argv[0] == "serve":
        return serve(argv[1])
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--props")
    a = ap.parse_args(argv)
    if a.what == "replay":
        return replay(a.file)
    if a.what == "determinism":
        props = a.props.split(",") if a.props else sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "props")) if f.startswith("p") and f[1:3].isdigit())
        return determinism(props, a.seed, a.runs or 60)
    return check(a.what, a.tier, a.seed, a.runs, a.jobs, a.start)
