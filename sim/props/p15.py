"""P15: the daemon's pid file and process agree."""
import os
import signal
import sys
import time

from .. import core, osim
from ..core import Violation

RUNS = {"quick": 4000, "thorough": 60000}
RULE = "non-trivial: a daemon was started and then stopped, killed, ended, restarted or started again, or met a stale or garbled pid file or a failing system call."
REAL = ["bayes_optim.utils.Daemon"]
STUB = ["operating system: fork, kill, signals, exit handlers, pids, /proc, time and the files' system calls are those of a simulated machine; simulated processes are threads run one at a time"]
ASSUME = [
    "the user issues one start/stop/restart at a time and waits until it is done (status queries and the daemons run concurrently); simultaneous starts are not covered",
    "process ids are not reused while a stale pid file exists",
]
GARBAGE = ["", "\n", "abc", "12x4", "-1", "-1\n", "0", "-7", "99999999999999999999999", "4194999", "1e5", "None", "\x00\x00", "3.5", "  \n\n", "1 2", "--5", "0x1F", "2147483648", "-99999999999999999999"]


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2])
    ops = []
    for _ in range(rng.randint(3, 9 if tier == "quick" else 20)):
        o = rng.choice(["start", "start", "start", "stop", "stop", "restart", "status", "status", "kill9", "end", "garble", "wait", "steal", "stale"])
        op = {"op": o, "d": rng.randrange(n)}
        if o in ("start", "restart"):
            op["run"] = rng.choice(["loop", "loop", "loop", "slow", "slow", "ignore", "finish", "raise", "refork", "cleanup"])
            op["k"] = rng.choice([0, 1, 3, 5, 12])
            if rng.random() < 0.2:
                op["fault"] = {"call": rng.choice(["fork", "fork", "open_w", "write"]), "nth": rng.choice([0, 0, 1]), "errno": rng.choice(["EAGAIN", "ENOMEM"]) if rng.random() < 0.5 else "ENOSPC"}
        if o == "stop" and rng.random() < 0.15:
            op["eperm"] = True
        if o in ("start", "stop", "restart") and rng.random() < 0.4:
            op["status"] = rng.choice([1, 2, 3])
        if o == "garble":
            op["text"] = rng.choice(GARBAGE)
        if o == "steal":
            op["text"] = rng.choice(["pid", "pid", "text", "space"])
        if o == "end":
            op["how"] = rng.choice(["TERM", "INT", "HUP"])
        if o == "wait":
            op["dt"] = rng.choice([0.05, 0.5, 3.0])
        ops.append(op)
    if rng.random() < 0.7:
        ops.insert(0, {"op": "start", "d": 0, "run": rng.choice(["loop", "slow", "ignore", "refork", "cleanup", "finish"]), "k": rng.choice([0, 1, 3, 5, 12])})
    return {"n": n, "ops": ops, "rel": rng.random() < 0.2, "verbose": rng.choice([0, 1]), "first": rng.choice([2, 500, 4_000_000])}


def make_class():
    from bayes_optim.utils import Daemon

    class SimDaemon(Daemon):
        plan = {}

        def run(self):
            p, o = osim.LOCAL.proc, osim.OS_
            if p.pos >= len(p.replay):
                p.in_run = self.which
            how, k = self.plan.get("run", "loop"), self.plan.get("k", 0)
            if how == "ignore":
                signal.signal(signal.SIGTERM, signal.SIG_IGN)
            if how == "refork":
                time.sleep(0.01 * k)
                if os.fork() == 0:
                    p = osim.LOCAL.proc
                    p.in_run, p.kind = None, "worker"
                    time.sleep(0.03)
                    sys.exit(0)
            n = 0
            try:
                while True:
                    time.sleep(0.3)
                    n += 1
                    if how == "finish" and n > 5 + k:
                        return
                    if how == "raise" and n > 5 + k:
                        raise RuntimeError("the daemon's own error")
            except SystemExit:
                if how == "slow":  # it takes a while to finish the current work
                    stop_at = o.now + 0.25 * k
                    while o.now < stop_at:
                        try:
                            time.sleep(0.1)
                        except SystemExit:
                            pass
                raise
            finally:
                if how == "cleanup":
                    for _ in range(k):
                        try:
                            time.sleep(0.02)
                        except SystemExit:
                            pass

    return SimDaemon


def do_start(d):
    return d.start()


def do_stop(d):
    return d.stop()


def do_restart(d):
    return d.restart()


def do_status(d):
    return d.is_running()


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.os = osim.OS(ctx, sc["first"])
        import bayes_optim.utils._daemon as m

        osim.install(self.os, [m])
        self.cls = make_class()
        self.by = [self.os.bystander(), self.os.bystander(), self.os.bystander(foreign=True)]
        self.rec = [None] * sc["n"]  # the live, recorded daemon process
        self.odd = [False] * sc["n"]  # its pid file was overwritten by somebody else

    def path(self, d):
        return os.path.join(self.ctx.scratch, f"d{d}.pid")

    def text(self, d):
        try:
            with open(self.path(d), "rb") as f:
                return f.read().decode("latin1")
        except FileNotFoundError:
            return None

    def put(self, d, text):
        with open(self.path(d), "w") as f:
            f.write(text)

    def daemon(self, d, plan=None):
        x = self.cls(self.path(d) if not self.sc["rel"] else f"d{d}.pid", home_dir=".", verbose=self.sc["verbose"])
        x.which, x.plan = d, plan or {}
        return x

    def daemons(self, d):
        return [p for p in self.os.procs.values() if p.alive() and p.in_run == d]

    def quiet(self, extra=()):
        """only daemons in their main loop (and bystanders) are left"""
        return all(not p.alive() or p.fn is None or p.in_run is not None and p.state == "sleeping" and not p.pending and not p.killed for p in self.os.procs.values())

    def truth(self, d):
        t = self.text(d)
        try:
            pid = int((t or "").strip())
        except ValueError:
            return False
        return pid > 0 and self.os.live(pid)

    def command(self, fn, d, op, what):
        """a command line: its own process, next to the running daemons"""
        k0, f0 = len(self.os.kills), self.os.forks
        seen = {True: False, False: False}
        p = self.os.spawn(fn, self.daemon(d, {k: op[k] for k in ("run", "k") if k in op}), cwd=self.ctx.scratch)
        fired = []
        fault = op.get("fault")
        if fault:
            self.os.faults[fault["call"]] = {"nth": fault["nth"], "errno": fault["errno"], "fired": fired, "pid": lambda q: q.root == p.pid}
        asks = []
        if op.get("status"):
            # status queries while the command is under way
            done = [op["status"]]

            def cond():
                for a in asks:
                    if a[0].alive():
                        a[1].add(self.truth(d))
                if done[0] and self.ctx.sched.random() < 0.1:
                    done[0] -= 1
                    asks.append((self.os.spawn(do_status, self.daemon(d), kind="status", cwd=self.ctx.scratch), {self.truth(d)}))
                return not p.alive() and self.quiet()

        else:

            def cond():
                return not p.alive() and self.quiet()

        ok = self.os.run_until(cond)
        self.os.faults.clear()
        if not ok:
            raise Violation("never-finishes", f"{what} has not come to an end; {len(self.os.kills) - k0} signals sent, time {self.os.now:.1f} s")
        for q, truths in asks:
            if q.crash is not None or not isinstance(q.result, bool):
                raise Violation("status-crashed", f"{q.crash!r} {q.result!r} during {what}")
            truths.add(self.truth(d))
            if q.result not in truths:
                raise Violation("wrong-status", f"during {what} the status query says running={q.result}, at no time was that so")
            self.ctx.probe("status_concurrent")
        for q in self.os.procs.values():
            if q.kind == "user" and q.crash is not None and not (q.in_run is not None and "the daemon's own" in str(q.crash)) and not getattr(q, "blamed", False):
                q.blamed = True
                if not fired:
                    raise Violation("crashed", f"{what}: {type(q.crash).__name__}: {q.crash} at {core.short_tb(q.crash)}")
        return p, self.os.kills[k0:], self.os.forks - f0, fired

    def judge_kills(self, kills, pid, what):
        for _, target, sig, _ in kills:
            if target != pid:
                raise Violation("other-process-signalled", f"{what} sent signal {sig} to process {target}, the recorded daemon is {pid}")

    def invariant(self, what):
        for b in self.by:
            if not b.alive():
                raise Violation("other-process-signalled", f"{what}: bystander {b.pid} was killed")
        for d in range(self.sc["n"]):
            live = self.daemons(d)
            rec = self.rec[d]
            if rec is not None and not rec.alive():
                raise Violation("daemon-died", f"{what}: daemon {d} (pid {rec.pid}) is gone")
            if [p for p in live if p is not rec]:
                raise Violation("unrecorded-daemon", f"{what}: processes {[p.pid for p in live]} are running, recorded {rec.pid if rec else None}")
            if rec is not None and not self.odd[d] and (self.text(d) or "").strip() != str(rec.pid):
                raise Violation("pidfile-disagrees", f"{what}: daemon {d} has pid {rec.pid}, its pid file says {self.text(d)!r}")

    def catch_up(self):
        """daemons that ended by themselves"""
        for d, p in enumerate(self.rec):
            if p is not None and not p.alive():
                how = p.arg0.plan.get("run")
                if how not in ("finish", "raise"):
                    raise Violation("daemon-died", f"daemon {d} (pid {p.pid}) is gone")
                self.ended(d, f"daemon {d} ended by itself ({how})")

    def ended(self, d, what):
        p = self.rec[d]
        self.rec[d] = None
        if self.odd[d]:
            if self.text(d) != self.odd[d]:
                raise Violation("foreign-pidfile-removed", f"{what}: the pid file {self.odd[d]!r}, not its own, became {self.text(d)!r}")
            self.odd[d] = False
            os.remove(self.path(d))
        elif self.text(d) is not None:
            raise Violation("pidfile-left", f"{what}: its pid file is still there: {self.text(d)!r}")

    # ------------------------------------------------------------------ operations
    def do(self, op):
        self.ctx.step()
        d = op["d"]
        self.catch_up()
        getattr(self, "do_" + op["op"])(op, d)
        self.catch_up()
        self.invariant(str(op))
        self.ctx.event("state", [[p.pid if p else None, self.text(k)] for k, p in enumerate(self.rec)])

    def do_start(self, op, d):
        rec, before = self.rec[d], self.text(d)
        if self.odd[d]:
            return
        p, kills, forks, fired = self.command(do_start, d, op, "start")
        self.judge_kills(kills, None, "start")
        new = [q for q in self.daemons(d) if q is not rec]
        if rec is not None and rec.alive():
            if new or p.code == 0:
                raise Violation("second-start-accepted", f"daemon {d} runs as {rec.pid}; a second start exits with {p.code} and leaves processes {[q.pid for q in new]}")
            self.ctx.probe("second_start_refused")
            return
        if rec is not None:
            self.rec[d] = None
            return
        self.settle_start(op, d, p, before, new, fired, "start")

    def settle_start(self, op, d, p, before, new, fired, what):
        if fired:
            self.ctx.probe("start_failed")
            if len(new) > 1:
                raise Violation("several-daemons", f"{[q.pid for q in new]}")
            if new:
                self.rec[d] = new[0]
            return
        if before is not None and before.strip().isdigit() and not new and p.code not in (0, None):
            self.ctx.probe("stale_start_refused")
            if self.text(d) != before:
                raise Violation("pidfile-disagrees", f"refused start changed the pid file {before!r} to {self.text(d)!r}")
            return
        if len(new) != 1:
            raise Violation("not-started", f"{what} (pid file before: {before!r}) leaves {len(new)} running processes, exit code {p.code}")
        self.rec[d] = new[0]
        self.ctx.probe("started")
        if (self.text(d) or "").strip() != str(new[0].pid):
            raise Violation("pidfile-disagrees", f"after {what} process {new[0].pid} runs, the pid file says {self.text(d)!r}")

    def bound(self, rec, kills, what):
        plan = rec.arg0.plan
        need = {"slow": 0.25 * plan["k"], "cleanup": 0.02 * plan["k"], "ignore": 1.0}.get(plan["run"], 0.0)
        most = 10 + 2 * int(need / 0.1) + 4
        if len(kills) > most:
            raise Violation("too-many-signals", f"{what} sent {len(kills)} signals to a daemon that needs {need} s to end")

    def do_stop(self, op, d):
        rec = self.rec[d]
        if self.odd[d]:
            return
        if op.get("eperm") and rec is not None:
            return self.stop_by_other(op, d)
        p, kills, _, _ = self.command(do_stop, d, op, "stop")
        self.judge_kills(kills, rec.pid if rec else None, "stop")
        if rec is not None:
            if rec.alive():
                raise Violation("not-stopped", f"after stop, daemon {d} (pid {rec.pid}) is still running")
            self.bound(rec, kills, "stop")
            self.ctx.probe("stopped")
            self.rec[d] = None
            if self.text(d) is not None:
                raise Violation("pidfile-left", f"after stop the pid file is still there: {self.text(d)!r}")
            if p.code != 0:
                raise Violation("stop-failed", f"stop exits with {p.code}")
        else:
            self.ctx.probe("stop_without_daemon")

    def stop_by_other(self, op, d):
        """a user who may not signal the daemon tries to stop it"""
        rec, before = self.rec[d], self.text(d)
        self.ctx.fault("kill_EPERM")
        self.os.protected.add(rec.pid)
        p, kills, _, _ = self.command(do_stop, d, op, "stop")
        self.os.protected.discard(rec.pid)
        if kills:
            raise Violation("other-process-signalled", f"stop sent {kills}")
        if rec.alive() and self.text(d) != before:
            raise Violation("pidfile-disagrees", f"stop may not signal daemon {rec.pid}, which runs on; the pid file {before!r} became {self.text(d)!r}")

    def do_restart(self, op, d):
        rec, before = self.rec[d], self.text(d)
        if self.odd[d]:
            return
        p, kills, _, fired = self.command(do_restart, d, op, "restart")
        self.judge_kills(kills, rec.pid if rec else None, "restart")
        if rec is not None:
            if rec.alive():
                raise Violation("not-stopped", f"after restart, the old daemon {d} (pid {rec.pid}) is still running")
            self.bound(rec, kills, "restart")
            self.rec[d] = None
        new = [q for q in self.daemons(d) if q is not rec]
        self.settle_start(op, d, p, None if rec is not None else before, new, fired, "restart")
        self.ctx.probe("restarted")

    def do_status(self, op, d):
        truth = self.truth(d)
        p, kills, _, _ = self.command(do_status, d, op, "status")
        if kills:
            raise Violation("other-process-signalled", f"the status query sent {kills}")
        if self.rec[d] is not None and not self.rec[d].alive():
            return
        if p.result is not truth:
            raise Violation("wrong-status", f"the status query says running={p.result}, pid file {self.text(d)!r}, daemon {self.rec[d].pid if self.rec[d] else None}")
        self.ctx.probe("status")

    def do_kill9(self, op, d):
        if self.rec[d] is None or self.odd[d]:
            return
        self.ctx.fault("daemon_killed")
        p, self.rec[d] = self.rec[d], None
        self.os.send(p, signal.SIGKILL)
        self.os.run_until(lambda: not p.alive() and self.quiet())

    def do_end(self, op, d):
        p = self.rec[d]
        if p is None:
            return
        how = p.arg0.plan.get("run")
        if op["how"] == "HUP" or how == "ignore" and op["how"] == "TERM":
            return
        self.ctx.fault("daemon_signalled")
        self.os.send(p, getattr(signal, "SIG" + op["how"]))
        if not self.os.run_until(lambda: not p.alive() and self.quiet()):
            raise Violation("not-ended", f"daemon {d} does not end upon {op['how']}")
        self.ended(d, f"daemon {d} received {op['how']}")

    def do_garble(self, op, d):
        if self.rec[d] is None:
            self.ctx.fault("pidfile_garbled")
            self.put(d, op["text"])

    def do_stale(self, op, d):
        """the machine crashed with the daemon running: a pid file of a process long gone"""
        if self.rec[d] is None:
            self.ctx.fault("pidfile_stale")
            self.put(d, f"{self.os.next_pid + 100000}\n")

    def do_steal(self, op, d):
        """another program writes its own pid to the file while the daemon runs"""
        if self.rec[d] is not None and not self.odd[d]:
            self.ctx.fault("pidfile_overwritten")
            self.odd[d] = {"pid": f"{self.by[0].pid}\n", "text": "abc\n", "space": "  \n"}[op.get("text", "pid")]
            self.put(d, self.odd[d])

    def do_wait(self, op, d):
        t = self.os.now + op["dt"]
        self.os.run_until(lambda: self.os.now >= t and self.quiet())
        self.ctx.now += op["dt"]


def run(sc, ctx):
    w = World(sc, ctx)
    for op in sc["ops"]:
        w.do(op)
    ctx.probe("simulated_ms", int(w.os.now * 1000))
    return {"state": [[p.pid if p else None, w.text(k)] for k, p in enumerate(w.rec)]}


def nontrivial(r):
    p = r["probes"]
    return bool(p.get("started")) and bool(r["faults"] or p.get("stopped") or p.get("restarted") or p.get("second_start_refused"))
