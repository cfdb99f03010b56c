"""A simulated operating system for process control: fork, signals, pids, pid files, time.

Simulated processes are threads of this process, of which exactly one runs at a time; every system
call is a point where the seeded scheduler may switch.  `fork` re-executes the parent's entry
function in a new simulated process with the recorded results of all its system calls up to the
fork, and returns 0 there.  No real process is ever created or signalled.
"""
import atexit
import builtins
import copy
import errno
import io
import os
import re
import signal
import sys
import threading
import time
import _thread

from . import core

R = {}
LOCAL = threading.local()
PROC = re.compile(r"^/proc/(-?\d+)/?")


class ProcKilled(BaseException):
    """this simulated process is gone"""


class Proc:
    def __init__(self, os_, pid, fn, arg, replay=(), parent=None, kind="user", cwd="."):
        self.os, self.pid, self.fn, self.arg0, self.parent, self.kind = os_, pid, fn, arg, parent, kind
        self.arg = copy.deepcopy(arg)
        self.replay, self.pos, self.log = list(replay), 0, []
        self.handlers, self.atexit = {}, []
        self.fds = {}
        self.state, self.wake, self.pending, self.killed = "ready", 0.0, [], False
        self.cwd = cwd
        self.code = self.crash = None
        self.result = None
        self.in_run = None
        self.root = pid  # the command this process descends from
        self.go = threading.Semaphore(0)

    def alive(self):
        return self.state != "dead"

    def main(self):
        self.go.acquire()
        LOCAL.proc = self
        try:
            try:
                self.result = self.fn(self.arg)
                self.code = 0
            except SystemExit as e:
                self.code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except Exception as e:  # noqa - an uncaught exception ends the process
                self.code, self.crash = 1, e
            while self.atexit:
                f, a, k = self.atexit.pop()
                try:
                    f(*a, **k)
                except SystemExit:
                    pass
                except Exception as e:  # noqa
                    self.crash = self.crash or e
        except ProcKilled:
            self.code = "killed" if self.code is None else self.code
        except BaseException as e:  # noqa - Violation, HarnessError, SimHang: for the scheduler
            self.os.failure = e
        self.state = "dead"
        self.os.back.release()


class OS:
    def __init__(self, ctx, first_pid=1000):
        self.ctx, self.procs, self.now, self.next_pid = ctx, {}, 0.0, first_pid
        self.back = threading.Semaphore(0)
        self.failure = None
        self.kills, self.forks = [], 0
        self.faults = {}  # syscall name -> list of countdowns
        self.protected = set()

    # ------------------------------------------------------------------ processes
    def pid(self):
        self.next_pid += 1 + self.ctx.sched.randrange(7)
        return self.next_pid

    def spawn(self, fn, arg, kind="user", cwd="."):
        p = Proc(self, self.pid(), fn, arg, kind=kind, cwd=cwd)
        self.procs[p.pid] = p
        _thread.start_new_thread(p.main, ())
        return p

    def bystander(self, foreign=False):
        """a process that has nothing to do with the daemon"""
        p = Proc(self, self.pid(), None, None, kind="foreign" if foreign else "bystander")
        p.state = "idle"
        self.procs[p.pid] = p
        return p

    def live(self, pid):
        p = self.procs.get(pid)
        return p is not None and p.alive()

    def run_one(self):
        """-> False if nothing can run any more"""
        while True:
            ready = [p for p in self.procs.values() if p.state == "ready" or p.state == "sleeping" and (p.wake <= self.now + 1e-12 or p.pending or p.killed)]
            if ready:
                break
            sl = [p.wake for p in self.procs.values() if p.state == "sleeping"]
            if not sl:
                return False
            self.now = min(sl)
            self.ctx.now += 0.01
        p = ready[self.ctx.schedule(len(ready))]
        p.go.release()
        self.back.acquire()
        if self.failure is not None:
            e, self.failure = self.failure, None
            raise e
        return True

    def run_until(self, cond, limit=20000):
        n = 0
        while not cond():
            n += 1
            if n > limit:
                return False
            if not self.run_one():
                return cond()
        return True

    # ------------------------------------------------------------------ system calls
    def deliver(self, p):
        if p.killed:
            raise ProcKilled()
        while p.pending:
            s = p.pending.pop(0)
            h = p.handlers.get(s, signal.SIG_DFL)
            self.ctx.event("signal", self.rel(p.pid), int(s), "default" if h == signal.SIG_DFL else "ignored" if h == signal.SIG_IGN else "handler")
            if h == signal.SIG_IGN:
                continue
            if h == signal.SIG_DFL:
                p.killed = True
                raise ProcKilled()
            h(int(s), None)

    def rel(self, pid):
        return pid

    def switch(self, p, state="ready"):
        p.state = state
        self.back.release()
        p.go.acquire()
        p.state = "running"
        self.deliver(p)

    def syscall(self, name, effect, what=None):
        p = LOCAL.proc
        if p.pos < len(p.replay):
            kind, val = p.replay[p.pos]
            p.pos += 1
            p.log.append((kind, val))
            if kind == "exc":
                raise type(val)(*val.args)
            return val
        self.ctx.step()
        self.now += 1e-4
        self.switch(p)
        f = self.faults.get(name)
        try:
            if f and f["pid"](p):
                if f["nth"] <= 0:
                    self.faults.pop(name)
                    self.ctx.fault(f"{name}_{f['errno']}")
                    f["fired"].append(name)
                    raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])))
                f["nth"] -= 1
            val = effect()
            p.log.append(("ok", val))
        except Exception as e:  # noqa
            p.log.append(("exc", e))
            self.ctx.event("call", p.pid, name, what, type(e).__name__)
            raise
        self.ctx.event("call", p.pid, name, what, val if isinstance(val, (int, str, type(None))) else "")
        return val

    def sleep(self, dt):
        p = LOCAL.proc
        if p.pos < len(p.replay):
            return self.syscall("sleep", None)
        self.ctx.step()
        p.wake = self.now + max(0.0, float(dt))
        while True:
            self.switch(p, "sleeping")
            if p.wake <= self.now + 1e-12:
                break
        p.log.append(("ok", None))

    def fork(self):
        p = LOCAL.proc

        def effect():
            self.forks += 1
            child = Proc(self, self.pid(), p.fn, p.arg0, p.log + [("ok", 0)], p.pid, p.kind, p.cwd)
            child.root = p.root
            self.procs[child.pid] = child
            _thread.start_new_thread(child.main, ())
            return child.pid

        return self.syscall("fork", effect)

    def kill(self, pid, sig):
        p = LOCAL.proc
        pid, sig = int(pid), int(sig)
        if abs(pid) > 2**31 - 1:
            raise OverflowError("signed integer is greater than maximum")

        def effect():
            if pid <= 0:
                self.kills.append((p.pid, pid, sig, self.now))
                raise core.Violation("other-process-signalled", f"kill({pid}, {sig}): a whole process group" + (", every process of the machine" if pid == -1 else ""))
            q = self.procs.get(pid)
            if q is None or not q.alive():
                raise ProcessLookupError(errno.ESRCH, "No such process")
            if q.kind == "foreign" or q.pid in self.protected:
                raise PermissionError(errno.EPERM, "Operation not permitted")
            if sig:
                self.kills.append((p.pid, pid, sig, self.now))
                self.send(q, sig)

        return self.syscall("kill", effect, (pid, sig))

    def send(self, q, sig):
        if q.fn is None:
            q.state = "dead"
        elif sig == signal.SIGKILL:
            q.killed = True
        elif signal.Signals(sig) not in q.pending:
            q.pending.append(signal.Signals(sig))


OS_ = None


def here():
    return OS_ is not None and getattr(LOCAL, "proc", None) is not None


class Sink(io.StringIO):
    def __init__(self, fd):
        super().__init__()
        self.fd = fd

    def fileno(self):
        return self.fd

    def write(self, s):
        return len(s)


class SimFile:
    """a file opened for writing by a simulated process"""

    def __init__(self, path, mode, opened=False):
        self.path, self.mode, self.buf, self.closed, self.name = path, mode, [], False, path
        self.sink = path.startswith("/dev/")
        if not self.sink and not opened:
            def effect():
                R["open"](path, "x" if "x" in mode else "a" if "a" in mode else "w").close()

            OS_.syscall("open_w", effect, os.path.basename(path))

    def fileno(self):
        return 9

    def write(self, s):
        if not self.sink:
            self.buf.append(s)
        return len(s)

    def flush(self):
        if self.buf:
            text, self.buf = "".join(x if isinstance(x, str) else x.decode() for x in self.buf), []

            def effect():
                with R["open"](self.path, "a") as f:
                    f.write(text)

            OS_.syscall("write", effect, text)

    def close(self):
        if not self.closed:
            self.closed = True
            self.flush()

    def read(self, *a):
        return ""

    def seek(self, *a):
        return 0

    def truncate(self, *a):
        return 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _resolve(path):
    path = os.fspath(path)
    return path if os.path.isabs(path) else os.path.join(LOCAL.proc.cwd, path)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not here():
        return R["os_open"](path, flags, mode, dir_fd=dir_fd)
    path = _resolve(path)

    def effect():
        if not path.startswith("/dev/"):
            R["os_close"](R["os_open"](path, flags, mode))

    OS_.syscall("open", effect, os.path.basename(path))
    fds = LOCAL.proc.fds
    fd = 1000 + len(fds)
    fds[fd] = [path, 0]
    return fd


def _fd(name):
    def f(fd, *a, **k):
        if not here() or fd not in LOCAL.proc.fds:
            return R["os_" + name](fd, *a, **k)
        ent = LOCAL.proc.fds[fd]
        if name == "close":
            ent[1] = None
            return None
        if ent[1] is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if name == "write":
            data = bytes(a[0])

            def effect():
                if not ent[0].startswith("/dev/"):
                    with R["open"](ent[0], "ab") as h:
                        h.write(data)
                return len(data)

            return OS_.syscall("write", effect, data.decode(errors="replace"))
        if name == "read":

            def effect():
                with R["open"](ent[0], "rb") as h:
                    h.seek(ent[1])
                    return h.read(a[0])

            out = OS_.syscall("open_r", effect, os.path.basename(ent[0]))
            ent[1] += len(out)
            return out

    return f


def _open(file, mode="r", buffering=-1, *a, **k):
    if isinstance(file, int) and here() and file in LOCAL.proc.fds:
        path = LOCAL.proc.fds[file][0]
        if set(mode) & set("wax+"):
            return SimFile(path, mode, opened=True)
        file = path
    if not here() or isinstance(file, int):
        return R["open"](file, mode, buffering, *a, **k)
    path = _resolve(file)
    if buffering == 0 and "b" not in mode:
        raise ValueError("can't have unbuffered text I/O")
    if set(mode) & set("wax+"):
        return SimFile(path, mode)
    if path.startswith("/dev/"):
        return Sink(8)
    m = PROC.match(path)

    def effect():
        if m and not OS_.live(int(m.group(1))):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        with R["open"](path, "rb") as f:
            return f.read()

    data = OS_.syscall("open_r", effect, os.path.basename(path))
    return io.BytesIO(data) if "b" in mode else io.TextIOWrapper(io.BytesIO(data), encoding="utf-8")


def _stat(path, *a, **k):
    if not here() or isinstance(path, int):
        return R["stat"](path, *a, **k)
    path = _resolve(path)
    m = PROC.match(path)

    def effect():
        if m:
            if not OS_.live(int(m.group(1))):
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            return R["stat"]("/")
        return R["stat"](path)

    return OS_.syscall("stat", effect, path if m else os.path.basename(path))


def _fs(name):
    def f(path, *a, **k):
        if not here():
            return R[name](path, *a, **k)
        path = _resolve(path)
        a = [_resolve(x) if isinstance(x, (str, os.PathLike)) else x for x in a]
        return OS_.syscall(name, lambda: R[name](path, *a, **k), os.path.basename(path))

    return f


def _only_sim(name, fn):
    def f(*a, **k):
        if not here():
            if name in ("getpid", "signal", "register", "unregister", "_exit", "sleep", "getppid", "chdir", "umask", "dup2", "getcwd", "getsignal", "listdir"):
                return R[name](*a, **k)
            raise core.HarnessError(f"real {name} called")
        return fn(*a, **k)

    return f


def _exit(code=0):
    LOCAL.proc.code = code
    LOCAL.proc.killed = True
    raise ProcKilled()


def _forbidden(name):
    def f(*a, **k):
        raise core.HarnessError(f"{name} is not part of the simulated operating system")

    return f


def install(os_, modules=()):
    """every process-control call of this (throw-away) process goes to the simulated system"""
    global OS_
    OS_ = os_
    if R:
        return
    new = {}

    def put(mod, attr, fn, key=None):
        key = key or attr
        R[key] = getattr(mod, attr)
        new[id(R[key])] = fn
        setattr(mod, attr, fn)

    R["open"] = builtins.open
    new[id(R["open"])] = _open
    builtins.open = _open
    io.open = _open
    put(os, "stat", _stat)
    os.lstat = _stat
    for n in ("remove", "unlink", "rename", "replace"):
        put(os, n, _fs(n))
    put(os, "open", _os_open, "os_open")
    for n in ("close", "write", "read", "fsync", "fdatasync", "ftruncate"):
        put(os, n, _fd(n), "os_" + n)
    put(os, "fork", _only_sim("fork", lambda: OS_.fork()))
    put(os, "kill", _only_sim("kill", lambda p, s: OS_.kill(p, s)))
    put(os, "getpid", _only_sim("getpid", lambda: LOCAL.proc.pid))
    put(os, "getppid", _only_sim("getppid", lambda: LOCAL.proc.parent or 1))
    put(os, "setsid", _only_sim("setsid", lambda: OS_.syscall("setsid", lambda: None)))
    put(os, "umask", _only_sim("umask", lambda m: 0o22))
    put(os, "dup2", _only_sim("dup2", lambda *a, **k: None))
    put(os, "_exit", _only_sim("_exit", _exit))
    put(os, "getcwd", _only_sim("getcwd", lambda: LOCAL.proc.cwd))
    put(os, "listdir", _only_sim("listdir", lambda p=".": [str(z) for z in OS_.procs if OS_.live(z)] if str(p).rstrip("/") == "/proc" else R["listdir"](_resolve(p))))

    def chdir(d):
        LOCAL.proc.cwd = os.path.normpath(_resolve(d))

    put(os, "chdir", _only_sim("chdir", chdir))
    put(time, "sleep", _only_sim("sleep", lambda dt: OS_.sleep(dt)))

    def sig(s, h):
        old = LOCAL.proc.handlers.get(signal.Signals(s), signal.SIG_DFL)
        LOCAL.proc.handlers[signal.Signals(s)] = h
        return old

    put(signal, "signal", _only_sim("signal", sig))
    put(signal, "getsignal", _only_sim("getsignal", lambda s: LOCAL.proc.handlers.get(signal.Signals(s), signal.SIG_DFL)))

    def register(f, *a, **k):
        LOCAL.proc.atexit.append((f, a, k))
        return f

    def unregister(f):
        LOCAL.proc.atexit[:] = [t for t in LOCAL.proc.atexit if t[0] != f]

    put(atexit, "register", _only_sim("register", register))
    put(atexit, "unregister", _only_sim("unregister", unregister))
    for n in ("killpg", "system", "popen", "posix_spawn", "posix_spawnp", "execv", "execve", "execvp", "forkpty", "abort", "waitpid", "wait", "setpgid", "kexec"):
        if hasattr(os, n):
            put(os, n, _forbidden(n))
    for m in modules:  # names imported directly
        for k, v in list(vars(m).items()):
            if id(v) in new and callable(v):
                setattr(m, k, new[id(v)])
    sys.stdin, sys.stdout, sys.stderr = Sink(0), Sink(1), Sink(2)
