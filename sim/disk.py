"""Simulated disk: a real scratch directory behind an interposed system-call layer.

Every operation of the simulated process on a path below the scratch directory (open, write,
flush, truncate, fsync, rename, replace, unlink, mkdir, close) passes through `Disk.syscall`,
where the run's fault plan may fail it, cut it short or end the process.  The layer works below
Python's buffering, so bytes that the program has written but not flushed are lost in a crash
exactly as they would be in a real process.

Two crash models:
  * kill  - the process dies; everything that reached the kernel survives;
  * power - additionally, un-synced file contents and directory updates may be lost.
"""
import builtins
import errno
import io
import os
import random
import stat

from . import core

R = {}  # the real functions


class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.plan = []  # armed faults: {"op": kind|"*", "nth": k, "what": ..., "arg": ..}
        self.count = 0
        self.crashed = False
        self.ops = []  # (name, relpath)
        self.fds = {}
        # power-loss bookkeeping
        self.synced = {}  # inode -> bytes at the last fsync
        self.names_durable = {}  # relpath -> inode, as of the last directory sync
        self.journal = []  # namespace operations since then
        self.active = False
        self.epoch = 0
        self.held, self.orphans = [], {}

    # ------------------------------------------------------------ control
    def rel(self, path):
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(path)))
        except Exception:
            return None
        for r in (self.root,):
            if p == r or p.startswith(r + os.sep):
                return os.path.relpath(p, r)
        return None

    def arm(self, plan):
        """arm faults for the coming operation; `nth` counts matching syscalls from now"""
        self.plan = [dict(f, left=f.get("nth", 0)) for f in plan]
        self.ops = []

    def disarm(self):
        self.plan = []

    def fired(self):
        return [f for f in self.plan if f.get("fired")]

    def syscall(self, name, path, size=None):
        """-> None | number of bytes to let through (torn/short write)"""
        c = core.CTX
        if c is None or not self.active:
            return None
        if self.crashed:
            return "dead"
        c.step()
        self.ops.append((name, path))
        for f in self.plan:
            if f.get("fired") and not f.get("sticky"):
                continue
            ops = f.get("op", "*")
            if ops != "*" and name not in ops.split("|"):
                continue
            if f.get("path") and f["path"] not in path:
                continue
            if f["left"] > 0 and not f.get("fired"):
                f["left"] -= 1
                continue
            what = f["what"]
            if what in ("torn_crash", "short", "torn_error") and name != "write":
                continue
            f["fired"] = f.get("fired", 0) + 1
            c.fault(f"disk_{what}" + ("" if what != "error" else "_" + f.get("errno", "EIO")))
            c.event("disk-fault", name, path, what)
            if what == "error":
                en = getattr(errno, f.get("errno", "EIO"))
                raise OSError(en, os.strerror(en), path)
            if what == "crash":
                self.crashed = True
                raise core.SimCrash(f"at {name} {path}")
            if what == "crash_after":
                return "crash_after"
            if what in ("torn_crash", "short", "torn_error"):
                n = int((size or 0) * f.get("frac", 0.5))
                if what == "short":
                    return max(1, n)
                return (what, n, f.get("errno", "ENOSPC"))
        return None

    def die(self, where):
        self.crashed = True
        raise core.SimCrash(where)

    # ------------------------------------------------------------ content helpers (no faults)
    def read(self, rel):
        p = os.path.join(self.root, rel)
        fd = R["os.open"](p, os.O_RDONLY)
        try:
            out = b""
            while True:
                b = R["os.read"](fd, 1 << 20)
                if not b:
                    return out
                out += b
        finally:
            R["os.close"](fd)

    def exists(self, rel):
        return os.path.exists(os.path.join(self.root, rel))

    def listing(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                out.append(os.path.relpath(os.path.join(d, f), self.root))
        return sorted(out)

    def checkpoint_durable(self):
        """declare the present state durable (e.g. the machine has been idle for long)"""
        self.synced, self.names_durable, self.journal = {}, {}, []
        self.orphans = {}
        for fd in self.held:
            R["os.close"](fd)
        self.held = []
        for n in self.listing():
            ino = os.stat(os.path.join(self.root, n)).st_ino
            self.names_durable[n] = ino
            self.synced[ino] = self.read(n)

    def power_loss(self, rng):
        """rebuild the directory as it may look after a power cut"""
        cur = {}
        for n in self.listing():
            ino = os.stat(os.path.join(self.root, n)).st_ino
            cur[ino] = self.read(n)
        cur.update({i: b for i, b in self.orphans.items() if i not in cur})
        keep = rng.randint(0, len(self.journal))
        names = dict(self.names_durable)
        for op in self.journal[:keep]:
            if op[0] == "create":
                names[op[1]] = op[2]
            elif op[0] == "rename":
                if op[1] in names:
                    names[op[2]] = names.pop(op[1])
            elif op[0] == "unlink":
                names.pop(op[1], None)
        content = {}
        for ino in set(names.values()):
            now, old = cur.get(ino, b""), self.synced.get(ino)
            if old is not None and old == now:
                content[ino] = now
                continue
            pick = rng.randint(0, 3)
            old = old or b""
            if pick == 0:
                content[ino] = now
            elif pick == 1:
                content[ino] = old
            elif pick == 2:
                content[ino] = now[: rng.randint(0, len(now))]
            else:
                k = rng.randint(0, len(now))
                content[ino] = now[:k] + b"\0" * (len(now) - k)
            if content[ino] != now:
                core.CTX.fault("power_lost_unsynced_data")
        if keep < len(self.journal):
            core.CTX.fault("power_lost_dir_update")
        for n in self.listing():
            R["os.unlink"](os.path.join(self.root, n))
        for n, ino in names.items():
            p = os.path.join(self.root, n)
            if not os.path.isdir(os.path.dirname(p)):
                R["os.makedirs"](os.path.dirname(p), exist_ok=True)
            fd = R["os.open"](p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            b = content[ino]
            while b:
                k = R["os.write"](fd, b)
                b = b[k:]
            R["os.close"](fd)

    def reboot(self):
        """new process on the same disk"""
        self.crashed = False
        self.epoch += 1  # files still open in the dead process can no longer reach the disk
        self.plan = []
        self.fds = {}
        self.checkpoint_durable()

    def hold(self, path):
        """remember the content of a file that is about to lose its name, and keep its inode from being reused"""
        try:
            fd = R["os.open"](path, os.O_RDONLY)
        except OSError:
            return
        self.held.append(fd)
        rel = self.rel(path)
        if rel is not None:
            self.orphans[os.fstat(fd).st_ino] = self.read(rel)

    def _note_create(self, rel):
        try:
            ino = os.stat(os.path.join(self.root, rel)).st_ino
        except OSError:
            return
        self.journal.append(("create", rel, ino))
        self.synced.setdefault(ino, None)

    def _note_sync_fd(self, fd):
        try:
            st = os.fstat(fd)
        except OSError:
            return
        if stat.S_ISDIR(st.st_mode):
            for op in self.journal:
                if op[0] == "create":
                    self.names_durable[op[1]] = op[2]
                elif op[0] == "rename":
                    if op[1] in self.names_durable:
                        self.names_durable[op[2]] = self.names_durable.pop(op[1])
                elif op[0] == "unlink":
                    self.names_durable.pop(op[1], None)
            self.journal = []
            return
        rel = self.fds.get(fd)
        for n in self.listing():
            p = os.path.join(self.root, n)
            if os.stat(p).st_ino == st.st_ino:
                self.synced[st.st_ino] = self.read(n)
                return


DISK = None


class SimRaw(io.FileIO):
    """raw file whose writes are the simulated write(2)"""

    def __init__(self, file, mode="r", closefd=True, opener=None, rel=None):
        self._rel = rel
        super().__init__(file, mode, closefd, opener)
        if DISK is not None:
            DISK.fds[self.fileno()] = rel
            self._epoch = DISK.epoch

    def write(self, b):
        d = DISK
        mv = memoryview(b).cast("B")
        if d is not None and self._epoch != d.epoch:
            return len(mv)
        r = d.syscall("write", self._rel, len(mv)) if d is not None else None
        if r is None:
            return super().write(mv)
        if r == "dead":
            return len(mv)
        if r == "crash_after":
            super().write(mv)
            d.die(f"after write {self._rel}")
        if isinstance(r, int):
            return super().write(mv[:r])
        what, n, en = r
        if n:
            super().write(mv[:n])
        if what == "torn_crash":
            d.die(f"in write {self._rel}")
        raise OSError(getattr(errno, en), os.strerror(getattr(errno, en)), self._rel)

    def truncate(self, size=None):
        d = DISK
        if d is not None and self._epoch != d.epoch:
            return 0
        r = d.syscall("truncate", self._rel) if d is not None else None
        if r == "dead":
            return 0
        out = super().truncate(size)
        if r == "crash_after":
            d.die(f"after truncate {self._rel}")
        return out

    def close(self):
        d = DISK
        if not self.closed and d is not None:
            d.fds.pop(self.fileno(), None)
        if not self.closed and d is not None and self._epoch == d.epoch and self.writable():
            try:
                r = d.syscall("close", self._rel)
            except BaseException:
                super().close()
                raise
            super().close()
            if r == "crash_after":
                d.die(f"after close {self._rel}")
            return
        super().close()


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    rel = None
    if d is not None and d.active and core.CTX is not None:
        rel = d.fds.get(file) if isinstance(file, int) else d.rel(file)
    if rel is None:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(ch in mode for ch in "wax+")
    r = None
    existed = True
    if not isinstance(file, int):
        existed = os.path.exists(file)
        r = d.syscall("open_w" if writing else "open_r", rel)
        if r == "dead":
            if writing:
                return R["open"](os.devnull, mode.replace("x", "w"), buffering, encoding, errors, newline)
            return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    raw = SimRaw(file, rawmode, closefd, opener, rel)
    if writing and not existed:
        d._note_create(rel)
    if r == "crash_after":
        R_close = super(SimRaw, raw).close
        R_close()
        d.die(f"after open {rel}")
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = False
        if buffering == 1 and not binary or buffering < 0 and raw.isatty():
            buffering, line = -1, True
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, buffering)
        elif any(ch in mode for ch in "wax"):
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _wrap(name, nargs, note=None):
    real = R["os." + name]

    def f(*a, **k):
        d = DISK
        rels = []
        if d is not None and d.active and core.CTX is not None:
            for x in a[:nargs]:
                rels.append(d.fds.get(x) if isinstance(x, int) else d.rel(x))
        if not any(r is not None for r in rels):
            return real(*a, **k)
        r = d.syscall(name, "->".join(str(x) for x in rels))
        if r == "dead":
            return None
        if note == "rename":
            d.hold(a[1])
        elif note == "unlink":
            d.hold(a[0])
        out = real(*a, **k)
        if note == "rename":
            d.journal.append(("rename", rels[0], rels[1]))
        elif note == "unlink":
            d.journal.append(("unlink", rels[0]))
        elif note == "sync":
            d._note_sync_fd(a[0])
        if r == "crash_after":
            d.die(f"after {name} {rels}")
        return out

    return f


def install(disk):
    """put the interposition layer in place (once per process)"""
    global DISK
    DISK = disk
    if R:
        return disk
    R["open"] = builtins.open
    for n in ("open", "read", "write", "close", "replace", "rename", "unlink", "remove", "fsync", "fdatasync", "mkdir", "makedirs", "truncate", "ftruncate", "rmdir", "link", "symlink"):
        R["os." + n] = getattr(os, n)
    import _io

    builtins.open = _sim_open
    io.open = _sim_open
    _io.open = _sim_open
    os.replace = _wrap("replace", 2, "rename")
    os.rename = _wrap("rename", 2, "rename")
    os.unlink = _wrap("unlink", 1, "unlink")
    os.remove = _wrap("remove", 1, "unlink")
    os.fsync = _wrap("fsync", 1, "sync")
    os.fdatasync = _wrap("fdatasync", 1, "sync")
    os.mkdir = _wrap("mkdir", 1)
    os.truncate = _wrap("truncate", 1)
    os.ftruncate = _wrap("ftruncate", 1)

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        d = DISK
        rel = d.rel(path) if d is not None and d.active and core.CTX is not None and dir_fd is None else None
        if rel is None:
            return R["os.open"](path, flags, mode, dir_fd=dir_fd)
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        existed = os.path.exists(path)
        r = d.syscall("open_w" if writing else "open_r", rel)
        if r == "dead":
            return R["os.open"](os.devnull, os.O_RDWR)
        fd = R["os.open"](path, flags, mode)
        d.fds[fd] = rel
        if writing and not existed:
            d._note_create(rel)
        if r == "crash_after":
            d.die(f"after open {rel}")
        return fd

    def os_write(fd, data):
        d = DISK
        rel = d.fds.get(fd) if d is not None and d.active and core.CTX is not None else None
        if rel is None:
            return R["os.write"](fd, data)
        r = d.syscall("write", rel, len(data))
        if r is None:
            return R["os.write"](fd, data)
        if r == "dead":
            return len(data)
        if r == "crash_after":
            R["os.write"](fd, data)
            d.die(f"after write {rel}")
        if isinstance(r, int):
            return R["os.write"](fd, data[:r])
        what, n, en = r
        if n:
            R["os.write"](fd, data[:n])
        if what == "torn_crash":
            d.die(f"in write {rel}")
        raise OSError(getattr(errno, en), os.strerror(getattr(errno, en)), rel)

    def os_close(fd):
        d = DISK
        if d is not None:
            d.fds.pop(fd, None)
        return R["os.close"](fd)

    os.open = os_open
    os.write = os_write
    os.close = os_close
    return disk
