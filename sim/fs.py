"""File access under the scratch root goes through here.

Real files in a scratch directory; every operation under the root is a
scheduling point, may be slow, may fail, and may be the instant at which the
process dies (optionally half-way through).
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import shutil

import numpy as np

from . import core
from .patches import insim

_open = io.open
_FileIO = io.FileIO
_os = {n: getattr(os, n) for n in (
    "mkdir", "replace", "rename", "unlink", "remove", "rmdir", "listdir",
    "scandir", "stat", "link", "truncate", "open", "fsync", "utime", "lstat",
)}
_memmap = np.memmap
_fromfile = np.fromfile

ERRNOS = {
    "ENOSPC": errno.ENOSPC,
    "EIO": errno.EIO,
    "EMFILE": errno.EMFILE,
    "EACCES": errno.EACCES,
    "EDQUOT": errno.EDQUOT,
    "ESTALE": errno.ESTALE,
}
WRITE_OPS = ("creat", "write", "mmcreat", "mkdir", "rename", "unlink", "fsync")
READ_OPS = ("open", "read", "listdir", "mmread")


class Plan:
    """One planned fault: the k-th matching operation fails."""

    def __init__(self, ops, k, eno, persist, match="", short=False):
        self.ops = ops
        self.k = k
        self.eno = eno
        self.persist = persist
        self.match = match
        self.short = short
        self.seen = 0
        self.hits = 0
        self.active = True

    def __repr__(self):
        return (f"{'/'.join(self.ops)} #{self.k} {self.eno}"
                f"{' persistent' if self.persist else ''} {self.match}")


class SimFS:
    def __init__(self, sim, slow=0, plans=(), crash_at=0, crash_mid=False,
                 shuffle_dirs=True, short_writes=False, ops_match=None):
        self.sim = sim
        self.plans = list(plans)
        self.slow = slow
        self.n = 0
        self.count = {}
        self.crash_at = crash_at
        self.crash_mid = crash_mid
        self.shuffle = shuffle_dirs
        self.short = short_writes
        self.log = []
        self.writes_seen = 0

    # -------------------------------------------------------------- hooks
    def covers(self, path):
        s = insim()
        if s is None or s.fs is None or s.quiet or s.root is None:
            return False
        if isinstance(path, int):
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        return (p + os.sep).startswith(s.root)

    def rel(self, path):
        p = os.fspath(path)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        return os.path.relpath(p, self.sim.root)

    LAT = [0.0, 0.0005, 0.02, 0.4, 2.5, 8.0, 40.0]

    def latency(self):
        s = self.sim
        if not self.slow:
            return
        w = ([1], [30, 10, 5], [20, 10, 6, 3], [20, 8, 6, 4, 2, 1],
             [30, 4, 4, 3, 2, 2, 1], [4, 1, 1, 2, 3, 3, 1])[min(self.slow, 5)]
        k = s.c.take(f"{s.e}:io", len(self.LAT),
                     lambda r: r.choices(range(len(w)), weights=w)[0])
        if k:
            if k >= 3:
                s.fire("io-stall")
            s.delay(self.LAT[k])

    def op(self, kind, path):
        """Called before an operation.  May delay, fail or crash."""
        s = self.sim
        self.n += 1
        self.count[kind] = self.count.get(kind, 0) + 1
        s.yield_point("io-" + kind)
        self.latency()
        if self.crash_at and self.n >= self.crash_at and not self.crash_mid:
            s.crash(f"before {kind} {self.rel(path)}")
        for p in self.plans:
            if not p.active or kind not in p.ops:
                continue
            if p.match and p.match not in self.rel(path):
                continue
            p.seen += 1
            if p.seen == p.k or (p.persist and p.seen > p.k):
                p.hits += 1
                s.fire(f"{p.eno}@{kind}")
                if p.short and kind == "write":
                    return "torn"
                self.fail(p.eno, path)
        return None

    def mid(self, kind, path):
        """Called half-way through an operation with visible partial effect."""
        s = self.sim
        s.yield_point("mid-" + kind)
        if self.crash_at and self.n >= self.crash_at and self.crash_mid:
            s.crash(f"during {kind} {self.rel(path)}")

    def after(self, kind, path):
        s = self.sim
        if self.crash_at and self.n >= self.crash_at and self.crash_mid:
            s.crash(f"after {kind} {self.rel(path)}")
        s.yield_point("done-" + kind)

    def fail(self, eno, path):
        if eno == "NOMEM":
            raise MemoryError(f"simulated: no memory for {os.fspath(path)}")
        raise OSError(ERRNOS[eno], os.strerror(ERRNOS[eno]), os.fspath(path))

    def clear_faults(self):
        for p in self.plans:
            p.active = False


def fs_for(path):
    s = insim()
    if s is None or s.fs is None or s.quiet:
        return None
    return s.fs if s.fs.covers(path) else None


# ------------------------------------------------------------------- files
class SimRaw(_FileIO):
    """Raw file whose reads and writes are simulated operations."""

    def _fs(self):
        s = insim()
        if s is None or s.fs is None or s.quiet:
            return None
        return s.fs

    def write(self, b):
        fs = self._fs()
        if fs is None:
            return super().write(b)
        mv = memoryview(b).cast("B")
        r = fs.op("write", self.name)
        if r == "torn":  # part of the data lands, then the device errors
            super().write(mv[: len(mv) // 2])
            fs.fail("ENOSPC", self.name)
        if len(mv) > 1:
            n = len(mv) // 2
            super().write(mv[:n])
            fs.mid("write", self.name)
            if fs.short and fs.sim.c.chance(f"{fs.sim.e}:short", 0.2):
                fs.sim.fire("short-write")
                fs.after("write", self.name)
                return n
            super().write(mv[n:])
        else:
            super().write(mv)
        fs.after("write", self.name)
        return len(mv)

    def readinto(self, b):
        fs = self._fs()
        if fs is not None:
            fs.op("read", self.name)
        return super().readinto(b)

    def readall(self):
        fs = self._fs()
        if fs is not None:
            fs.op("read", self.name)
        return super().readall()

    def read(self, size=-1):
        fs = self._fs()
        if fs is not None:
            fs.op("read", self.name)
        return super().read(size)

    def close(self):
        if not self.closed:
            fs = self._fs()
            if fs is not None:
                fs.sim.yield_point("close")
        return super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    fs = fs_for(file)
    if fs is None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd,
                     opener)
    m = mode.replace("b", "").replace("t", "")
    writing = any(ch in m for ch in "wax+")
    fs.op("creat" if writing else "open", file)
    raw = SimRaw(file, m, closefd, opener)
    if writing:
        fs.after("creat", file)
    binary = "b" in mode
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in m:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def _wrap1(name, kind):
    real = _os[name]

    def f(path, *a, **k):
        fs = fs_for(path) if k.get("dir_fd") is None else None
        if fs is None:
            return real(path, *a, **k)
        fs.op(kind, path)
        r = real(path, *a, **k)
        fs.after(kind, path)
        return r

    f.__name__ = name
    return f


def _wrap2(name, kind):
    real = _os[name]

    def f(src, dst, *a, **k):
        fs = fs_for(dst) or fs_for(src)
        if fs is None:
            return real(src, dst, *a, **k)
        fs.op(kind, dst)
        r = real(src, dst, *a, **k)
        fs.after(kind, dst)
        return r

    f.__name__ = name
    return f


def _order(fs, names):
    names = sorted(names)
    if fs.shuffle and len(names) > 1:
        s = fs.sim
        for i in range(len(names) - 1, 0, -1):  # Fisher-Yates, 0 = sorted
            j = s.c.draw(f"{s.e}:dir", i + 1)
            names[i], names[i - j] = names[i - j], names[i]
    return names


def sim_listdir(path="."):
    fs = fs_for(path)
    if fs is None:
        return _os["listdir"](path)
    fs.op("listdir", path)
    return _order(fs, _os["listdir"](path))


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        pass


def sim_scandir(path="."):
    fs = fs_for(path)
    if fs is None:
        return _os["scandir"](path)
    fs.op("listdir", path)
    with _os["scandir"](path) as it:
        es = {e.name: e for e in it}
    return _Scan([es[n] for n in _order(fs, es)])


def sim_stat(path, *a, **k):
    fs = fs_for(path) if k.get("dir_fd") is None else None
    if fs is not None:
        fs.sim.yield_point("stat")
    return _os["stat"](path, *a, **k)


def sim_os_open(path, flags, *a, **k):
    fs = fs_for(path) if k.get("dir_fd") is None else None
    if fs is None:
        return _os["open"](path, flags, *a, **k)
    fs.op("creat" if flags & os.O_CREAT else "open", path)
    r = _os["open"](path, flags, *a, **k)
    fs.after("creat", path)
    return r


def sim_fsync(fd):
    s = insim()
    if s is not None and s.fs is not None and not s.quiet:
        s.yield_point("fsync")
    return _os["fsync"](fd)


class SimMemmap(_memmap):
    """np.memmap whose creation, filling and reading are simulated steps."""

    def __new__(cls, filename, dtype=np.uint8, mode="r+", offset=0, shape=None,
                order="C"):
        fs = fs_for(filename) if not hasattr(filename, "read") else None
        s = insim()
        if fs is None:
            self = _memmap.__new__(cls, filename, dtype, mode, offset, shape, order)
            self._simpath = None
            return self
        writing = mode in ("w+", "write", "readwrite", "r+")
        fs.op("mmcreat" if mode in ("w+", "write") else "mmread", filename)
        with _Quiet(s):
            self = _memmap.__new__(cls, filename, dtype, mode, offset, shape, order)
        self._simpath = os.fspath(filename) if writing else None
        if writing:
            fs.after("mmcreat", filename)
        return self

    def __array_finalize__(self, obj):
        super().__array_finalize__(obj)
        self._simpath = getattr(obj, "_simpath", None)

    def __setitem__(self, key, value):
        p = self._simpath
        fs = fs_for(p) if p else None
        if fs is None:
            return super().__setitem__(key, value)
        view = np.asarray(self)[key]
        if not isinstance(view, np.ndarray) or view.base is None or view.ndim == 0:
            fs.op("write", p)
            super().__setitem__(key, value)
            fs.after("write", p)
            return None
        value = np.broadcast_to(np.asarray(value), view.shape)
        n = view.shape[0]
        cut = sorted({0, n // 2, n})
        fs.op("mmfill", p)
        for a, b in zip(cut, cut[1:]):
            view[a:b] = value[a:b]
            if b != n:
                fs.mid("mmfill", p)
        fs.after("mmfill", p)
        return None

    def flush(self):
        p = getattr(self, "_simpath", None)
        fs = fs_for(p) if p else None
        if fs is not None:
            fs.op("fsync", p)
        return super().flush()


class _Quiet:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.s.quiet += 1

    def __exit__(self, *a):
        self.s.quiet -= 1


def sim_fromfile(file, *a, **k):
    fs = fs_for(file) if not hasattr(file, "read") else None
    if fs is not None:
        fs.op("read", file)
    return _fromfile(file, *a, **k)


INSTALLED = False


def install():
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    builtins.open = sim_open
    io.open = sim_open
    for n in ("mkdir",):
        setattr(os, n, _wrap1(n, "mkdir"))
    for n in ("unlink", "remove", "rmdir"):
        setattr(os, n, _wrap1(n, "unlink"))
    for n in ("replace", "rename", "link"):
        setattr(os, n, _wrap2(n, "rename"))
    os.truncate = _wrap1("truncate", "write")
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.stat = sim_stat
    os.open = sim_os_open
    os.fsync = sim_fsync
    np.memmap = SimMemmap
    np.fromfile = sim_fromfile
    # the fd-based rmtree works on directory descriptors; use the path-based one
    shutil._use_fd_functions = False
    import torch

    real_save = torch.save

    def save(obj, f, *a, **k):
        fs = fs_for(f) if isinstance(f, (str, os.PathLike)) else None
        if fs is None:
            return real_save(obj, f, *a, **k)
        buf = io.BytesIO()
        with _Quiet(insim()):
            real_save(obj, buf, *a, **k)
        with sim_open(f, "wb") as fh:
            fh.write(buf.getvalue())
        return None

    torch.save = save
    real_load = torch.load

    def load(f, *a, **k):
        fs = fs_for(f) if isinstance(f, (str, os.PathLike)) else None
        if fs is None:
            return real_load(f, *a, **k)
        with sim_open(f, "rb") as fh:
            data = fh.read()
        with _Quiet(insim()):
            return real_load(io.BytesIO(data), *a, **k)

    torch.load = load
