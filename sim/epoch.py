"""Runs one simulated process (epoch) in a forked child and collects it."""

from __future__ import annotations

import ctypes
import gc
import os
import pickle
import select
import signal
import struct
import sys
import traceback

from . import core, fs as simfs, patches
from .core import Choices, HarnessError, Violation

DEVNULL = None
LIBC = ctypes.CDLL(None)
VERBOSE = bool(os.environ.get("SIM_VERBOSE"))


def _send(w, obj):
    data = pickle.dumps(obj, protocol=5)
    data = struct.pack("<Q", len(data)) + data
    off = 0
    while off < len(data):
        off += os.write(w, data[off:off + (1 << 20)])


class Outcome:
    __slots__ = ("detail", "kind", "stats", "value")

    def __init__(self, kind, value, detail, stats):
        self.kind = kind      # ok | exc | crashed | abort | violation | harness
        self.value = value
        self.detail = detail
        self.stats = stats

    def __repr__(self):
        return f"<{self.kind} {self.value!r} {self.detail}>"


def die_with_parent(parent):
    """A search that is stopped leaves no spinning process behind."""
    LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)   # PR_SET_PDEATHSIG
    if os.getppid() != parent:
        os._exit(98)


def run_epoch(choices, name, root, fn, args=(), real_timeout=100.0, fsopts=None,
              sim=True, **simopts):
    """Fork, run fn(sim, *args) under a fresh Sim, return an Outcome.

    The child's recorded choices are merged into `choices`.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        die_with_parent(parent)
        try:
            _child(w, choices, name, root, fn, args, fsopts or {}, sim, simopts)
        finally:
            os._exit(99)
    os.close(w)
    buf = bytearray()
    deadline = patches.real_monotonic() + real_timeout
    hung = False
    while True:
        left = deadline - patches.real_monotonic()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hung = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hung:
        # the work of such a process takes well under a second: it is spinning
        # or blocked where the simulator does not see it
        raise Violation("hang", f"process {name} made no progress for {real_timeout}s of real time")
    if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", buf[:8])[0]:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGBUS, signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE):
            raise Violation("process-died", f"process {name} died of signal {os.WTERMSIG(status)}")
        raise HarnessError(f"epoch {name} died: wait status {status}")
    kind, value, detail, rec, stats = pickle.loads(bytes(buf[8:]))
    for k, v in rec.items():
        choices.rec[k] = v
    out = Outcome(kind, value, detail, stats)
    if kind == "harness":
        raise HarnessError(detail)
    return out


def _child(w, choices, name, root, fn, args, fsopts, use_sim, simopts):
    gc.disable()
    if not VERBOSE:
        nul = os.open(os.devnull, os.O_RDWR)
        os.dup2(nul, 1)
        os.dup2(nul, 2)
    before = set(choices.rec)
    own = Choices(choices.seed, choices.replay)
    state = {"sim": None}

    def report(outcome):
        s = state["sim"]
        stats = {}
        if s is not None:
            s.quiet += 1
            stats = dict(
                steps=s.steps, lines=s.lines, switches=s.switches, hash=s.h,
                sim_time=s.now - s.t0, fired=s.fired, probes=s.probes,
                threads=len(s.threads), policy=s.policy,
                thread_errors=s.thread_errors[:5],
                fsops=dict(s.fs.count) if s.fs else {},
                fsn=s.fs.n if s.fs else 0,
                plans=[(repr(p), p.hits) for p in s.fs.plans] if s.fs else [],
            )
        kind, value, detail = outcome
        try:
            _send(w, (kind, value, detail, own.rec, stats))
        except Exception as e:  # unpicklable value
            _send(w, ("harness", None, f"cannot send outcome: {e!r}", {}, {}))
        os._exit(0)

    try:
        if use_sim:
            s = core.Sim(own, name, root, report, **simopts)
            state["sim"] = s
            s.fs = simfs.SimFS(s, **fsopts)
            core.CURRENT = s
            try:
                v = fn(s, *args)
                out = ("ok", v, "")
            except Violation as e:
                out = ("violation", e.kind, e.detail)
            except HarnessError as e:
                out = ("harness", None, str(e) + traceback.format_exc())
            except Exception as e:  # noqa: BLE001
                out = ("exc", f"{type(e).__name__}: {e}", traceback.format_exc())
            except (KeyboardInterrupt, SystemExit, GeneratorExit) as e:
                if "/dattri/" not in traceback.format_exc():
                    raise
                out = ("exc", f"{type(e).__name__}: {e}", traceback.format_exc())
            s.quiet += 1
        else:
            try:
                out = ("ok", fn(None, *args), "")
            except Violation as e:
                out = ("violation", e.kind, e.detail)
            except Exception as e:  # noqa: BLE001
                out = ("exc", f"{type(e).__name__}: {e}", traceback.format_exc())
        report(out)
    except BaseException as e:  # noqa: BLE001
        _send(w, ("harness", None, f"{e!r}\n{traceback.format_exc()}", {}, {}))
        os._exit(0)
    _ = before
