"""Scheduler, simulated clock and choice streams.

One *epoch* is one simulated process: it runs in a forked child, its threads
are real Python threads of which exactly one holds the baton at any time, and
every decision (who runs next, how long an operation takes, which fault
strikes, when the process dies) is drawn from recorded choice streams.
A simulated process crash is `os._exit` of that child: exactly what the file
system holds at that instant survives, nothing else.
"""

from __future__ import annotations

import _thread
import os
import random
import sys
import zlib
from array import array

_allocate = _thread.allocate_lock
_get_ident = _thread.get_ident
_real_start = _thread.start_new_thread

CURRENT = None  # the Sim of this process, if any


class Violation(Exception):
    """A property does not hold.  kind: short class; detail: free text."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class Unusable(Exception):
    """The drawn configuration is one that no correct code could serve."""


class HarnessError(Exception):
    """The machinery itself misbehaved (never a verdict)."""


# ------------------------------------------------------------------ choices
class Choices:
    """Named streams of small integers; 0 is always the dullest option."""

    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self.replay = replay  # None, or {stream: sequence of ints}
        self.rec = {}
        self._rng = {}
        self._pos = {}

    def rng(self, stream):
        r = self._rng.get(stream)
        if r is None:
            r = self._rng[stream] = random.Random(f"{self.seed}/{stream}")
        return r

    def take(self, stream, n, gen=None):
        """Draw an int in [0, n).  gen(rng) picks it when generating."""
        if n <= 1:
            return 0
        rec = self.rec.get(stream)
        if rec is None:
            rec = self.rec[stream] = array("q")
        if self.replay is not None:
            seq = self.replay.get(stream)
            i = len(rec)
            v = int(seq[i]) % n if seq is not None and i < len(seq) else 0
        else:
            r = self.rng(stream)
            v = r.randrange(n) if gen is None else gen(r)
        rec.append(v)
        return v

    # convenience -------------------------------------------------------
    def draw(self, stream, n):
        return self.take(stream, n)

    def chance(self, stream, p):
        return bool(self.take(stream, 2, lambda r: int(r.random() < p)))

    def pick(self, stream, seq, weights=None):
        if weights is None:
            return seq[self.take(stream, len(seq))]
        return seq[
            self.take(
                stream,
                len(seq),
                lambda r: r.choices(range(len(seq)), weights=weights)[0],
            )
        ]

    def between(self, stream, lo, hi):
        return lo + self.take(stream, hi - lo + 1)

    def dump(self):
        return {k: list(v) for k, v in self.rec.items()}


# ------------------------------------------------------------------ threads
class SThread:
    __slots__ = (
        "done", "exc", "gate", "joiners", "last", "name", "prio", "starved", "tid",
        "timed_out", "waiting", "wake_at", "wseq", "obj",
    )

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.gate = _allocate()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.wake_at = None
        self.wseq = 0
        self.timed_out = False
        self.joiners = []
        self.last = 0  # when it last ran or became runnable
        self.prio = 0
        self.starved = False
        self.exc = None
        self.obj = None


class WaitQ:
    """Something threads block on."""

    __slots__ = ("waiters", "what")

    def __init__(self, what="?"):
        self.waiters = []
        self.what = what


_BUCKETS = {}


def bucket(code):
    b = _BUCKETS.get(code)
    if b is None:
        name = code.co_filename.rsplit("/dattri/", 1)[-1] + ":" + code.co_qualname
        b = _BUCKETS[code] = zlib.crc32(name.encode())
    return b


POLICIES = ("sticky", "random", "pct", "starve")


class Sim:
    """One simulated process."""

    def __init__(self, choices, epoch, root, report, **opts):
        self.c = choices
        self.e = epoch
        self.root = os.path.realpath(root) + os.sep if root else None
        self.report = report  # callable(outcome) -> never returns
        self.now = 1_000_000.0  # monotonic clock
        self.wall_off = 1_700_000_000.0 - self.now
        self.steps = 0
        self.lines = 0
        self.every_line = opts.get("every_line", False)   # preemption in all of dattri
        # (n, k): the functions of bucket k of n are preempted on most of their lines
        self.focus = opts.get("focus")
        self.focus_left = 1500
        self.switches = 0
        self.h = 0
        self.hash_seq = 0
        self.max_steps = opts.get("max_steps", 3_000_000)
        self.max_lines = opts.get("max_lines", 30_000_000)
        self.time_limit = opts.get("time_limit", 900.0)
        self.t0 = self.now
        self.injected = 0.0  # injected delay so far
        self.threads = []
        self.by_ident = {}
        self.runq = []  # runnable threads, tid order
        self.sleep_heap = []
        self.wseq = 0
        self.fired = {}
        self.probes = {}
        self.thread_errors = []
        self.quiet = 0  # >0: no preemption (harness code on a sim thread)
        self.fs = None
        self.memory = None   # failing allocations (sim/memory.py)
        self.in_harness = True
        self.line_gap = 0
        self.p_stall = 0.0
        # --- per-epoch knobs (drawn, so that shrinking can simplify them)
        st = f"{epoch}:knob"
        self.s_sched = f"{epoch}:sched"
        self.s_line = f"{epoch}:line"
        self.s_time = f"{epoch}:time"
        mode = opts.get("sched", "full")
        if mode == "serial":
            self.policy, self.p_switch, self.tick = "sticky", 0.0, 1e-5
            self.p_line = 0.0
            self.p_jump = 0.0
        else:
            self.policy = self.c.pick(st, POLICIES)
            self.p_switch = self.c.pick(st, [0.02, 0.1, 0.3, 0.7])
            self.tick = self.c.pick(st, [1e-5, 1e-4, 2e-3, 2e-2], [4, 3, 2, 1])
            self.p_line = (
                self.c.pick(st, [0.0, 0.005, 0.03, 0.2], [5, 2, 2, 2])
                if opts.get("lines", True)
                else 0.0
            )
            self.p_jump = self.c.pick(st, [0.0, 0.02], [3, 1])
            if self.p_line:
                self.p_stall = self.c.pick(st, [0.0, 0.1, 0.4], [2, 1, 1])
        # how many scheduling points a runnable thread may be passed over
        self.patience = self.c.pick(st, [150, 40, 800], [3, 2, 1])
        self.pct_points = set()
        if self.policy == "pct":
            d = self.c.between(st, 0, 4)
            for _ in range(d):
                self.pct_points.add(self.c.draw(st, 6000))
        self.crash_at_step = None
        main = SThread(0, "main")
        main.gate.release()
        main.gate.acquire(False)
        self.threads.append(main)
        self.runq.append(main)
        self.cur = main
        self.by_ident[_get_ident()] = main
        self._new_prio(main)
        self._draw_line_gap()

    # ------------------------------------------------------------ helpers
    def _new_prio(self, t):
        if self.policy == "pct":
            t.prio = self.c.draw(f"{self.e}:prio", 1000)
        elif self.policy == "starve" and t.tid:
            t.starved = self.c.chance(f"{self.e}:prio", 0.5)

    def _draw_line_gap(self):
        if self.p_line:
            p = self.p_line
            self.line_gap = self.c.take(
                self.s_line, 100000,
                lambda r: min(99999, 1 + int(r.expovariate(p))),
            )
        else:
            self.line_gap = 0

    def me(self):
        return self.by_ident.get(_get_ident())

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def op_switch(self, tag):
        """An operation-level scheduling decision made by a workload."""
        self.switches += 1
        self.h = zlib.crc32(str(tag).encode(), self.h)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def finish(self, outcome):
        self.report(outcome)

    def abort(self, reason):
        self.finish(("abort", reason, self.describe()))

    def crash(self, why):
        self.fire("crash")
        self.finish(("crashed", why, ""))

    def describe(self):
        out = []
        frames = sys._current_frames()
        ids = {t: i for i, t in self.by_ident.items()}
        for t in self.threads:
            if t.done:
                continue
            w = t.waiting.what if t.waiting is not None else (
                "sleep" if t.wake_at is not None else "runnable")
            where = []
            f = frames.get(ids.get(t))
            while f is not None and len(where) < 3:
                fn = f.f_code.co_filename
                if "/dattri/" in fn:
                    where.append(f"{os.path.basename(fn)}:{f.f_code.co_name}")
                f = f.f_back
            out.append(f"{t.tid}:{t.name}[{w}] at {' < '.join(where) or '?'}")
        return "; ".join(out)

    # ---------------------------------------------------------- scheduling
    def _wake(self, t, timed_out=False):
        t.waiting = None
        t.wake_at = None
        t.timed_out = timed_out
        t.last = self.steps
        t.wseq += 1
        rq = self.runq
        i = len(rq)
        while i and rq[i - 1].tid > t.tid:
            i -= 1
        rq.insert(i, t)

    def wake_all(self, wq):
        if wq.waiters:
            ws, wq.waiters = wq.waiters, []
            for t in ws:
                if t.waiting is wq:
                    self._wake(t)

    def _due(self):
        from heapq import heappop

        hp = self.sleep_heap
        while hp and hp[0][0] <= self.now:
            _, _, t, ws = heappop(hp)
            if not t.done and t.wseq == ws and t.wake_at is not None:
                w = t.waiting
                if w is not None and t in w.waiters:
                    w.waiters.remove(t)
                self._wake(t, timed_out=True)

    def _advance_idle(self):
        """Nobody runnable: jump to the next timer, or report a deadlock."""
        from heapq import heappop

        hp = self.sleep_heap
        while hp:
            at, _, t, ws = hp[0]
            if t.done or t.wseq != ws or t.wake_at is None:
                heappop(hp)
                continue
            self.now = max(self.now, at)
            self._due()
            self._budget()
            if self.runq:
                return
        self.abort("deadlock")

    def _budget(self):
        # time spent running (steps * tick) does not count: only waiting does
        if self.now - self.t0 - self.steps * self.tick > self.time_limit + 4 * self.injected:
            self.abort("time-limit")

    def _choose(self, cur_runnable):
        rq = self.runq
        n = len(rq)
        if n == 1:
            return rq[0]
        cur = self.cur
        if cur_runnable and rq[0] is not cur:
            order = [cur] + [t for t in rq if t is not cur]
        else:
            order = rq
        pol = self.policy

        def gen(r):
            # fairness: nobody runnable waits for ever, however unfair the policy
            for i in range(n):
                if order[i] is not cur and self.steps - order[i].last > self.patience:
                    return i
            if pol == "pct":
                if self.steps in self.pct_points and cur_runnable:
                    cur.prio = -r.randrange(1, 1000)
                b = max(range(n), key=lambda i: order[i].prio)
                return b
            if pol == "starve":
                ok = [i for i in range(n) if not order[i].starved]
                if not ok:
                    return r.randrange(n)
                if 0 in ok and cur_runnable and r.random() >= self.p_switch:
                    return 0
                return ok[r.randrange(len(ok))]
            if pol == "random":
                return r.randrange(n)
            if cur_runnable and r.random() >= self.p_switch:
                return 0
            return r.randrange(n)

        return order[self.c.take(self.s_sched, n, gen)]

    def _switch_to(self, nxt, tag):
        cur = self.cur
        if nxt is cur:
            return
        self.switches += 1
        self.h = zlib.crc32(b"%d:%s" % (nxt.tid, tag.encode()), self.h)
        nxt.last = cur.last = self.steps
        self.cur = nxt
        nxt.gate.release()
        cur.gate.acquire()

    def yield_point(self, tag):
        """The running thread offers to be preempted."""
        if self.quiet:
            return
        self.steps += 1
        self.now += self.tick
        if self.steps > self.max_steps:
            self.abort("step-budget")
        if self.crash_at_step is not None and self.steps >= self.crash_at_step:
            self.crash("step")
        if self.sleep_heap:
            self._due()
        if len(self.runq) > 1:
            self._switch_to(self._choose(True), tag)

    def block(self, wq, timeout=None, tag="block"):
        """Block the running thread on wq; returns False on timeout."""
        if self.quiet:
            raise HarnessError("blocking in quiet section: " + str(wq and wq.what))
        self.steps += 1
        self.now += self.tick
        if self.steps > self.max_steps:
            self.abort("step-budget")
        if self.crash_at_step is not None and self.steps >= self.crash_at_step:
            self.crash("step")
        t = self.cur
        t.waiting = wq
        if wq is not None:
            wq.waiters.append(t)
        t.timed_out = False
        if timeout is not None:
            from heapq import heappush

            t.wake_at = self.now + max(0.0, timeout)
            self.wseq += 1
            heappush(self.sleep_heap, (t.wake_at, self.wseq, t, t.wseq))
        self.runq.remove(t)
        self._due()
        self._budget()
        if not self.runq:
            self._advance_idle()
        self._switch_to(self._choose(False), tag)
        return not t.timed_out

    def sleep(self, dt, tag="sleep"):
        if self.quiet:
            self.now += dt
            return
        if dt <= 0:
            self.yield_point(tag)
            return
        self.block(None, dt, tag)

    def settle(self, dt):
        """dt seconds without new stalls, after what is stalled now went on."""
        p, self.p_stall = self.p_stall, 0.0
        self.sleep((8.0 if p else 0.0) + dt, "settle")
        self.p_stall = p

    def delay(self, dt):
        """An injected delay (slow disk, stalled node)."""
        self.injected += dt
        self.sleep(dt, "io")

    def wall(self):
        if self.p_jump and not self.quiet:
            k = self.c.take(
                self.s_time, 8,
                lambda r: 0 if r.random() >= self.p_jump else r.randrange(8),
            )
            if k:
                self.fire("clock-jump")
                self.wall_off += (0, -3600, -60, -1, -0.05, 0.5, 60, 7200)[k]
        return self.now + self.wall_off

    def on_line(self, code=None):
        self.lines += 1
        if self.lines > self.max_lines:
            self.abort("line-budget")
        if self.focus and self.focus_left and len(self.runq) > 1 and not self.quiet:
            n, k = self.focus
            if bucket(code) % n == k:
                self.focus_left -= 1
                j = self.c.take(self.s_line, 4, lambda r: 0 if r.random() < 0.5 else 1 + r.randrange(3))
                if j:
                    self.fire("thread-stalled")
                    self.delay((0, 0.0002, 0.005, 0.1)[j])
                return
        if self.line_gap:
            self.line_gap -= 1
            if not self.line_gap:
                self._draw_line_gap()
                if self.p_stall and not self.quiet and len(self.threads) > 1:
                    k = self.c.take(
                        self.s_line, 6,
                        lambda r: 0 if r.random() >= self.p_stall else r.randrange(1, 6),
                    )
                    if k:
                        self.fire("thread-stalled")
                        self.delay((0, 0.002, 0.02, 0.2, 1.5, 7.0)[k])
                        return
                self.yield_point("L")

    # -------------------------------------------------------------- threads
    def spawn(self, fn, args, name, kwargs=None):
        mem = self.memory
        if mem is not None:
            mem.take("a thread", RuntimeError)
            from .memory import OtherThread
        t = SThread(len(self.threads), name)
        self.threads.append(t)
        self._new_prio(t)

        def boot():
            t.gate.acquire()
            self.by_ident[_get_ident()] = t
            try:
                if mem is not None:
                    with OtherThread(mem):
                        fn(*args, **(kwargs or {}))
                else:
                    fn(*args, **(kwargs or {}))
            except SystemExit:
                pass
            except BaseException as e:  # noqa: BLE001
                t.exc = e
                self.thread_errors.append(f"{t.name}: {type(e).__name__}: {e}")
            t.done = True
            self.by_ident.pop(_get_ident(), None)
            for j in t.joiners:
                self.wake_all(j)
            self.runq.remove(t)
            if not self.runq:
                self._advance_idle()
            nxt = self._choose(False)
            self.switches += 1
            self.h = zlib.crc32(b"%d:x" % nxt.tid, self.h)
            nxt.last = self.steps
            self.cur = nxt
            nxt.gate.release()

        _real_start(boot, ())
        self._wake(t)
        self.yield_point("spawn")
        return t

    def join(self, t, timeout=None):
        """True if t finished."""
        deadline = None if timeout is None else self.now + timeout
        self.yield_point("join")
        while not t.done:
            rest = None if deadline is None else deadline - self.now
            if rest is not None and rest <= 0:
                return False
            wq = WaitQ(f"join {t.name}")
            t.joiners.append(wq)
            self.block(wq, rest, "join")
        return True

    def live_background(self):
        return [t for t in self.threads if not t.done and t.tid]
