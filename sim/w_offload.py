"""Workloads that drive the offload managers directly (D02 D05-D10)."""

from __future__ import annotations

import gc
import json
import os

import torch

from .core import HarnessError, Violation
from .util import (crash_opts, diff, fail, quiet, read_plan, slow, write_plan)

KIND = {"gradients": 0, "ifvp": 1}


def mods():
    from dattri.algorithm.block_projected_if import offload as o
    from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager

    return o, ChunkedDiskIOManager


# ------------------------------------------------------------------ values
EDGE = (float("inf"), 1e-45, 3.4028234e38, -3e-39, float("-inf"), 65520.0, 1 + 2**-23)


def value(kind, idx, ver, rows, dims, missing=()):
    """The batch `idx` in its version `ver`: every row is recognisable."""
    n = sum(dims)
    base = torch.arange(rows * n, dtype=torch.int64).reshape(rows, n)
    x = (base * 7919 + (idx * 31 + ver) * 104729 + KIND.get(kind, 2) * 15485863) % 16777213
    x = (x - 8388606).to(torch.float32) / 64
    if n >= 3 and rows:   # a value at the edge of the number range here and there
        k = idx * 5 + ver * 3 + rows
        x[k % rows, k % n] = EDGE[k % len(EDGE)]
    out, c = [], 0
    for i, d in enumerate(dims):
        if i in missing:
            out.append(torch.tensor([]))
        else:
            part = x[:, c:c + d]
            out.append(part if (idx + i) % 3 == 0 else part.contiguous())
        c += d
    return out


def expect(kind, idx, ver, rows, dims, missing=()):
    v = value(kind, idx, ver, rows, dims, missing)
    return torch.cat([torch.zeros(rows, d) if i in missing else v[i] for i, d in enumerate(dims)], 1)


def precond(layer, ver, dim):
    return value("precond", layer, ver, dim, [dim])[0]


def join(parts):
    return torch.cat(parts, 1)


def absent(parts):
    return all(p.numel() == 0 for p in parts)


class Spec:
    """What is to be stored: chunking, dims, batches."""

    def __init__(self, ctx, maxb=9, overflow=True, direct=None):
        self.layers = ctx.between(1, 3)
        self.dims = [ctx.between(1, 4) for _ in range(self.layers)]
        self.chunk = ctx.between(1, 4)
        self.n = ctx.between(1, maxb)
        if maxb > 7 and ctx.chance(0.15, s="many"):
            # many small chunks: the write queue and the buffer pool run full
            self.chunk = ctx.pick([1, 1, 2], s="many")
            self.n = ctx.between(10, 18, s="many") * self.chunk
        self.cap = 2048
        # a manager with a small chunk buffer, so that chunks overflow
        self.direct = ctx.chance(0.45) if direct is None else direct
        big = 4
        self.queue, self.workers = 4, 3
        if self.direct and ctx.chance(0.4, s="many"):
            self.queue, self.workers = ctx.between(1, 4, s="many"), ctx.between(1, 3, s="many")
        if self.direct and overflow:
            self.cap = ctx.between(2, 9)
        self.missing = {}
        self.rows = []
        for b in range(self.n):
            self.rows.append(1 + ctx.draw(big if not self.direct else min(4, self.cap)))
            if b and self.layers > 1 and ctx.chance(0.1):
                self.missing[b] = (ctx.draw(self.layers),)
        if not self.direct and overflow and ctx.chance(0.15):
            self.rows[ctx.draw(self.n)] = 1500
            self.rows[ctx.draw(self.n)] = 1500
        elif overflow and ctx.chance(0.08):
            self.rows[ctx.draw(self.n)] = self.cap + 1 + ctx.draw(3)  # larger than a chunk buffer

    def make(self, d):
        o, direct = mods()
        names = [f"l{i}" for i in range(self.layers)]
        if self.direct:
            return direct(d, "default", chunk_size=self.chunk, max_samples_per_chunk=self.cap,
                          buffer_pool_size=4, write_queue_size=self.queue,
                          num_write_workers=self.workers, num_threads=4)
        return o.create_offload_manager("disk", "cpu", names, d, self.chunk)

    def val(self, kind, b, ver=0):
        return value(kind, b, ver, self.rows[b], self.dims, self.missing.get(b, ()))

    def exp(self, kind, b, ver=0):
        return expect(kind, b, ver, self.rows[b], self.dims, self.missing.get(b, ()))

    def __repr__(self):
        return (f"dims={self.dims} chunk_size={self.chunk} rows={self.rows} "
                f"cap={self.cap} direct={self.direct} missing={self.missing} "
                f"queue={self.queue} workers={self.workers}")


def begin(m, lo, hi):
    (m.start_batch_range_processing if hasattr(m, "start_batch_range_processing") else m.start_batch_range)(lo, hi)


def finish(m):
    (m.finish_batch_range_processing if hasattr(m, "finish_batch_range_processing") else m.finalize_batch_range)()


def has_precond(m):
    return m.has_preconditioners()


# ------------------------------------------------------------------ checks
def check_loader(m, kind, want, where, batch_size=1, batch_range=None, pin=False, some=False):
    """want: {batch: tensor}; the loader yields exactly these, once each
    (some: these or fewer)."""
    seen = {}
    dl = m.create_gradient_dataloader(kind, batch_size=batch_size, pin_memory=pin, batch_range=batch_range)
    if dl is None:
        if want and not some:
            fail("loader-missing", where, kind, "no loader for", sorted(want))
        return []
    order = []
    for tensor, mapping in dl:
        rows = []
        for b, (s, e) in mapping.items():
            if b in seen:
                fail("duplicate-batch", where, kind, f"batch {b} delivered twice")
            seen[b] = 1
            order.append(b)
            rows += list(range(s, e))
            if b not in want:
                fail("extra-batch", where, kind, f"batch {b} delivered but not expected")
            got = tensor[s:e]
            if got.shape != want[b].shape or not torch.equal(got, want[b]):
                fail("wrong-rows", where, kind, f"batch {b}:", diff(got, want[b]))
        if sorted(rows) != list(range(tensor.shape[0])):
            fail("bad-mapping", where, kind, f"rows {sorted(rows)} do not cover the {tensor.shape[0]} rows of the item")
    miss = sorted(set(want) - set(seen))
    if miss and not some:
        fail("lost-batch", where, kind, f"batches {miss} never delivered")
    return order


def check_retrieve(m, kind, want, where):
    for b, w in want.items():
        got = (m.retrieve_gradients if kind == "gradients" else m.retrieve_ifvp)(b)
        if absent(got):
            fail("lost-batch", where, kind, f"batch {b} retrieved as empty")
        got = join(got)
        if got.shape != w.shape or not torch.equal(got, w):
            fail("wrong-rows", where, kind, f"retrieve of batch {b}:", diff(got, w))


def check_precond(m, want, where):
    for layer, w in want.items():
        got = m.retrieve_preconditioner(layer)
        if w is None:
            if got is not None:
                fail("ghost-preconditioner", where, f"layer {layer}")
            continue
        if got is None:
            fail("lost-preconditioner", where, f"layer {layer}")
        if got.shape != w.shape or not torch.equal(got, w):
            fail("wrong-preconditioner", where, f"layer {layer}:", diff(got, w))
    if want and any(w is not None for w in want.values()) != bool(has_precond(m)):
        fail("has_preconditioners", where, has_precond(m))


def verify(m, want, where, batch_size=1):
    for kind in ("gradients", "ifvp"):
        if kind in want:
            check_retrieve(m, kind, want[kind], where)
            check_loader(m, kind, want[kind], where, batch_size)
    if "precond" in want:
        check_precond(m, want["precond"], where)
    if want.get("ifvp") and not m.has_ifvp():
        fail("has_ifvp", where, "reports no IFVP")


def order_of(ctx, n, p=0.35):
    idx = list(range(n))
    if ctx.chance(p):
        for i in range(n - 1, 0, -1):
            j = i - ctx.draw(i + 1)
            idx[i], idx[j] = idx[j], idx[i]
    return idx


# --------------------------------------------------------------------- D02
def d02_barrier(ctx):
    spec = Spec(ctx)
    ctx.say("spec", spec)
    d = ctx.dir("cache")
    g_order, i_order = order_of(ctx, spec.n), order_of(ctx, spec.n)
    die_after = ctx.draw(4)  # 0: never; 1: after gradients, 2: preconditioners, 3: ifvp
    bs = ctx.between(1, 4)
    check_now = ctx.chance(0.6)
    interleave = ctx.chance(0.3)
    ranges = [(0, spec.n)]
    if spec.n > spec.chunk and ctx.chance(0.3):
        cut = spec.chunk * ctx.between(1, (spec.n - 1) // spec.chunk)
        ranges = [(0, cut), (cut, spec.n)]
    # the first batch stored defines the layer dimensions
    spec.missing.pop(next(b for b in g_order if b < ranges[0][1]), None)
    ctx.say("ranges", ranges, "order", g_order, i_order, "die after stage", die_after)

    def store(m, kind, order):
        for lo, hi in ranges:
            begin(m, lo, hi)
            for b in order:
                if lo <= b < hi:
                    (m.store_gradients if kind == "gradients" else m.store_ifvp)(b, spec.val(kind, b))
                    if interleave:
                        (m.retrieve_gradients if kind == "gradients" else m.retrieve_ifvp)(b)
            finish(m)

    def p1(s):
        m = spec.make(d)
        done = {}
        store(m, "gradients", g_order)
        done["gradients"] = {b: spec.exp("gradients", b) for b in range(spec.n)}
        if check_now:
            verify(m, done, "same process", bs)
        if die_after == 1:
            s.crash("after gradients barrier")
        for i, dim in enumerate(spec.dims):
            m.store_preconditioner(i, precond(i, 0, dim))
        m.wait_for_async_operations()
        done["precond"] = {i: precond(i, 0, dim) for i, dim in enumerate(spec.dims)}
        if check_now:
            verify(m, {"precond": done["precond"]}, "same process", bs)
        if die_after == 2:
            s.crash("after preconditioner barrier")
        store(m, "ifvp", i_order)
        m.wait_for_async_operations()
        done["ifvp"] = {b: spec.exp("ifvp", b) for b in range(spec.n)}
        if check_now:
            verify(m, done, "same process", bs)
        if die_after == 3:
            s.crash("after ifvp barrier")
        return sorted(done)

    o = ctx.epoch(p1, root=d, name="store", fsopts={"slow": slow(ctx, 5)})
    if o.kind == "exc":
        fail("store-failed", "no fault was injected but", o.value, o.detail[-600:])
    stages = {"crashed": {1: ["gradients"], 2: ["gradients", "precond"]}.get(
        die_after, ["gradients", "ifvp", "precond"])}.get(o.kind, ["gradients", "ifvp", "precond"])
    if max(spec.rows) > spec.cap:
        ctx.probe("batch larger than a chunk buffer")
    tot = {}
    for b in range(spec.n):
        tot[b // spec.chunk] = tot.get(b // spec.chunk, 0) + spec.rows[b]
    if max(tot.values()) > spec.cap:
        ctx.probe("chunk overflow")

    def p2(s):
        m = spec.make(d)
        want = {k: {b: spec.exp(k, b) for b in range(spec.n)} for k in stages if k != "precond"}
        if "precond" in stages:
            want["precond"] = {i: precond(i, 0, dim) for i, dim in enumerate(spec.dims)}
        verify(m, want, f"new process after {o.kind}", bs)
        return True

    o2 = ctx.epoch(p2, root=d, name="reopen", fsopts={"slow": slow(ctx, 2)})
    if o2.kind != "ok":
        fail("unreadable-after-barrier", o2.value, o2.detail[-600:])
    ctx.probe("verified by a new process")


# ----------------------------------------------------------- D03 (manager)
def d03_crash_store(ctx):
    """Die while storing; whatever a new process reads is exact or absent."""
    spec = Spec(ctx)
    d = ctx.dir("cache")
    ctx.say("spec", spec)
    fs, step = crash_opts(ctx, 12 + 6 * spec.n)
    order = order_of(ctx, spec.n)
    spec.missing.pop(order[0], None)
    second = ctx.chance(0.3)
    if second:
        ctx.say("an earlier complete pass, then a second one that dies")

    def go(s, die):
        m = spec.make(d)
        for ver in ((0,) if not (second and die) else (0,)):
            begin(m, 0, spec.n)
            for b in order:
                m.store_gradients(b, spec.val("gradients", b, ver))
            finish(m)
            for i, dim in enumerate(spec.dims):
                m.store_preconditioner(i, precond(i, ver, dim))
            m.wait_for_async_operations()
            begin(m, 0, spec.n)
            for b in range(spec.n):
                m.store_ifvp(b, spec.val("ifvp", b, ver))
            finish(m)
            m.wait_for_async_operations()
        return True

    def first(s):
        if step:
            s.crash_at_step = s.steps + step
        return go(s, True)

    if second:
        o = ctx.epoch(lambda s: go(s, False), root=d, name="complete")
        if o.kind != "ok":
            fail("store-failed", o.value, o.detail[-500:])
    o = ctx.epoch(first, root=d, name="dies", fsopts={"slow": slow(ctx, 2), **fs})
    ctx.say("first process:", o.kind, o.value)
    if o.kind == "crashed":
        ctx.probe("crashed while storing")

    def look(s):
        m = spec.make(d)
        for kind in ("gradients", "ifvp"):
            for b in range(spec.n):
                try:
                    got = (m.retrieve_gradients if kind == "gradients" else m.retrieve_ifvp)(b)
                except Exception:  # noqa: BLE001  an error is an honest answer
                    s.probe("read error reported")
                    continue
                if absent(got):
                    s.probe("reported absent")
                    continue
                got, w = join(got), spec.exp(kind, b)
                if got.shape != w.shape or not torch.equal(got, w):
                    fail("torn-batch", f"{kind} batch {b} after a crash:", diff(got, w))
            try:
                seen = set()
                for tensor, mapping in m.create_gradient_dataloader(kind, batch_size=2, pin_memory=False):
                    for b, (x, y) in mapping.items():
                        w = spec.exp(kind, b)
                        if b in seen:
                            fail("duplicate-batch", kind, b)
                        seen.add(b)
                        if tensor[x:y].shape != w.shape or not torch.equal(tensor[x:y], w):
                            fail("torn-batch", f"loader {kind} batch {b} after a crash:", diff(tensor[x:y], w))
            except Violation:
                raise
            except Exception:  # noqa: BLE001
                s.probe("loader error reported")
        for i, dim in enumerate(spec.dims):
            try:
                got = m.retrieve_preconditioner(i)
            except Exception:  # noqa: BLE001
                continue
            if got is not None and not torch.equal(got, precond(i, 0, dim)):
                fail("torn-preconditioner", i)
        return True

    o = ctx.epoch(look, root=d, name="look")
    if o.kind != "ok":
        if "Violation" in o.detail:
            raise HarnessError(o.detail)
        ctx.say("the new process reported", o.value)

    # running the same pass again repairs everything
    o = ctx.epoch(lambda s: go(s, False), root=d, name="again")
    if o.kind != "ok":
        fail("rerun-failed", o.value, o.detail[-600:])

    def final(s):
        m = spec.make(d)
        verify(m, {"gradients": {b: spec.exp("gradients", b) for b in range(spec.n)},
                   "ifvp": {b: spec.exp("ifvp", b) for b in range(spec.n)},
                   "precond": {i: precond(i, 0, dim) for i, dim in enumerate(spec.dims)}},
               "after the rerun", 2)
        return True

    o = ctx.epoch(final, root=d, name="verify")
    if o.kind != "ok":
        fail("unreadable-after-rerun", o.value, o.detail[-600:])


# ----------------------------------------------------------- D05 (manager)
def d05_write_fault(ctx):
    spec = Spec(ctx)
    ctx.say("spec", spec)
    d = ctx.dir("cache")
    plans = write_plan(ctx, 10 + 3 * spec.n)
    ctx.say("fault", plans)
    order = order_of(ctx, spec.n)
    spec.missing.pop(order[0], None)
    short = ctx.chance(0.2)
    prior = ctx.chance(0.3)   # an earlier successful pass with other values

    def one_pass(m, ver):
        begin(m, 0, spec.n)
        for b in order:
            m.store_gradients(b, spec.val("gradients", b, ver))
        finish(m)
        for i, dim in enumerate(spec.dims):
            m.store_preconditioner(i, precond(i, ver, dim))
        m.wait_for_async_operations()
        begin(m, 0, spec.n)
        for b in range(spec.n):
            m.store_ifvp(b, spec.val("ifvp", b, ver))
        finish(m)
        m.wait_for_async_operations()

    def want(ver):
        return {"gradients": {b: spec.exp("gradients", b, ver) for b in range(spec.n)},
                "ifvp": {b: spec.exp("ifvp", b, ver) for b in range(spec.n)},
                "precond": {i: precond(i, ver, dim) for i, dim in enumerate(spec.dims)}}

    if prior:
        o = ctx.epoch(lambda s: one_pass(spec.make(d), 1), root=d, name="earlier")
        if o.kind != "ok":
            fail("store-failed", o.value, o.detail[-500:])

    def faulty(s):
        m = None
        try:
            m = spec.make(d)
            one_pass(m, 0)
        except Exception as e:  # noqa: BLE001
            s.probe("fault surfaced" if any(p.hits for p in s.fs.plans) else "error")
            if not any(p.hits for p in s.fs.plans):
                raise
            err = f"{type(e).__name__}: {e}"
        else:
            err = None
            s.fs.clear_faults()
            try:
                verify(m, want(0), "no error was reported", 2)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                fail("silent-loss", "no error was reported by store or barrier, but reading says", repr(e))
        # the fault is over: the same process tries again
        s.fs.clear_faults()
        del m
        m = spec.make(d)
        try:
            one_pass(m, 0)
        except Exception as e:  # noqa: BLE001
            fail("no-recovery", f"after {err} cleared, storing again raised {e!r}")
        try:
            verify(m, want(0), f"after recovery from {err}", 2)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            fail("no-recovery", f"after {err} cleared, reading back raised {e!r}")
        return err

    o = ctx.epoch(faulty, root=d, name="faulty",
                  fsopts={"slow": slow(ctx, 5), "plans": plans, "short_writes": short})
    if o.kind == "exc":
        fail("store-failed", o.value, o.detail[-600:])


# ----------------------------------------------------------- D06 (manager)
def damage(ctx_draw, d, sub, s):
    """Truncate, empty or delete one stored file (harness side)."""


def d06_read_fault(ctx):
    spec = Spec(ctx, overflow=ctx.chance(0.5))
    ctx.say("spec", spec)
    d = ctx.dir("cache")
    mode = ctx.pick(["plan", "damage"], [3, 2])
    plans = read_plan(ctx, 6 + 3 * spec.n) if mode == "plan" else []
    hurt = (ctx.draw(64), ctx.draw(5))
    bs = ctx.between(1, 3)
    via = ctx.pick(["loader", "retrieve", "both"])
    starve = ctx.draw(3)
    ctx.say(mode, plans, hurt if mode == "damage" else "", via)

    def store(s):
        m = spec.make(d)
        begin(m, 0, spec.n)
        for b in range(spec.n):
            m.store_gradients(b, spec.val("gradients", b))
        finish(m)
        for i, dim in enumerate(spec.dims):
            m.store_preconditioner(i, precond(i, 0, dim))
        m.wait_for_async_operations()
        return True

    o = ctx.epoch(store, root=d, name="store", sched="serial")
    if o.kind != "ok":
        fail("store-failed", o.value, o.detail[-500:])

    def read(s):
        s.fs.plans, mine = [], s.fs.plans
        m = spec.make(d)
        hurt_file = None
        with quiet(s):
            if mode == "damage":
                files = sorted(
                    os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs)
                hurt_file = files[hurt[0] % len(files)]
                size = os.path.getsize(hurt_file)
                how = hurt[1]
                s.fire(f"damage-{('truncate-half', 'empty', 'delete', 'truncate-1', 'garbage')[how]}")
                if how == 2 or (how == 4 and not hurt_file.endswith((".json", ".pt"))):
                    os.unlink(hurt_file)
                elif how == 4:
                    with open(hurt_file, "wb") as f:
                        f.write(b"\x00garbage" * 3)
                else:
                    with open(hurt_file, "r+b") as f:
                        f.truncate({0: size // 2, 1: 0, 3: max(0, size - 1)}[how])
        s.fs.plans = mine
        rel = os.path.relpath(hurt_file, d) if hurt_file else ""
        want = {b: spec.exp("gradients", b) for b in range(spec.n)}
        errs = []
        # a deleted metadata+data pair is indistinguishable from never stored,
        # but a single missing file of a pair is not; deleting the metadata
        # alone leaves the data file behind.
        if via in ("retrieve", "both"):
            for b in range(spec.n):
                try:
                    got = m.retrieve_gradients(b)
                except Exception as e:  # noqa: BLE001
                    errs.append(repr(e))
                    continue
                if absent(got):
                    if rel.endswith("_metadata.json") and hurt[1] == 2:
                        s.probe("metadata gone: reported as absent")
                        continue
                    fail("unreadable-as-absent", f"batch {b} ({rel} damaged, faults {[p for p in mine if p.hits]}) retrieved as empty")
                got = join(got)
                if got.shape != want[b].shape or not torch.equal(got, want[b]):
                    fail("wrong-rows", f"batch {b}", diff(got, want[b]))
        if via in ("loader", "both"):
            seen = set()
            try:
                dl = m.create_gradient_dataloader("gradients", batch_size=bs, pin_memory=False)
                if starve == 1:
                    import time
                    time.sleep(0.5)  # let the prefetcher run ahead (and fail)
                for tensor, mapping in dl:
                    for b, (x, y) in mapping.items():
                        seen.add(b)
                        if tensor[x:y].shape != want[b].shape or not torch.equal(tensor[x:y], want[b]):
                            fail("wrong-rows", f"loader batch {b}", diff(tensor[x:y], want[b]))
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                errs.append(repr(e))
                s.probe("loader raised")
            else:
                if seen != set(want):
                    if not (rel.endswith("_metadata.json") and hurt[1] == 2):
                        fail("unreadable-as-absent", f"loader finished without batches {sorted(set(want) - seen)} "
                             f"({rel} damaged, faults {[p for p in mine if p.hits]})")
        for i, dim in enumerate(spec.dims):
            try:
                got = m.retrieve_preconditioner(i)
            except Exception as e:  # noqa: BLE001
                errs.append(repr(e))
                continue
            if got is None:
                if rel == os.path.join("precond", f"layer_{i}.pt") and hurt[1] == 2:
                    continue
                fail("unreadable-as-absent", f"preconditioner {i} ({rel} damaged, faults {[p for p in mine if p.hits]})")
            elif not torch.equal(got, precond(i, 0, dim)):
                fail("wrong-preconditioner", i)
        if mode == "plan":  # the fault was transient: reading works again
            s.fs.clear_faults()
            m2 = spec.make(d)
            try:
                verify(m2, {"gradients": want}, "after the read fault cleared", bs)
                verify(m, {"gradients": want}, "same manager after the read fault cleared", bs)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                fail("no-recovery", f"after the read fault cleared: {e!r}")
        return errs[:3]

    o = ctx.epoch(read, root=d, name="read", fsopts={"slow": slow(ctx, 2), "plans": plans})
    if o.kind == "exc":
        if any(h for _, h in o.stats["plans"]) or mode == "damage":
            ctx.say("surfaced outside the read calls:", o.value)
        else:
            fail("read-failed", o.value, o.detail[-600:])


# --------------------------------------------------------------------- D07
def d07_callers(ctx):
    spec = Spec(ctx, maxb=12)
    if ctx.chance(0.3):
        # enough chunks to go through the pool of chunk buffers more than once
        spec.chunk = ctx.between(2, 3)
        spec.n = ctx.between(24, 64)
        spec.rows = [1 + (i * 7 % min(3, spec.cap)) for i in range(spec.n)]
        spec.missing = {}
        ctx.probe("many chunks")
    ctx.say("spec", spec)
    d = ctx.dir("cache")
    nthreads = ctx.between(2, 4)
    owner = [ctx.draw(nthreads) for _ in range(spec.n)]
    readers = ctx.between(0, 3)
    # -1: the batch stored last (still buffered)
    reads = [[ctx.draw(spec.n) if ctx.chance(0.5) else -1 for _ in range(ctx.between(1, 16))] for _ in range(readers)]
    kinds = ["gradients"] + (["ifvp"] if ctx.chance(0.6) else [])
    order = order_of(ctx, spec.n)
    spec.missing.pop(order[0], None)
    preset = ctx.chance(0.5)
    if not preset:
        spec.missing.clear()  # whichever batch comes first defines the layer dimensions
    ctx.say("owner threads", owner, "readers", reads, kinds, "order", order)

    def p(s):
        import threading

        m = spec.make(d)
        stored = {}
        held = []  # the very tensors that were handed out
        for kind in kinds:
            ok, bad = {}, []
            viol = []
            begin(m, 0, spec.n)
            if preset and kind == "gradients":
                # the first batch fixes the layer dimensions before threads start
                m.store_gradients(order[0], spec.val(kind, order[0]))
                ok[order[0]] = 1

            def put(t, kind=kind, ok=ok):
                for b in order:
                    if owner[b] == t and b not in ok:
                        try:
                            (m.store_gradients if kind == "gradients" else m.store_ifvp)(b, spec.val(kind, b))
                        except Exception as e:  # noqa: BLE001
                            bad.append((b, repr(e)))
                        else:
                            ok[b] = 1

            def get(r, kind=kind):
                for b in reads[r]:
                    if b < 0:
                        b = next(reversed(ok), order[0])
                    try:
                        got = (m.retrieve_gradients if kind == "gradients" else m.retrieve_ifvp)(b)
                    except Exception:  # noqa: BLE001 reported, not wrong
                        s.probe("concurrent read raised")
                        continue
                    if absent(got):
                        continue
                    held.append((kind, b, got))
                    got, w = join(got).clone(), spec.exp(kind, b)
                    s.probe("concurrent read got data")
                    if got.shape != w.shape or not torch.equal(got, w):
                        viol.append(("mixed-read", f"{kind} batch {b}: {diff(got, w)}"))

            ts = [threading.Thread(target=put, args=(t,)) for t in range(nthreads)]
            ts += [threading.Thread(target=get, args=(r,)) for r in range(readers)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            finish(m)
            if viol:
                fail(*viol[0])
            if bad:
                s.probe("store raised")
                fail("store-failed", "no fault injected, but", bad[0])
            stored[kind] = {b: spec.exp(kind, b) for b in ok}
            verify(m, stored, "after the barrier", 2)
            for k, b, got in held:
                got, w = join(got).clone(), spec.exp(k, b)
                if got.shape != w.shape or not torch.equal(got, w):
                    fail("mixed-read", f"what was handed out as {k} batch {b} changed later: {diff(got, w)}")
        if s.thread_errors:
            s.probe("thread error")
        return True

    o = ctx.epoch(p, root=d, name="callers", fsopts={"slow": slow(ctx, 5)})
    if o.kind == "exc":
        fail("store-failed", o.value, o.detail[-600:])

    def again(s):
        verify(spec.make(d), {k: {b: spec.exp(k, b) for b in range(spec.n)} for k in kinds}, "new process", 2)
        return True

    o = ctx.epoch(again, root=d, name="reopen")
    if o.kind != "ok":
        fail("unreadable-after-barrier", o.value, o.detail[-500:])


# --------------------------------------------------------------------- D08
class FakeGPU:
    """Streams of a GPU that only record: copies started, copies waited for."""

    def __init__(self):
        self.started = self.waited = 0

    def wait_stream(self, other):
        self.waited = self.started

    wait_event = synchronize = wait_stream

    def __enter__(self):
        self.started += 1
        return self

    def __exit__(self, *a):
        pass


def check_overlap(m, kind, want, where, bs, batch_range):
    """The copying loop for GPUs, over recording streams."""
    from dattri.algorithm.block_projected_if.offload.disk_io import prefetch_dataset as pd

    if not hasattr(pd, "PrefetchDataLoader") or not hasattr(pd, "async_collate_fn"):
        return   # no such loop any more
    gpu = FakeGPU()
    stubs = {"is_available": lambda: True, "Stream": lambda *a, **k: gpu, "stream": lambda x: gpu,
             "current_stream": lambda *a, **k: gpu}
    ds = m.create_gradient_dataloader(kind, batch_size=1, pin_memory=False, batch_range=batch_range).dataset
    old = {k: getattr(torch.cuda, k) for k in stubs}
    for k, v in stubs.items():
        setattr(torch.cuda, k, v)
    try:
        dl = pd.PrefetchDataLoader(ds, device="cpu:0", batch_size=bs, num_workers=0, shuffle=False,
                                   collate_fn=pd.async_collate_fn, generator=torch.Generator())
        seen = set()
        for i, (t, mapping) in enumerate(dl):
            if gpu.waited <= i:
                fail("early-delivery", where, f"item {i} delivered after waiting for {gpu.waited} copies")
            for b, (x, y) in mapping.items():
                if b in seen:
                    fail("duplicate-batch", where, b)
                seen.add(b)
                if b not in want or t[x:y].shape != want[b].shape or not torch.equal(t[x:y], want[b]):
                    fail("wrong-rows", where, kind, b)
        if seen != set(want):
            fail("lost-batch", where, kind, f"batches {sorted(set(want) - seen)[:10]} never delivered")
    finally:
        for k, v in old.items():
            setattr(torch.cuda, k, v)


def d08_loader(ctx):
    many = ctx.chance(0.25)
    if many:
        spec = Spec(ctx, maxb=1, overflow=False, direct=False)
        spec.n = ctx.between(40, 120)
        spec.rows = [1 + (i * 7 % 3) for i in range(spec.n)]
        spec.missing = {}
        spec.chunk = ctx.between(1, 3)
    else:
        spec = Spec(ctx, maxb=14)
    if ctx.chance(0.15) and not many:  # many batch indices: three-digit numbers
        spec.n = 103
        spec.rows = [1 + (i * 5 % 3) for i in range(spec.n)]
        spec.missing = {}
        spec.chunk = ctx.pick([3, 10, 4])
        if spec.direct:
            spec.cap = max(spec.cap, 3)
    ctx.say("spec", spec)
    d = ctx.dir("cache")
    order = order_of(ctx, spec.n, 0.2)
    spec.missing.pop(order[0], None)
    actions = []
    for _ in range(ctx.between(1, 4)):
        a = ctx.pick(["full", "range", "lockstep", "abandon", "random", "twice", "memory", "overlap"],
                     [6, 6, 6, 2, 4, 2, 4, 1])
        lo = ctx.draw(spec.n)
        hi = min(spec.n, lo + 1 + ctx.draw(spec.n))
        actions.append((a, ctx.between(1, 5), lo, hi, ctx.draw(1000), ctx.draw(3)))
    if order != sorted(order) and any(
            sum(spec.rows[k:k + spec.chunk]) > spec.cap for k in range(0, spec.n, spec.chunk)):
        # out of batch order the parts of an overflowing chunk hold whatever
        # batches happened to fit, so the parts of two kinds need not pair up
        actions = [("full" if a[0] == "lockstep" else a[0], *a[1:]) for a in actions]
    ctx.say("actions", actions)
    pause = ctx.pick([0.0, 0.003, 0.05, 0.6])

    def store(s):
        m = spec.make(d)
        begin(m, 0, spec.n)
        for b in order:
            m.store_gradients(b, spec.val("gradients", b))
        finish(m)
        begin(m, 0, spec.n)
        # the attributor computes IFVPs in the order in which it loads gradients
        for _, mapping in m.create_gradient_dataloader("gradients", batch_size=2, pin_memory=False):
            for b in mapping:
                m.store_ifvp(b, spec.val("ifvp", b))
        finish(m)
        return True

    o = ctx.epoch(store, root=d, name="store", sched="serial")
    if o.kind != "ok":
        fail("store-failed", o.value, o.detail[-500:])

    def p(s):
        import time

        m = spec.make(d)
        width = sum(spec.dims)
        for a, bs, lo, hi, r, slowness in actions:
            kind = ("gradients", "ifvp")[r % 2]
            allw = {b: spec.exp(kind, b) for b in range(spec.n)}
            s.probe("loader " + a)
            if a in ("full", "range"):
                want = allw if a == "full" else {b: allw[b] for b in range(lo, hi)}
                got = check_loader(m, kind, want, f"{a} [{lo},{hi})", bs, None if a == "full" else (lo, hi), pin=r % 3 == 0)
                if got != sorted(got):
                    s.probe("loader not in batch order")
            elif a == "lockstep":
                rng = None if r % 3 else (lo, hi)
                gl = m.create_gradient_dataloader("gradients", batch_size=bs, pin_memory=False, batch_range=rng)
                il = m.create_gradient_dataloader("ifvp", batch_size=bs, pin_memory=False, batch_range=rng)
                want = set(range(spec.n)) if rng is None else set(range(lo, hi))
                seen = set()
                for (gt, gm), (it, im) in zip(gl, il):
                    if slowness == 2 and pause:
                        time.sleep(pause)
                    for b in gm:
                        if b in im:
                            if b in seen:
                                fail("duplicate-batch", "lockstep", b)
                            seen.add(b)
                            for t, mm, k in ((gt, gm, "gradients"), (it, im, "ifvp")):
                                x, y = mm[b]
                                w = spec.exp(k, b)
                                if t[x:y].shape != w.shape or not torch.equal(t[x:y], w):
                                    fail("wrong-rows", "lockstep", k, b, diff(t[x:y], w))
                    if set(gm) != set(im):
                        fail("lockstep", f"a step pairs gradient batches {sorted(gm)} with IFVP batches {sorted(im)}")
                if seen != want:
                    fail("lost-batch", "lockstep iteration never paired batches", sorted(want - seen)[:10])
            elif a == "abandon":
                dl = m.create_gradient_dataloader(kind, batch_size=bs, pin_memory=False)
                for k, _ in enumerate(dl):
                    if k >= r % 3:
                        break
                check_loader(m, kind, allw, "after an abandoned iteration", bs)
                del dl
            elif a == "twice":
                dl = m.create_gradient_dataloader(kind, batch_size=bs, pin_memory=False)
                for rnd in range(2):
                    seen = set()
                    for t, mp in dl:
                        for b, (x, y) in mp.items():
                            if b in seen:
                                fail("duplicate-batch", f"iteration {rnd}", b)
                            seen.add(b)
                            if t[x:y].shape != allw[b].shape or not torch.equal(t[x:y], allw[b]):
                                fail("wrong-rows", f"iteration {rnd} batch {b}", diff(t[x:y], allw[b]))
                    if seen != set(allw):
                        fail("lost-batch", f"iteration {rnd}", sorted(set(allw) - seen)[:10])
            elif a == "random":
                ds = m.create_gradient_dataloader(kind, batch_size=1, pin_memory=False).dataset
                n = len(ds)
                got = {}
                x = r
                for step in range(min(3 * n, 40)):
                    x = (x * 1103515245 + 12345) % (1 << 31)
                    i = (x >> 8) % n
                    t, mp = ds[i]
                    if i in got and got[i] != sorted(mp):
                        fail("random-access", f"item {i} holds {sorted(mp)}, earlier {got[i]}")
                    got[i] = sorted(mp)
                    for b, (u, v) in mp.items():
                        if not torch.equal(t[u:v], allw[b]):
                            fail("wrong-rows", f"random access item {i} batch {b}", diff(t[u:v], allw[b]))
                    if pause and slowness == 2:
                        time.sleep(pause)
                allb = [b for i in range(n) for b in ds[i][1]]
                if sorted(allb) != sorted(allw):
                    fail("lost-batch", "random access over all items gives", len(allb), "batches of", len(allw))
            elif a == "overlap":
                rng = None if r % 2 else (lo, hi)
                check_overlap(m, kind, {b: w for b, w in allw.items() if rng is None or lo <= b < hi},
                              "copying to a GPU", bs, rng)
            elif a == "memory":
                def live_tensors():
                    with quiet(s):
                        gc.collect()
                        return len({t.data_ptr() for t in gc.get_objects()
                                    if isinstance(t, torch.Tensor) and t.dim() == 2
                                    and t.shape[1] == width and t.dtype == torch.float32
                                    and t.shape[0] >= 1})

                base = live_tensors()
                dl = m.create_gradient_dataloader(kind, batch_size=1, pin_memory=False)
                nchunks = len(dl)
                worst = 0
                if r % 4 < 2:
                    items = iter(dl)
                else:   # access by index: from the end, or anywhere
                    ds = dl.dataset
                    at = range(nchunks - 1, -1, -1) if r % 4 == 2 else [(i * 37 + r) % nchunks for i in range(nchunks)]
                    items = (ds[i] for i in at)
                for k, item in enumerate(items):
                    del item
                    if pause and slowness:
                        time.sleep(pause)
                    if k % 5 == 4 or k == nchunks - 1:
                        worst = max(worst, live_tensors())
                extra = worst - base
                if nchunks >= 30:
                    s.probe("memory bound measured")
                    if extra > 28:
                        fail("unbounded-memory", f"{extra} chunk tensors alive while accessing {nchunks} chunks one by one "
                             f"({'forwards' if r % 4 < 2 else 'backwards' if r % 4 == 2 else 'at random'})")
                del dl, items
                ds = None
        return True

    o = ctx.epoch(p, root=d, name="load", fsopts={"slow": slow(ctx, 3)})
    if o.kind == "exc":
        fail("load-failed", o.value, o.detail[-600:])


# --------------------------------------------------------------------- D09
def d09_lifecycle(ctx):
    spec = Spec(ctx, maxb=8)
    ctx.say("spec", spec)
    d = ctx.dir("cache")
    rounds = ctx.between(1, 4)
    how = [ctx.pick(["barrier", "nobarrier", "loader", "midloader", "idle"], [3, 3, 3, 2, 1]) for _ in range(rounds)]
    also_pre = ctx.chance(0.4)
    partial = ctx.between(0, spec.n)
    ctx.say("rounds", how, "stores before a drop without barrier:", partial)

    def p(s):
        import time

        base = len(s.live_background())
        acked = {}
        maybe = {}
        for r, h in enumerate(how):
            sub = os.path.join(d, f"r{r}")
            m = spec.make(sub)
            if h == "barrier":
                begin(m, 0, spec.n)
                for b in range(spec.n):
                    m.store_gradients(b, spec.val("gradients", b, r))
                finish(m)
                if also_pre:
                    for i, dim in enumerate(spec.dims):
                        m.store_preconditioner(i, precond(i, r, dim))
                    m.wait_for_async_operations()
                acked[r] = 1
            elif h == "nobarrier":
                begin(m, 0, spec.n)
                for b in range(partial):
                    m.store_gradients(b, spec.val("gradients", b, r))
                maybe[r] = 1
            elif h in ("loader", "midloader"):
                begin(m, 0, spec.n)
                for b in range(spec.n):
                    m.store_gradients(b, spec.val("gradients", b, r))
                finish(m)
                acked[r] = 1
                dl = m.create_gradient_dataloader("gradients", batch_size=1, pin_memory=False)
                it = iter(dl)
                next(it)
                if h == "loader":
                    for _ in it:
                        pass
                before = len(s.live_background())
                _ = None
                del it, dl
                with quiet(s):
                    gc.collect()
                s.settle(5)
                after = len(s.live_background())
                s.probe("loader dropped")
                if after >= before and before > base:
                    # the manager is still alive; only the loader's thread must go
                    names = [t.name for t in s.live_background()]
                    fail("thread-leak", f"round {r}: {before} background threads before and {after} after dropping the loader: {names}")
            del m
            gc.collect()
            for _ in range(8):
                s.settle(5)
                if len(s.live_background()) <= base:
                    break
            left = s.live_background()
            if len(left) > base:
                fail("thread-leak", f"round {r} ({h}): {len(left)} background threads alive 40 s after the drop: {[t.name for t in left]}")
            n0 = s.fs.n
            s.settle(10)
            if s.fs.n != n0:
                fail("late-io", f"round {r} ({h}): {s.fs.n - n0} file operations after the threads stopped")
            # what is on disk is intact or absent
            m = spec.make(sub)
            want = {b: spec.exp("gradients", b, r) for b in range(spec.n)}
            if r in acked:
                verify(m, {"gradients": want}, f"round {r} after the drop", 2)
                if h == "barrier" and also_pre:
                    check_precond(m, {i: precond(i, r, dim) for i, dim in enumerate(spec.dims)}, f"round {r} after the drop")
            elif r in maybe:
                for b in range(spec.n):
                    try:
                        got = m.retrieve_gradients(b)
                    except Exception:  # noqa: BLE001
                        s.probe("absent after drop")
                        continue
                    if absent(got):
                        s.probe("absent after drop")
                        continue
                    s.probe("present after drop")
                    if b >= partial or not torch.equal(join(got), want[b]):
                        fail("torn-batch", f"round {r} batch {b} after a drop without barrier")
                try:
                    got = check_loader(m, "gradients", {b: want[b] for b in range(partial)},
                                       f"round {r} after a drop without barrier", 2, some=True)
                    if got:
                        s.probe("loader over a directory dropped without barrier")
                except Violation:
                    raise
                except Exception:  # noqa: BLE001
                    s.probe("absent after drop")
            del m
            gc.collect()
            s.settle(20)
        left = s.live_background()
        if len(left) > base:
            fail("thread-leak", f"{len(left)} background threads at the end: {[t.name for t in left]}")
        return True

    o = ctx.epoch(p, root=d, name="life", fsopts={"slow": slow(ctx, 2)}, time_limit=2500.0)
    if o.kind == "exc":
        fail("lifecycle-failed", o.value, o.detail[-600:])


# --------------------------------------------------------------------- D10
def d10_history(ctx):
    """One history, three strategies, one model map."""
    o, _ = mods()
    layers = ctx.between(1, 2)
    dims = [ctx.between(1, 3) for _ in range(layers)]
    chunk = ctx.between(1, 3)
    n = ctx.between(1, 7)
    rows = [1 + ctx.draw(3) for _ in range(n)]
    hist = []
    groups = {"grad": [], "ifvp": []}   # batch ranges stored since the last clear
    nops = ctx.between(2, 9)
    ver = 0
    for _ in range(nops):
        op = ctx.pick(["grad", "ifvp", "pre", "retrieve", "loader", "clear", "restart", "resize", "miss"],
                      [6, 4, 3, 5, 5, 2, 2, 1, 2])
        if op in ("grad", "ifvp"):
            ver += 1
            if op == "ifvp" and not groups["grad"]:
                continue  # IFVPs are computed from stored gradients
            c0 = ctx.draw((n + chunk - 1) // chunk)
            c1 = c0 + 1 + ctx.draw(n)
            lo, hi = chunk * c0, min(n, chunk * c1)
            again = ctx.draw(4)
            sel = [b for b in range(lo, hi) if not ctx.chance(0.15)] or [lo]
            if ctx.chance(0.2):
                sel.reverse()
            clash = [g for g in groups[op] if g[0] < hi and lo < g[1]]
            if clash or (groups[op] and again > 1):
                # a range is stored again as a whole
                lo, hi, sel = (clash or groups[op])[again % len(clash or groups[op])]
            else:
                groups[op].append((lo, hi, sel))
            hist.append((op, ver, lo, hi, sel))
        elif op == "pre":
            ver += 1
            hist.append((op, ver, [(i, not ctx.chance(0.2)) for i in range(layers) if not ctx.chance(0.3)]))
        elif op == "loader":
            lo = ctx.draw(n)
            hist.append((op, ctx.draw(2), ctx.between(1, 4), None if ctx.chance(0.5) else (lo, lo + 1 + ctx.draw(n))))
        elif op == "resize":
            hist.append((op, [1 + ctx.draw(3) for _ in range(n)]))
        else:
            if op == "clear":
                groups = {"grad": [], "ifvp": []}
            hist.append((op,))
    ctx.say("dims", dims, "chunk_size", chunk, "rows", rows)
    for h in hist:
        ctx.say("  ", *h)
    d = ctx.dir("cache")
    kinds = ["gradients", "ifvp"]

    def play(s):
        names = [f"l{i}" for i in range(layers)]
        ms = {k: o.create_offload_manager(k, "cpu", names, d if k == "disk" else None, chunk)
              for k in ("disk", "cpu", "none")}
        model = {"gradients": {}, "ifvp": {}}
        pre = {}
        rws = list(rows)

        def call(m, f, *a):
            g = getattr(m, f, None)
            if g is not None:
                return g(*a)
            return None

        def compare(where, full=False):
            for who, m in ms.items():
                w = f"{where} [{who}]"
                for k in kinds:
                    for b in range(n):
                        try:
                            got = (m.retrieve_gradients if k == "gradients" else m.retrieve_ifvp)(b)
                        except ValueError:
                            if model["gradients"] or model["ifvp"]:
                                raise
                            continue  # nothing was ever stored: dimensions unknown
                        if b not in model[k]:
                            if not absent(got):
                                fail("ghost-batch", w, f"{k} batch {b} returned though it was never stored or was cleared")
                            continue
                        if absent(got):
                            fail("lost-batch", w, f"{k} batch {b}")
                        got = join(got)
                        if got.shape != model[k][b].shape or not torch.equal(got, model[k][b]):
                            fail("stale-batch", w, f"{k} batch {b}:", diff(got, model[k][b]))
                if bool(m.has_ifvp()) != bool(model["ifvp"]):
                    fail("has_ifvp", w, f"says {m.has_ifvp()}, stored {sorted(model['ifvp'])}")
                check_precond(m, {i: pre.get(i) for i in range(layers)}, w)
                if bool(m.has_preconditioners()) != bool(pre):
                    fail("has_preconditioners", w, m.has_preconditioners(), sorted(pre))
            if full:
                for who, m in ms.items():
                    for k in kinds:
                        check_loader(m, k, model[k], f"{where} [{who}]", 2)

        for step, h in enumerate(hist):
            where = f"step {step} {h[0]}"
            if h[0] in ("grad", "ifvp"):
                k = "gradients" if h[0] == "grad" else "ifvp"
                if k == "ifvp" and not model["gradients"]:
                    continue  # IFVPs are computed from stored gradients
                hasty = step + 1 < len(hist) and hist[step + 1][0] == "clear" and ctx.draw(4, s="hasty")
                for m in ms.values():
                    call(m, "start_batch_range_processing", h[2], h[3])
                    for b in h[4]:
                        (m.store_gradients if k == "gradients" else m.store_ifvp)(b, value(k, b, h[1], rws[b], dims))
                    if hasty == 3:
                        continue  # cleared in the middle of a range
                    call(m, "finish_batch_range_processing")
                    if not hasty:
                        m.wait_for_async_operations()
                if hasty:
                    s.probe("cleared while writes were queued")
                for b in h[4]:
                    model[k][b] = expect(k, b, h[1], rws[b], dims)
                    s.probe("store")
            elif h[0] == "pre":
                for m in ms.values():
                    for i, some in h[2]:
                        m.store_preconditioner(i, precond(i, h[1], dims[i]) if some else None)
                    m.wait_for_async_operations()
                for i, some in h[2]:
                    if some:
                        pre[i] = precond(i, h[1], dims[i])
                    else:
                        pre.pop(i, None)
            elif h[0] == "retrieve":
                compare(where)
            elif h[0] == "loader":
                k = kinds[h[1]]
                want = {b: t for b, t in model[k].items() if h[3] is None or h[3][0] <= b < h[3][1]}
                for who, m in ms.items():
                    check_loader(m, k, want, f"{where} [{who}]", h[2], h[3])
            elif h[0] == "clear":
                for m in ms.values():
                    m.clear_cache()
                model = {"gradients": {}, "ifvp": {}}
                pre = {}
                s.probe("clear")
            elif h[0] == "restart":
                ms["disk"] = None
                gc.collect()
                ms["disk"] = o.create_offload_manager("disk", "cpu", names, d, chunk)
                s.probe("restart")
            elif h[0] == "resize":
                rws = list(h[1])
            elif h[0] == "miss":
                for who, m in ms.items():
                    try:
                        got = m.retrieve_gradients(n + 5)
                    except ValueError:
                        continue
                    if not absent(got):
                        fail("ghost-batch", where, who)
        compare("end", full=True)
        return True

    r = ctx.epoch(play, root=d, name="history", fsopts={"slow": slow(ctx, 2)})
    if r.kind == "exc":
        fail("history-failed", r.value, r.detail[-700:])


_ = json
