"""Batch metadata (D12)."""

from __future__ import annotations

import json
import os

import torch
from torch.utils.data import DataLoader, TensorDataset

from .util import crash_opts, fail, quiet, slow, write_plan


class _Pick:
    def __init__(self, idx):
        self.idx = list(idx)

    def __iter__(self):
        return iter(self.idx)

    def __len__(self):
        return len(self.idx)


def draw_set(ctx):
    n = ctx.between(1, 23)
    bs = ctx.between(1, 6)
    drop = ctx.chance(0.15) and n >= bs
    sub = n > 1 and ctx.chance(0.2)
    return {"n": n, "bs": bs, "drop": drop, "take": (max(1, n // 2) if sub else n)}


def loader(v):
    ds = TensorDataset(torch.zeros(v["n"], 1))
    kw = {}
    if v["take"] != v["n"]:
        kw["sampler"] = _Pick(range(v["n"] - v["take"], v["n"]))
    return DataLoader(ds, batch_size=v["bs"], drop_last=v["drop"], **kw)


def tiling(v):
    """What a correct metadata manager knows about data set v."""
    out, at, b = {}, 0, 0
    left = v["take"]
    while left > 0:
        k = min(v["bs"], left)
        if k < v["bs"] and v["drop"]:
            break
        out[b] = (at, at + k)
        at += k
        left -= k
        b += 1
    return out


def parse(path):
    """The tiling a metadata file describes; fails if it is torn."""
    with open(path, encoding="utf-8") as f:
        text = f.read()
    try:
        m = json.loads(text)
        got = {int(k): (x["start_idx"], x["start_idx"] + x["sample_count"]) for k, x in m["batch_info"].items()}
        total = m["total_samples"]
    except Exception as e:  # noqa: BLE001
        fail("torn-metadata", f"{len(text)} bytes, {e!r}: {text[:120]!r}")
    at = 0
    for b in sorted(got):
        if got[b][0] != at:
            fail("not-tiled", f"the file says {got}")
        at = got[b][1]
    if total != at:
        fail("not-tiled", f"the file says {got} but {total} samples in total")
    return got


def ordered(m):
    return [m[k] for k in sorted(m)]


def d12_atomic(ctx):
    """A history of initialisations, updates and saves; faults; crash."""
    from dattri.algorithm.block_projected_if.core.metadata import MetadataManager

    d = ctx.dir("cache")
    names = ["a", "b"]
    versions = [draw_set(ctx) for _ in range(ctx.between(1, 3))]
    mode = ctx.pick(["plain", "crash", "fault"], [3, 3, 3])
    path = os.path.join(d, "batch_metadata.json")
    ops = []
    for i in range(len(versions)):
        ops.append(("init", i))
        for _ in range(ctx.between(0, 3)):
            ops.append((ctx.pick(["save", "dims", "map", "confirm", "reopen"]), i))
    helpers = ctx.between(0, 2)
    hops = [[ctx.pick(["save", "map", "total"]) for _ in range(ctx.between(1, 4))] for _ in range(helpers)]
    ctx.say("data sets", versions, "ops", ops, "other threads", hops, mode)
    legal = [None, {}] + [tiling(v) for v in versions]
    if mode == "crash":
        fs, step = crash_opts(ctx, 30)
    else:
        fs, step = {}, None
    plans = write_plan(ctx, 12, match="batch_metadata") if mode == "fault" else []

    def on_disk(where):
        if not os.path.exists(path):
            return None
        got = parse(path)
        if got not in legal:
            fail("unknown-version", where, f"the file says {got}; data sets {versions}")
        return got

    def p(s):
        import threading

        if step:
            s.crash_at_step = s.steps + step
        viol = []
        stop = []

        def watch():
            # another process looking at the file at arbitrary instants
            while not stop and not viol:
                with quiet(s):
                    try:
                        on_disk("while running:")
                    except Exception as e:  # noqa: BLE001
                        viol.append(e)
                s.yield_point("watch")
                s.sleep(0.01)

        w = threading.Thread(target=watch, daemon=True)
        w.start()
        m = MetadataManager(d, names)
        errs = 0
        current = None

        def mapping(where, i, settled):
            got = m.get_batch_to_sample_mapping()
            want = tiling(versions[i])
            if settled and (got != want or list(got) != sorted(got)):
                fail("wrong-mapping", where, f"{got} instead of {want} for {versions[i]}")
            if settled and m.get_total_samples() != (max((e for _, e in want.values()), default=0)):
                fail("wrong-total", where, m.get_total_samples(), versions[i])
            if settled and m.get_total_batches() != len(want):
                fail("wrong-total", where, m.get_total_batches(), "batches", versions[i])

        ts = []

        def helper(k):
            for op in hops[k]:
                try:
                    if op == "save":
                        m.save_metadata()
                    elif op == "map":
                        got = m.get_batch_to_sample_mapping()
                        at = 0
                        for b in sorted(got):
                            if got[b][0] != at:
                                raise AssertionError(f"not tiled: {got}")
                            at = got[b][1]
                    else:
                        m.get_total_samples()
                except AssertionError as e:
                    viol.append(e)
                except OSError:
                    if not any(q.hits for q in s.fs.plans):
                        raise
            _ = k

        started = False
        for op, i in ops:
            try:
                if op == "init":
                    m.initialize_complete_dataset(loader(versions[i]))
                    current = i
                    # threads that work with a data set start once it is known
                    if not started and current == len(versions) - 1:
                        started = True
                        ts = [threading.Thread(target=helper, args=(k,)) for k in range(helpers)]
                        for t in ts:
                            t.start()
                elif op == "save":
                    m.save_metadata()
                elif op == "dims":
                    m.set_layer_dims([2, i + 1])
                elif op == "confirm" and current is not None:
                    t = tiling(versions[current])
                    for b in sorted(t):
                        m.add_batch_info(b, t[b][1] - t[b][0])
                elif op == "map" and current is not None:
                    mapping("same process", current, True)
                elif op == "reopen" and current is not None:
                    got = MetadataManager(d, names).get_batch_to_sample_mapping()
                    if got != tiling(versions[current]):
                        fail("wrong-mapping", "reopened", f"{got} instead of {tiling(versions[current])}")
            except OSError as e:
                errs += 1
                if not any(q.hits for q in s.fs.plans):
                    fail("metadata-failed", f"no fault fired but {op} raised {e!r}")
                s.probe("failed save surfaced")
                if op == "init":
                    current = None
        for t in ts:
            t.join()
        stop.append(1)
        w.join()
        if viol:
            e = viol[0]
            fail(getattr(e, "kind", "not-tiled"), str(getattr(e, "detail", e)))
        s.fs.clear_faults()
        if current is not None:
            mapping("at the end", current, True)
        m.save_metadata()
        if current is not None:
            got = on_disk("at the end:")
            if got != tiling(versions[current]):
                fail("wrong-mapping", "file at the end", got, versions[current])
        left = [x for x in os.listdir(d) if x != "batch_metadata.json" and not x.endswith(".tmp")]
        if left:
            fail("stray-files", left)
        return [current, errs]

    o = ctx.epoch(p, root=d, name="run", fsopts={"slow": slow(ctx, 3), "plans": plans, **fs})
    if o.kind == "exc":
        fail("metadata-failed", o.value, o.detail[-600:])
    got = on_disk(f"after {o.kind}:")
    if o.kind == "crashed":
        ctx.probe("crashed")

    def again(s):
        m = MetadataManager(d, names)
        x = m.get_batch_to_sample_mapping()
        if x != (got or {}):
            fail("wrong-mapping", "new process", f"{x} but the file says {got}")
        m.initialize_complete_dataset(loader(versions[0]))
        x = m.get_batch_to_sample_mapping()
        if x != tiling(versions[0]):
            fail("wrong-mapping", "initialised by a new process", f"{x} instead of {tiling(versions[0])}")
        y = MetadataManager(d, names).get_batch_to_sample_mapping()
        if y != x:
            fail("wrong-mapping", "reloaded", y, x)
        return True

    o = ctx.epoch(again, root=d, name="again")
    if o.kind != "ok":
        fail("metadata-failed", "new process:", o.value, o.detail[-500:])


def d12_updates(ctx):
    """Several threads add batches and save; nothing is lost, all is tiled."""
    from dattri.algorithm.block_projected_if.core.metadata import MetadataManager

    d = ctx.dir("cache")
    path = os.path.join(d, "batch_metadata.json")
    base = draw_set(ctx) if ctx.chance(0.5) else None
    nb = ctx.between(1, 10)
    first = len(tiling(base)) if base else 0
    counts = {first + i: ctx.between(1, 5) for i in range(nb)}
    nt = ctx.between(1, 4)
    owner = {b: ctx.draw(nt) for b in counts}
    order = sorted(counts, key=lambda b: ctx.draw(100))
    saves = [ctx.draw(3) for _ in range(nt)]
    keep_dir = ctx.chance(0.85)
    mode = ctx.pick(["plain", "crash"], [3, 1])
    again = draw_set(ctx) if ctx.chance(0.35) else None  # the data set that comes after
    blind = again is not None and ctx.chance(0.6)  # the last updates are not read before
    ctx.say("then", again, "unread", blind)
    ctx.say("initialised with", base, "added", counts, "threads", owner, "order", order, "saves", saves)
    want = dict(tiling(base)) if base else {}
    at = max((e for _, e in want.values()), default=0)
    for b in sorted(counts):
        want[b] = (at, at + counts[b])
        at += counts[b]
    fs, step = crash_opts(ctx, 30) if mode == "crash" and keep_dir else ({}, None)

    def p(s):
        import threading

        if step:
            s.crash_at_step = s.steps + step
        m = MetadataManager(d if keep_dir else None, ["a"])
        if base:
            m.initialize_complete_dataset(loader(base))
        viol = []

        def add(t):
            k = 0
            for b in order:
                if owner[b] == t:
                    m.add_batch_info(b, counts[b])
                    k += 1
                    if saves[t] and k % saves[t] == 0:
                        m.save_metadata()
                    if blind:
                        continue
                    got = m.get_batch_to_sample_mapping()
                    at = 0
                    for x in sorted(got):
                        if got[x][0] != at:
                            viol.append(f"{got}")
                        at = got[x][1]
                    if b not in got or got[b][1] - got[b][0] != counts[b]:
                        viol.append(f"batch {b} with {counts[b]} samples missing in {got}")

        ts = [threading.Thread(target=add, args=(t,)) for t in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if s.thread_errors:
            fail("thread-error", s.thread_errors[0])
        if viol:
            fail("not-tiled", viol[0])
        if blind:
            return renew(m)
        got = m.get_batch_to_sample_mapping()
        if got != want:
            fail("wrong-mapping", f"{got} instead of {want}")
        if m.get_total_samples() != at_total:
            fail("wrong-total", m.get_total_samples(), at_total)
        m.save_metadata()
        if m.get_batch_to_sample_mapping() != want:
            fail("wrong-mapping", f"after saving: {got} instead of {want}")
        if not keep_dir:
            if os.path.exists("batch_metadata.json") or os.listdir(d):
                fail("stray-files", "a manager without cache_dir wrote files")
            return True
        if parse(path) != want:
            fail("wrong-mapping", f"file: {parse(path)} instead of {want}")
        return renew(m)

    def renew(m):
        """Another data set takes the place of everything added so far."""
        if again is None:
            return True
        m.initialize_complete_dataset(loader(again))
        for how in ("initialised again", "read again"):
            got = m.get_batch_to_sample_mapping()
            if got != tiling(again):
                fail("wrong-mapping", f"{how} with {again}: {got}")
        if m.get_total_samples() != max((e for _, e in got.values()), default=0):
            fail("wrong-total", m.get_total_samples(), f"initialised again with {again}")
        m.save_metadata()
        if keep_dir and parse(path) != tiling(again):
            fail("wrong-mapping", f"file: {parse(path)} instead of {tiling(again)}")
        return True

    at_total = at
    o = ctx.epoch(p, root=d, name="run", fsopts={"slow": slow(ctx, 3), **fs})
    if o.kind == "exc":
        fail("metadata-failed", o.value, o.detail[-600:])
    if keep_dir and os.path.exists(path):
        got = parse(path)
        if again is None and any(b in counts and got[b][1] - got[b][0] != counts[b] for b in got):
            fail("wrong-mapping", f"after {o.kind}: {got}")
        if o.kind == "ok":
            y = ctx.value(lambda s: MetadataManager(d, ["a"]).get_batch_to_sample_mapping())
            if y != (want if again is None else tiling(again)):
                fail("wrong-mapping", "reloaded", y, want if again is None else again)
