"""Block-projected attributors end to end (D01, D03-D06).

The reference is the same attributor with offload='none' on a private task in
an unsimulated process: nothing there depends on a disk, a thread or a clock.
"""

from __future__ import annotations

import gc
import json
import os
import shutil
from contextlib import ExitStack
from types import SimpleNamespace

import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from .core import Unusable, Violation
from .memory import Allocations, harness_code
from .util import close, crash_opts, diff, fail, quiet, read_plan, slow, tree, write_plan

MISS = object()


# ------------------------------------------------------------------- set-up
class Tok(nn.Module):
    """A sequence model: (batch, seq, features) inputs to its linear layers."""

    def __init__(self, din, hid, dout):
        super().__init__()
        self.a = nn.Linear(din, hid)
        self.b = nn.Linear(hid, dout, bias=False)

    def forward(self, x):
        return self.b(torch.tanh(self.a(x))).mean(1)


class Hf(Tok):
    """Batches are dictionaries and the model returns its own loss."""

    def forward(self, x, labels=None):
        z = super().forward(x)
        return SimpleNamespace(logits=z, loss=None if labels is None else nn.functional.cross_entropy(z, labels))


class Named(DataLoader):
    def __iter__(self):
        for x, y in super().__iter__():
            yield {"x": x, "labels": y}


def draw_config(ctx, maxn=14, big=0.03, kinds=("logra", "factgrass", "bp", "bpn")):
    c = {
        "kind": ctx.pick(kinds, [3, 3, 2, 2][:len(kinds)]),
        "hessian": ctx.pick(["eFIM", "Identity"], [3, 1]),
        "damping": ctx.pick([0.1, 1.0]),
        "model": ctx.pick(["mlp", "tok", "hf", "deep"], [6, 2, 1, 1]),
        "din": ctx.between(2, 4), "hid": ctx.between(2, 5), "dout": ctx.between(2, 3),
        "n": ctx.between(3, maxn), "bs": ctx.between(1, 4),
        "tn": ctx.between(1, 4), "tbs": ctx.between(1, 3),
        "chunk": ctx.pick([1, 2, 3, 5, 16]), "seed": ctx.draw(50),
        "layers": ctx.pick(["all", "last", "first", "rev"], [8, 2, 2, 1]),
        "dim": ctx.pick([4, 1, 9]),
        "drop_last": ctx.chance(0.1),
    }
    if ctx.chance(0.04):
        c["tn"], c["tbs"] = 32 + ctx.between(1, 40), ctx.pick([5, 32, 80])
    if ctx.chance(big):
        c["model"] = "mlp"
        c["n"] = 2048 + ctx.between(1, 200)
        c["bs"] = ctx.pick([1500, 2100, 700])
        c["dim"], c["kind"] = 4, "logra"
    if ctx.chance(0.05):  # more batches than any small pool or queue bound
        c["n"], c["bs"] = ctx.between(17, 45), ctx.pick([1, 2])
    if c["drop_last"] and c["n"] < c["bs"]:
        c["drop_last"] = False  # no batch at all
    return c


def data(c, which=0, train=True):
    g = torch.Generator().manual_seed(c["seed"] * 131 + which * 7 + (0 if train else 1000003))
    n = (c["n"] if which == 0 else max(1, (c["n"] * (1 + which)) // 2)) if train else c["tn"] + which
    shape = (n, c["din"]) if c["model"] in ("mlp", "deep") else (n, 3, c["din"])
    x = torch.randn(shape, generator=g)
    y = torch.randint(0, c["dout"], (n,), generator=g)
    return TensorDataset(x, y)


def make_model(c, seed=None):
    g = torch.Generator().manual_seed(77 + (c["seed"] if seed is None else seed))
    if c["model"] == "mlp":
        m = nn.Sequential(nn.Linear(c["din"], c["hid"]), nn.Tanh(), nn.Linear(c["hid"], c["dout"]))
    elif c["model"] == "deep":
        h = c["hid"]
        m = nn.Sequential(nn.Linear(c["din"], h), nn.Tanh(), nn.Linear(h, h, bias=False), nn.Tanh(),
                          nn.Sequential(nn.Linear(h, h), nn.Tanh()), nn.Linear(h, c["dout"]))
    else:
        m = (Hf if c["model"] == "hf" else Tok)(c["din"], c["hid"], c["dout"])
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * 0.7)
    m.eval()
    return m


def layer_names(c):
    names = {"mlp": ["0", "2"], "deep": ["0", "2", "4.0", "5"]}.get(c["model"], ["a", "b"])
    return {"all": None, "last": names[1:], "first": names[:1], "rev": names[::-1]}[c["layers"]]


def loss_func(model, batch, device):
    if isinstance(batch, dict):
        return model(**batch).loss
    x, y = batch
    return nn.functional.cross_entropy(model(x.to(device)), y.to(device))


def make_task(c):
    from dattri.task import AttributionTask

    m = make_model(c)
    sd = {k: v.clone() for k, v in m.state_dict().items()}
    return AttributionTask(loss_func=loss_func, model=m, checkpoints=sd)


def make_attributor(c, offload, cache_dir, task=None):
    from dattri.algorithm.block_projected_if import BlockProjectedIFAttributor
    from dattri.algorithm.factgrass import FactGraSSAttributor
    from dattri.algorithm.logra import LoGraAttributor
    from dattri.params.projection import (
        FactGrassProjectionParams, GeneralProjectionParams, LoGraProjectionParams)

    kw = {"task": task or make_task(c), "layer_names": layer_names(c), "hessian": c["hessian"],
          "damping": c["damping"], "device": "cpu", "offload": offload, "cache_dir": cache_dir,
          "chunk_size": c["chunk"]}
    if c["kind"] == "logra":
        return LoGraAttributor(proj_params=LoGraProjectionParams(proj_dim_per_layer=c["dim"], proj_seed=c["seed"]), **kw)
    if c["kind"] == "factgrass":
        return FactGraSSAttributor(proj_params=FactGrassProjectionParams(proj_dim_per_layer=c["dim"]),
                                   blowup_factor=4, **kw)
    if c["kind"] == "bp":
        p = GeneralProjectionParams(proj_dim=-1, proj_type="identity")
        return BlockProjectedIFAttributor(sparsifier_params=p, projector_params=p, **kw)
    return BlockProjectedIFAttributor(
        sparsifier_params=GeneralProjectionParams(proj_dim=2, proj_type="rademacher", proj_seed=c["seed"]),
        projector_params=GeneralProjectionParams(proj_dim=3, proj_type="normal", proj_seed=c["seed"] + 1), **kw)


@harness_code
def train_loader(c, which=0):
    return (Named if c["model"] == "hf" else DataLoader)(data(c, which), batch_size=c["bs"], shuffle=False, drop_last=c["drop_last"])


@harness_code
def test_loader(c, which=0):
    return (Named if c["model"] == "hf" else DataLoader)(data(c, which, False), batch_size=c["tbs"], shuffle=False)


# ------------------------------------------------------------------ program
def draw_program(ctx, start_cached=None):
    ops = []
    if ctx.chance(0.75) if start_cached is None else start_cached:
        ops.append(("cache", ctx.pick([0, 1], [3, 1])))
    else:
        ops.append(("attr", ctx.pick([0, 1], [3, 1]), 0))
    for _ in range(ctx.between(1, 4)):
        ops.append(ctx.pick([("attr", ops[0][1], 0), ("attr", ops[0][1], 1), ("self",),
                             ("pre",), ("ifvp",), ("cache", 0), ("cache", 1)],
                            [5, 2, 5, 1, 2, 1, 1]))
    if ops[-1][0] not in ("attr", "self"):
        ops.append(ctx.pick([("attr", 0, 0), ("self",)]))
    return ops


def run_op(a, c, op):
    """One operation; the score tensor or None.  All ops use public methods."""
    if op[0] == "cache":
        a.cache(train_loader(c, op[1]))
        return None
    if op[0] == "attr":
        return a.attribute(train_loader(c, op[1]), test_loader(c, op[2])).clone()
    if op[0] == "self":
        return a.compute_self_attribution().clone()
    if op[0] == "pre":
        a.compute_preconditioners()
        return None
    if op[0] == "ifvp":
        a.compute_ifvp()
        return None
    raise AssertionError(op)


def run_program(c, offload, cache_dir, ops):
    a = make_attributor(c, offload, cache_dir)
    return [run_op(a, c, op) for op in ops]


def reference(ctx, c, ops, offload="none"):
    o = ctx.pure(lambda s: run_program(c, offload, None, ops))
    if o.kind == "exc" and c["kind"] in ("bpn", "factgrass") and "LinAlgError" in str(o.value) and "singular" in str(o.value):
        # the drawn sparsifier annihilates every gradient of a layer (all its
        # Rademacher rows are constant), and the damping is relative
        raise Unusable("singular Hessian")
    if o.kind != "ok":
        fail("reference-failed", f"offload={offload} program {ops} config {c}:", o.value, o.detail[-700:])
    return o.value


def scores(ctx, c, which=0, what=("attr", "self")):
    """Reference scores of a fresh attributor: {'attr': ..., 'self': ...}."""
    r = reference(ctx, c, [("cache", which), ("attr", which, 0), ("self",)])
    return {"attr": r[1], "self": r[2]}


def same(where, op, got, want, c=None):
    if want is None:
        return
    if not close(got, want):
        fail("wrong-scores", where, f"{op}: {diff(got, want)}" + (f" config {c}" if c else ""))


def nthreads(s):
    return s.live_background()


# --------------------------------------------------------------------- D01
def d01_transparent(ctx):
    c = draw_config(ctx)
    ops = draw_program(ctx)
    ctx.say("config", c)
    ctx.say("program", ops)
    want = reference(ctx, c, ops)
    d = ctx.dir("cache")
    rel = ctx.chance(0.1)  # nested directory that does not exist yet
    path = os.path.join(d, "deep", "er") if rel else d

    def p(s):
        return run_program(c, "disk", path, ops)

    o = ctx.epoch(p, root=d, name="disk", fsopts={"slow": slow(ctx, 5)})
    if o.kind == "exc":
        fail("disk-failed", f"program {ops} config {c}:", o.value, o.detail[-700:])
    for op, got, w in zip(ops, o.value, want):
        same("offload=disk", op, got, w, c)
    if ctx.chance(0.35):
        cpu = ctx.dir("cpu")
        o = ctx.epoch(lambda s: run_program(c, "cpu", cpu if rel else None, ops), root=cpu, name="cpu")
        if o.kind == "exc":
            fail("cpu-failed", f"program {ops} config {c}:", o.value, o.detail[-700:])
        for op, got, w in zip(ops, o.value, want):
            same("offload=cpu", op, got, w, c)
        ctx.probe("cpu compared")
    if ctx.chance(0.3):
        # a later process goes on with what the first one left on disk
        last = [x for x in ops if x[0] == "cache" or (x[0] == "attr" and x is ops[0])][-1][1]
        w = scores(ctx, c, last)["self"]

        def p2(s):
            a = make_attributor(c, "disk", path)
            return a.compute_self_attribution()

        o = ctx.epoch(p2, root=d, name="reopen", fsopts={"slow": slow(ctx, 3)})
        if o.kind != "ok":
            fail("disk-failed", "self-attribution by a new process:", o.value, o.detail[-700:])
        same("new process", "self", o.value, w, c)
        ctx.probe("continued by a new process")


# --------------------------------------------------------------------- D03
def d03_crash_attribute(ctx):
    c = draw_config(ctx, big=0.0)
    ops = [("cache", 0), ("attr", 0, 0), ("self",)]
    earlier = ctx.chance(0.4)   # a complete cache of other data was there
    ew = ctx.pick([1, 0])
    if ctx.chance(0.25):
        ops = [("attr", 0, 0)]
    ctx.say("config", c, "program", ops, "earlier", earlier and ew)
    want = scores(ctx, c, 0)
    other = scores(ctx, c, ew) if earlier else None
    d = ctx.dir("cache")
    if earlier:
        o = ctx.epoch(lambda s: run_program(c, "disk", d, [("cache", ew)]) and None, root=d, name="earlier", sched="serial")
        if o.kind != "ok":
            fail("disk-failed", o.value, o.detail[-500:])
    fs, step = crash_opts(ctx, 60 + 4 * ((c["n"] + c["bs"] - 1) // c["bs"]))

    def dies(s):
        if step:
            s.crash_at_step = s.steps + step
        run_program(c, "disk", d, ops)
        s.crash("after the last operation")

    crashes = 1 + (ctx.draw(3) == 2)
    for _ in range(crashes):
        o = ctx.epoch(dies, root=d, name="dies", fsopts={"slow": slow(ctx, 2), **fs})
        if o.kind == "exc":
            fail("disk-failed", "before the crash:", o.value, o.detail[-600:])
        ctx.probe("crashed in the attributor")
        fs, step = crash_opts(ctx, 80)

    resume = ctx.pick([[("self",)], [("ifvp",), ("self",)], [("pre",), ("ifvp",), ("self",)], []], [3, 2, 2, 2])

    def look(s):
        out = []
        try:
            a = make_attributor(c, "disk", d)
            for op in resume:
                out.append(run_op(a, c, op))
        except Exception as e:  # noqa: BLE001  an error is an honest answer
            s.probe("resume raised")
            return out, repr(e)
        s.probe("resume succeeded" if resume else "no resume")
        return out, None

    o = ctx.epoch(look, root=d, name="resume")
    if o.kind == "ok" and resume and o.value[1] is None:
        got = o.value[0][-1]
        if not close(got, want["self"]) and not (other and close(got, other["self"])):
            fail("wrong-scores", f"{resume} by a new process after the crash: {diff(got, want['self'])} config {c}")

    final = ctx.pick([[("cache", 0), ("attr", 0, 0), ("self",)], [("attr", 0, 0)], [("cache", 0), ("self",)]])
    o = ctx.epoch(lambda s: run_program(c, "disk", d, final), root=d, name="again", fsopts={"slow": slow(ctx, 1)})
    if o.kind != "ok":
        fail("rerun-failed", o.value, o.detail[-600:])
    for op, got in zip(final, o.value):
        if op[0] in want:
            same("rerun after the crash", op, got, want[op[0]], c)


# --------------------------------------------------------------------- D04
def d04_leftovers(ctx):
    c = draw_config(ctx, big=0.0)
    off = ctx.pick(["disk", "none", "cpu"], [5, 1, 1])
    use_cwd = off != "disk" and ctx.chance(0.6)
    d = ctx.dir("cache")
    root = ctx.scratch if use_cwd else d
    if off == "none" and not use_cwd and ctx.chance(0.3):
        use_cwd = True
    runs = []
    for _ in range(ctx.between(1, 3)):
        e = dict(c)
        for k in ("n", "bs", "chunk", "hessian", "din", "hid", "dim", "kind", "layers", "damping", "seed", "model"):
            if ctx.chance(0.3):
                e[k] = draw_config(ctx, big=0.0)[k]
        if e["drop_last"] and e["n"] < e["bs"]:
            e["drop_last"] = False
        runs.append((e, ctx.pick(["ok", "crash", "fail", "gradients-only"], [4, 3, 2, 1]),
                     ctx.pick(["disk", "cpu", "none"], [6, 1, 1])))
    inproc = ctx.chance(0.3)
    ops = ctx.pick([[("cache", 0), ("attr", 0, 0), ("self",)], [("attr", 0, 0)], [("attr", 0, 0), ("self",)],
                    [("cache", 0), ("self",), ("attr", 0, 1)]])
    ctx.say("final config", c, "offload", off, "cwd" if use_cwd else "cache_dir", "program", ops)
    want = reference(ctx, c, ops)
    path = None if use_cwd else d

    def earlier(s, e, how, o_, crash):
        p = d if o_ == "disk" or not use_cwd else None
        if o_ == "disk" and use_cwd:
            p = "."
        a = make_attributor(e, o_, p)
        if how == "fail":
            # the loader breaks half way
            base = train_loader(e)
            n = len(base)

            class Half:
                batch_size, sampler, dataset, drop_last = base.batch_size, base.sampler, base.dataset, base.drop_last

                def __len__(self):
                    return n

                def __iter__(self):
                    for i, x in enumerate(base):
                        if i > n // 2:
                            raise OSError("data went away")
                        yield x
                    raise OSError("data went away")

            try:
                a.cache(Half())
            except OSError:
                pass
        elif how == "gradients-only":
            a.hessian = e["hessian"]
            a.cache(train_loader(e))
        else:
            a.cache(train_loader(e))
            if e["n"] % 2:
                a.attribute(train_loader(e), test_loader(e))
        return a

    for e, how, o_ in runs:
        ctx.say("earlier run:", how, o_, {k: e[k] for k in e if e[k] != c[k]})
        fs = {}
        if how == "crash":
            fs, _ = crash_opts(ctx, 80)
        o = ctx.epoch(lambda s, e=e, how=how, o_=o_: earlier(s, e, how, o_, None) and None, root=root,
                      name="earlier", fsopts=fs)
        if o.kind == "exc":
            fail("disk-failed", f"earlier run {how} {o_}:", o.value, o.detail[-700:])
        ctx.probe("earlier " + o.kind)

    def final(s):
        keep = None
        if inproc:  # one more earlier run, in the same process, still alive
            e, how, o_ = runs[-1]
            if how != "crash":
                keep = earlier(s, e, how, o_, None)
                s.probe("leftovers of a live attributor")
        out = run_program(c, off, path, ops)
        del keep
        return out

    o = ctx.epoch(final, root=root, name="final", fsopts={"slow": slow(ctx, 2)})
    if o.kind != "ok":
        fail("leftovers", f"with leftovers {off}: {o.value}", o.detail[-700:])
    for op, got, w in zip(ops, o.value, want):
        same(f"offload={off} with leftovers", op, got, w, c)


# --------------------------------------------------------------------- D05
def d05_write_fault(ctx, memory=False):
    c = draw_config(ctx, big=0.02)
    ops = draw_program(ctx)
    nb = (c["n"] + c["bs"] - 1) // c["bs"]
    short = []
    where = ctx.pick(["disk", "cpu", "none"], [4, 2, 1]) if memory else "disk"
    if memory:
        from .w_mem import draw_shortage

        short, plans = draw_shortage(ctx, 150 + 60 * nb * len(ops))
    else:
        plans = write_plan(ctx, 30 + 4 * nb)
    ctx.say("config", c)
    ctx.say("program", ops, "offload", where, "fault", plans, short)
    d = ctx.dir("cache")
    fresh = ctx.chance(0.4)  # recover with a new attributor or the old one
    state = {"cached": None}
    want = {w: scores(ctx, c, w) for w in sorted({op[1] for op in ops if op[0] in ("cache", "attr")} | {0})}
    t1 = None
    if any(op[0] == "attr" and op[2] == 1 for op in ops):
        t1 = {w: reference(ctx, c, [("cache", w), ("attr", w, 1)])[1] for w in want}

    def p(s):
        a = None
        failed = []
        mem = Allocations(*short)
        with ExitStack() as stack:
            if memory:
                stack.enter_context(mem.everywhere(s))
            a, failed = under_faults(s, lambda: mem.hits or any(q.hits for q in s.fs.plans))
        # the fault clears
        mem.clear()
        return recovery(s, a, failed)

    def under_faults(s, hits):
        a = None
        failed = []
        try:
            a = make_attributor(c, where, d)
        except Exception as e:  # noqa: BLE001
            if not hits():
                fail("disk-failed", f"no fault fired, but {e!r}")
            s.probe("construction raised")
        cached = None     # the data set whose scores may be returned
        maybe = set()
        if a is not None:
            for op in ops:
                if op[0] == "cache":
                    maybe = {op[1]}
                elif op[0] == "attr" and cached is None:
                    maybe.add(op[1])
                try:
                    got = run_op(a, c, op)
                except Exception as e:  # noqa: BLE001
                    s.probe("fault surfaced")
                    if not hits():
                        fail("disk-failed", f"no fault fired, but {op} raised {e!r}")
                    failed.append((op, type(e).__name__))
                    if op[0] == "cache":
                        cached = None
                    continue
                if op[0] in ("cache", "attr") and cached is None:
                    cached = op[1]
                    maybe = {op[1]}
                elif op[0] == "cache":
                    cached = op[1]
                    maybe = {op[1]}
                if got is None:
                    continue
                good = []
                for w in maybe or set(want):
                    good.append(want[w]["self"] if op[0] == "self" else
                                (want[w]["attr"] if op[2] == 0 else t1[w]))
                if not any(close(got, g) for g in good):
                    fail("wrong-scores", f"{op} returned after a failed write (earlier failures {failed}): "
                         f"{diff(got, good[0])} config {c}")
                if hits():
                    s.probe("correct in spite of the fault")
        return a, failed

    def recovery(s, a, failed):
        s.fs.clear_faults()
        try:
            if a is None or fresh:
                a = make_attributor(c, where, d)
                s.probe("recovered with a new attributor")
            a.cache(train_loader(c, 0))
            got = a.attribute(train_loader(c, 0), test_loader(c, 0))
            got2 = a.compute_self_attribution()
        except Exception as e:  # noqa: BLE001
            fail("no-recovery", f"after the fault cleared: {e!r}; earlier failures {failed}")
        same("after the fault cleared", "attr", got, want[0]["attr"], c)
        same("after the fault cleared", "self", got2, want[0]["self"], c)
        return failed

    o = ctx.epoch(p, root=d, name="faulty", fsopts={"slow": slow(ctx, 5), "plans": plans, "short_writes": ctx.chance(0.2)})
    if o.kind == "exc":
        fail("harness-exc", o.value, o.detail[-800:])
    ctx.say("failed calls:", o.value)
    _ = state


# --------------------------------------------------------------------- D06
def damage(d, pick, mode):
    """Remove or truncate one file of the cache; returns what was done."""
    files = sorted(os.path.relpath(os.path.join(b, f), d) for b, _, fs in os.walk(d) for f in fs)
    if not files:
        return None
    # weight the kinds of files evenly
    groups = {}
    for f in files:
        groups.setdefault((os.path.dirname(f), os.path.splitext(f)[1]), []).append(f)
    keys = sorted(groups)
    g = groups[keys[pick % len(keys)]]
    f = g[(pick // 64) % len(g)]
    p = os.path.join(d, f)
    size = os.path.getsize(p)
    if mode == "remove":
        os.unlink(p)
    elif mode == "remove-all":
        for x in g:
            os.unlink(os.path.join(d, x))
    elif mode == "empty":
        os.truncate(p, 0)
    else:
        os.truncate(p, (pick * 37) % max(1, size))
    return f"{mode} {f} ({size} bytes)"


def d06_read_fault(ctx):
    c = draw_config(ctx, big=0.0)
    mode = ctx.pick(["plan", "damage"])
    want = scores(ctx, c, 0)
    d = ctx.dir("cache")
    ctx.say("config", c, mode)
    if mode == "damage":
        only = ctx.chance(0.3)

        def p(s):
            a = make_attributor(c, "disk", d)
            a.cache(train_loader(c, 0))
            if c["hessian"] == "Identity" or only:
                a.compute_ifvp()
            return None

        o = ctx.epoch(p, root=d, name="cache", sched="serial")
        if o.kind != "ok":
            fail("disk-failed", o.value, o.detail[-500:])
        if ctx.chance(0.3):
            return d06_comes_back(ctx, c, want, d)
        if ctx.chance(0.4):
            return d06_removed_in_use(ctx, c, want)
        what = damage(d, ctx.draw(4096, s="fault"), ctx.pick(["remove", "truncate", "empty", "remove-all"], [3, 4, 1, 1], s="fault"))
        ctx.say("damage:", what)
        ctx.probe("damage " + what.split(" ")[0])
        prog = ctx.pick([[("self",)], [("ifvp",), ("self",)], [("pre",), ("ifvp",), ("self",)], [("attr", 0, 0)]], [4, 2, 2, 1])
        plans = []
    else:
        plans = read_plan(ctx, 40)
        prog = ctx.pick([
            [("cache", 0), ("attr", 0, 0), ("self",)], [("attr", 0, 0)], [("cache", 0), ("self",), ("attr", 0, 0)],
            [("cache", 0), ("ifvp",), ("self",)], [("cache", 0), ("pre",), ("ifvp",), ("attr", 0, 0)]])
        ctx.say("fault", plans, "program", prog)

    def read(s):
        errs = []
        try:
            a = make_attributor(c, "disk", d)
        except Exception as e:  # noqa: BLE001
            s.probe("construction raised")
            return [repr(e)]
        for op in prog:
            try:
                got = run_op(a, c, op)
            except Exception as e:  # noqa: BLE001
                s.probe("read fault surfaced")
                if mode == "plan" and not any(q.hits for q in s.fs.plans):
                    fail("disk-failed", f"no fault fired, but {op} raised {e!r}")
                errs.append(f"{op}: {type(e).__name__}: {e}"[:160])
                continue
            if got is not None and not close(got, want[op[0]]):
                fail("wrong-scores", f"{op} in spite of unreadable data (errors so far {errs}): "
                     f"{diff(got, want[op[0]])} config {c}")
        if mode == "plan":
            s.fs.clear_faults()
            try:
                if errs and errs[0].startswith("('cache'"):
                    a.cache(train_loader(c, 0))
                got = a.attribute(train_loader(c, 0), test_loader(c, 0))
            except Exception as e:  # noqa: BLE001
                fail("no-recovery", f"after the read fault cleared: {e!r}; errors before {errs}")
            same("after the read fault cleared", "attr", got, want["attr"], c)
        return errs

    o = ctx.epoch(read, root=d, name="read", fsopts={"slow": slow(ctx, 2), "plans": plans})
    if o.kind == "exc":
        fail("harness-exc", o.value, o.detail[-800:])
    ctx.say("errors", o.value)


def d06_comes_back(ctx, c, want, d):
    """A file is unreadable only while preconditioners or IFVPs are computed.

    A step that returned normally in spite of it must have left what it leaves
    with every file readable; the later steps run over the whole cache again."""
    keep = ctx.dir("keep")
    shutil.copytree(d, keep, dirs_exist_ok=True)
    what = damage(d, ctx.draw(4096, s="fault"), ctx.pick(["remove", "truncate", "empty", "remove-all"], [4, 2, 1, 2], s="fault"))
    first = ctx.pick([["pre"], ["ifvp"], ["pre", "ifvp"]], [3, 2, 1])
    before = tree(d)
    ctx.say("damage for a while:", what, first)

    def p(s):
        try:
            a = make_attributor(c, "disk", d)
            for op in first:
                run_op(a, c, (op,))
        except Exception as e:  # noqa: BLE001
            s.probe("read fault surfaced")
            return repr(e)
        return None

    o = ctx.epoch(p, root=d, name="unreadable", fsopts={"slow": slow(ctx, 2)})
    if o.kind != "ok":
        fail("disk-failed", o.value, o.detail[-800:])
    ctx.say("error", o.value)
    if o.value is not None:
        return
    after = tree(d)
    for f in sorted(os.path.relpath(os.path.join(b, x), keep) for b, _, fs in os.walk(keep) for x in fs):
        if after.get(f) == before.get(f):  # not rewritten in between
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            shutil.copyfile(os.path.join(keep, f), os.path.join(d, f))
    ctx.probe("unreadable for a while, step returned")
    rest = [("ifvp",), ("self",)] if first == ["pre"] else [("self",)]

    def q(s):
        a = make_attributor(c, "disk", d)
        return [run_op(a, c, op) for op in rest][-1]

    o = ctx.epoch(q, root=d, name="readable again")
    if o.kind != "ok":
        fail("disk-failed", o.value, o.detail[-800:])
    same(f"{what} while {first} ran and returned", "self", o.value, want["self"], c)


def d06_removed_in_use(ctx, c, want):
    """Files vanish while an attributor that has used them lives on."""
    d = ctx.dir("used")
    first = ctx.pick([[("cache", 0), ("attr", 0, 0)], [("cache", 0), ("ifvp",)], [("cache", 0), ("self",)], [("attr", 0, 0)]])
    then = ctx.pick([[("attr", 0, 0)], [("self",)], [("attr", 0, 0), ("self",)], [("pre",), ("ifvp",), ("attr", 0, 0)],
                     [("ifvp",), ("self",), ("attr", 0, 0)]], [4, 2, 2, 1, 1])
    pick, mode = ctx.draw(4096, s="fault"), ctx.pick(["remove", "remove-all"], [4, 1], s="fault")

    def p(s):
        a = make_attributor(c, "disk", d)
        for op in first:
            same("no fault yet", op, run_op(a, c, op), want.get(op[0]), c)
        s.settle(1.0)
        with quiet(s):
            what = damage(d, pick, mode)
        errs = [f"{first} {what} {then}"]
        for op in then:
            try:
                got = run_op(a, c, op)
            except Exception as e:  # noqa: BLE001
                s.probe("read fault surfaced")
                errs.append(f"{op}: {type(e).__name__}: {e}"[:160])
                continue
            same(f"{errs}:", op, got, want.get(op[0]), c)
        return errs

    o = ctx.epoch(p, root=d, name="in use", fsopts={"slow": slow(ctx, 2)})
    if o.kind == "exc":
        fail("disk-failed", o.value, o.detail[-800:])
    ctx.probe("files removed while in use")
    ctx.say("errors", o.value)


# --------------------------------------------------------------------- D09
class Breaks(Exception):
    pass


def d09_attribution(ctx):
    """Attributing again and again, with one attributor or with new ones."""
    c = draw_config(ctx, big=0.0)
    ctx.say("config", c)
    rounds = []
    for _ in range(ctx.between(1, 3)):
        ops = draw_program(ctx)
        again = ctx.pick([None, ("attr", ops[0][1], 0), ("self",), ("cache", 0)], [5, 1, 1, 1])
        broken = ctx.draw(1 + (c["n"] + c["bs"] - 1) // c["bs"], s="fault") if ctx.chance(0.3, s="fault") else None
        rounds.append((ops, broken, again))
    ctx.say("rounds", rounds)
    want = [reference(ctx, c, ops) for ops, _, _ in rounds]
    d = ctx.dir("cache")

    def names(s):
        return [t.name for t in s.live_background()]

    def p(s):
        base = len(s.live_background())
        for r, (ops, broken, again) in enumerate(rounds):
            a = make_attributor(c, "disk", d)
            if broken is not None:
                def some():
                    for i, b in enumerate(train_loader(c, 0)):
                        if i == broken:
                            raise Breaks
                        yield b
                    raise Breaks

                class Half(DataLoader):
                    def __iter__(self):
                        return some()

                try:
                    a.cache(Half(data(c, 0), batch_size=c["bs"], drop_last=c["drop_last"]))
                except Breaks:
                    s.fire("loader-exception")
            for i, op in enumerate(ops):
                same("offload=disk", op, run_op(a, c, op), want[r][i], c)
            if again:
                counts = []
                for _ in range(3):
                    for _ in range(8):
                        run_op(a, c, again)
                    with quiet(s):
                        gc.collect()
                    s.settle(6)
                    counts.append(len(s.live_background()))
                s.probe("repeated 24 times")
                if counts[2] - counts[1] >= 8:   # one more for every call
                    fail("thread-leak", f"round {r}: {counts} background threads after 8, 16 and 24 times {again}: "
                         f"{names(s)}")
            del a
            gc.collect()
            for _ in range(8):
                s.settle(5)
                if len(s.live_background()) <= base:
                    break
            if len(s.live_background()) > base:
                fail("thread-leak", f"round {r}: background threads alive 40 s after the attributor was dropped: {names(s)}")
            n0 = s.fs.n
            s.settle(10)
            if s.fs.n != n0:
                fail("late-io", f"round {r}: {s.fs.n - n0} file operations after the threads stopped")
        return True

    o = ctx.epoch(p, root=d, name="rounds", fsopts={"slow": slow(ctx, 2)}, time_limit=2500.0)
    if o.kind == "exc":
        fail("lifecycle-failed", o.value, o.detail[-600:])


_ = (gc, json, Violation)
