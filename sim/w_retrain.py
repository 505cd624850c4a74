"""Retraining for LOO and LDS, and the ground truth read from it (R01-R04)."""

from __future__ import annotations

import contextlib
import io
import os
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import torch
import yaml
from torch import nn
from torch.utils.data import DataLoader, SubsetRandomSampler, TensorDataset

from .util import crash_opts, fail, quiet, read_plan, slow, write_plan

DIN, DOUT = 3, 2


class Boom(Exception):
    pass


def booms(*kinds):
    return [type(f"Boom{k.__name__}", (Boom, k), {}) for k in kinds]


# failures of user code come in all types
BOOMS = booms(RuntimeError, FileNotFoundError, ValueError, KeyError, MemoryError, RuntimeError, IndexError, PermissionError,
              TypeError, EOFError, AssertionError, NotImplementedError)


class Net(nn.Module):
    """Remembers which samples it was trained on."""

    def __init__(self, n):
        super().__init__()
        self.lin = nn.Linear(DIN, DOUT)
        self.register_buffer("seen", torch.zeros(n, dtype=torch.long))
        self.register_buffer("seed", torch.zeros((), dtype=torch.float64))

    def forward(self, x):
        return self.lin(x)


def dataset(c):
    g = torch.Generator().manual_seed(c["dseed"])
    n = c["n"]
    return TensorDataset(torch.randn(n, DIN, generator=g),
                         torch.randint(0, DOUT, (n,), generator=g), torch.arange(n))


def loader(c):
    ds = dataset(c)
    if c.get("take", c["n"]) != c["n"]:
        return DataLoader(ds, batch_size=c["bs"], sampler=SubsetRandomSampler(list(range(c["take"]))))
    return DataLoader(ds, batch_size=c["bs"], shuffle=c.get("shuffle", False))


def test_loader(c):
    g = torch.Generator().manual_seed(c["dseed"] + 9)
    return DataLoader(TensorDataset(torch.randn(c["tn"], DIN, generator=g)), batch_size=2)


class Trainer:
    """The user's training function.

    `gen` draws from a generator of its own, `global` from torch's, relying on
    the seed set by the caller, `reseed` seeds torch itself.  `sorted` is `gen`
    made independent of shuffling: simulated concurrent processes are threads
    here and share torch's generator, which real ones do not.
    """

    __name__ = "train_stub"

    def __init__(self, c, s=None, boom=None):
        self.c, self.s, self.boom, self.calls = c, s, boom, 0

    def __call__(self, dl, seed=None, scale=1.0, device="cpu", **kw):
        assert not kw, kw
        self.calls += 1
        if self.s is not None:
            self.s.yield_point("train")
        if self.boom and self.calls == self.boom[0] and self.boom[1] == "start":
            raise BOOMS[(self.calls * 5 + self.c["n"]) % len(BOOMS)]("training failed")
        style = self.c["style"]
        if style == "global":
            w, b = torch.randn(DOUT, DIN), torch.randn(DOUT)
        elif style == "reseed":
            torch.manual_seed(seed or 0)
            w, b = torch.randn(DOUT, DIN), torch.randn(DOUT)
        else:
            g = torch.Generator().manual_seed(seed or 0)
            w, b = torch.randn(DOUT, DIN, generator=g), torch.randn(DOUT, generator=g)
        m = Net(self.c["n"])
        with torch.no_grad():
            m.lin.weight.copy_(w)
            m.lin.bias.copy_(b)
        m.seed.fill_(-1 if seed is None else float(seed))
        batches = dl
        if style == "sorted":  # does not depend on the loader's shuffling
            x, y, i = (torch.cat(t) for t in zip(*dl))
            k = i.argsort()
            batches = [(x[k], y[k], i[k])] if len(k) else []
        for x, y, i in batches:
            loss = nn.functional.cross_entropy(m(x), y)
            gw, gb = torch.autograd.grad(loss, [m.lin.weight, m.lin.bias])
            with torch.no_grad():
                m.lin.weight -= 0.3 * scale * gw
                m.lin.bias -= 0.3 * scale * gb
                m.seen[i] += 1
            if self.s is not None:
                self.s.yield_point("train")
        if self.boom and self.calls == self.boom[0]:
            raise BOOMS[(self.calls * 5 + self.c["n"]) % len(BOOMS)]("training failed")
        return m


def ambient(k):
    """Unrelated use of the global generators."""
    import random

    torch.manual_seed(k)
    np.random.seed(k % 2**32)
    random.seed(k)


# --------------------------------------------------------------------- LDS
def draw_lds(ctx, styles=("gen", "global", "reseed")):
    n = ctx.between(3, 10)
    return {"n": n, "dseed": ctx.draw(1000), "bs": ctx.between(1, 5), "tn": ctx.between(1, 3),
            "ratio": ctx.pick([0.5, 0.8, 0.34, 1.0]), "total": ctx.pick([1, 2, 3, 4, 6], [1, 2, 2, 3, 2]),
            "runs": ctx.pick([1, 2, 3], [3, 2, 1]), "seed": ctx.pick([0, 1, 7, 12345, 2**40]),
            "style": ctx.pick(styles), "scale": ctx.pick([1.0, 0.5]), "shuffle": ctx.chance(0.5)}


def lds_call(c, path, s=None, start=0, num=None, total=None, boom=None):
    from dattri.model_util.retrain import retrain_lds

    kw = {}
    if c["scale"] != 1.0:
        kw["scale"] = c["scale"]
    if num is None:
        num = c["total"]
    else:
        kw.update(start_id=start, total_num_subsets=c["total"] if total is None else total)
    t = Trainer(c, s, boom)
    retrain_lds(t, loader(c), path, num_subsets=num, subset_ratio=c["ratio"],
                num_runs_per_subset=c["runs"], seed=c["seed"], **kw)
    return t.calls


def read_indices(p):
    return [int(x) for x in Path(p).read_text().split("\n") if x != ""]


def state_of(p):
    return {k: v.clone() for k, v in torch.load(p, weights_only=True).items()}


def eq_state(a, b):
    return a.keys() == b.keys() and all(torch.equal(a[k], b[k]) for k in a)


def lds_files(d):
    """Every retraining file of a directory, parsed: {relative path: value}."""
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            r = os.path.relpath(p, d)
            try:
                if f.startswith("model_weights") and f.endswith(".pt"):
                    out[r] = torch.load(p, weights_only=True)
                elif f == "indices.txt":
                    out[r] = read_indices(p)
                elif f == "metadata.yml":
                    m = yaml.safe_load(Path(p).read_text())
                    m["subset_dir_map"] = {k: os.path.relpath(v, d) for k, v in m["subset_dir_map"].items()}
                    out[r] = m
            except Exception as e:  # noqa: BLE001
                out[r] = f"unreadable: {e!r:.200}"
    return out


def same_value(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and a and all(isinstance(v, torch.Tensor) for v in a.values()):
        return all(isinstance(v, torch.Tensor) for v in b.values()) and eq_state(a, b)
    return type(a) is type(b) and a == b


def same_files(where, got, want):
    for k in sorted(set(got) | set(want)):
        if k not in got:
            fail("missing-file", where, f"{k} is missing, there are {sorted(got)}")
        if k not in want:
            fail("extra-file", where, f"{k} should not be there")
        if not same_value(got[k], want[k]):
            def show(v):
                return str(v)[:200]
            fail("different-file", where, k, f"got {show(got[k])} instead of {show(want[k])}")


def lds_target(c, s=None, boom=None):
    n = [0]

    def f(ckpt, dl):
        n[0] += 1
        if s is not None:
            s.yield_point("target")
        if boom and n[0] == boom:
            raise BOOMS[(boom * 5) % len(BOOMS)]("target failed")
        m = Net(c["n"])
        m.load_state_dict(torch.load(ckpt))
        m.eval()
        with torch.no_grad():
            return torch.cat([m(x).logsumexp(1) for (x,) in dl])

    return f


def lds_truth(c, files):
    """What the ground truth is, from the files alone."""
    vals, idx = [], []
    (xs,) = zip(*test_loader(c))
    for i in range(c["total"]):
        v = torch.zeros(c["tn"])
        for j in range(c["runs"]):
            m = Net(c["n"])
            m.load_state_dict(files[f"{i}/model_weights_{j}.pt"])
            with torch.no_grad():
                v += torch.cat([m(x).logsumexp(1) for x in xs])
        vals.append(-v / c["runs"])
        idx.append(files[f"{i}/indices.txt"])
    return torch.stack(vals), torch.tensor(idx)


def lds_gt(c, path, s=None, boom=None):
    from dattri.metric import calculate_lds_ground_truth

    return calculate_lds_ground_truth(lds_target(c, s, boom), path, test_loader(c))


def same_gt(where, got, want):
    for g, w, what in zip(got, want, ("values", "indices")):
        if g.shape != w.shape:
            fail("wrong-ground-truth", where, what, f"shape {tuple(g.shape)} instead of {tuple(w.shape)}")
        if not torch.allclose(g.double(), w.double(), rtol=1e-5, atol=1e-6):
            fail("wrong-ground-truth", where, what, f"{g.tolist()} instead of {w.tolist()}"[:600])


def sane(c, files):
    """The files of one complete run are consistent in themselves."""
    n, k = c.get("take", c["n"]), int(c.get("take", c["n"]) * c["ratio"])
    due = [f"{i}/{x}" for i in range(c["total"])
           for x in ("indices.txt", *(f"model_weights_{j}.pt" for j in range(c["runs"])))]
    gone = [x for x in (*due, "metadata.yml") if x not in files]
    if gone:
        fail("incomplete-run", f"a complete run of {c} left no {gone}")
    for i in range(c["total"]):
        ix = files[f"{i}/indices.txt"]
        if len(ix) != k or len(set(ix)) != k or (ix and not (0 <= min(ix) and max(ix) < n)):
            fail("bad-subset", f"subset {i} of {c} has indices {ix}")
        for j in range(c["runs"]):
            seen = files[f"{i}/model_weights_{j}.pt"]["seen"]
            if sorted(ix) != seen.nonzero().flatten().tolist() or (k and int(seen.max()) != 1):
                fail("wrong-training-data", f"model {i}/{j} was trained on {seen.tolist()}, its indices are {ix}")
    m = files["metadata.yml"]
    want = {"mode": "lds", "data_length": n, "num_subsets": c["total"], "subset_ratio": c["ratio"],
            "num_runs_per_subset": c["runs"], "subset_dir_map": {i: str(i) for i in range(c["total"])}}
    for key, v in want.items():
        if m.get(key) != v:
            fail("wrong-metadata", f"{key}: {m.get(key)} instead of {v}")


def mono(ctx, c, over=None, name="mono", call=lds_call):
    """The files of an uninterrupted run, from an undisturbed process."""
    d = ctx.dir(name)
    if over:
        shutil.rmtree(d)
        shutil.copytree(over, d)
    o = ctx.pure(lambda s: call(c, d) and None)
    if o.kind != "ok":
        fail("retraining-failed", f"config {c}:", o.value, o.detail[-600:])
    f = lds_files(d)
    sane(c, f)
    return d, f


def claims(where, got, complete):
    """Metadata is absent, or all of one run's files are there."""
    m = got.get("metadata.yml")
    if m is None:
        return False
    if isinstance(m, str):
        fail("torn-metadata", where, m)
    why = ""
    for name, want in complete:
        if m != want["metadata.yml"]:
            why += f"; metadata differs from the {name} run's: {m}"
            continue
        bad = [k for k in want if k.split("/")[0].isdigit() and int(k.split("/")[0]) < m["num_subsets"]
               and (k not in got or not same_value(got[k], want[k]))
               and not (k.split("_")[-1][:-3].isdigit() and int(k.split("_")[-1][:-3]) >= m["num_runs_per_subset"])]
        if not bad:
            return True
        why += f"; not the {name} run's: {[(k, 'missing' if k not in got else 'other content') for k in bad[:4]]}"
    fail("false-metadata", where, f"metadata.yml claims {m.get('num_subsets')} subsets" + why)


def draw_parts(ctx, c):
    num = ctx.pick([k for k in range(1, c["total"] + 1) if c["total"] % k == 0])
    return num, list(range(0, c["total"], num))


def r01_partition(ctx):
    how = ctx.pick(["processes", "one process", "threads", "command line"], [3, 2, 3, 2])
    c = draw_lds(ctx, ("sorted",) if how == "threads" else ("gen", "global", "reseed"))
    call = lds_call
    if how == "command line":
        c.update(ratio=0.5, runs=1, scale=1.0)
        if ctx.chance(0.3):
            c["take"] = max(2, c["n"] - ctx.between(0, 2))
        if ctx.chance(0.4):
            c["runs"] = 2
        call = lds_cli
    if how != "threads" and ctx.chance(0.1):   # numbers of two digits
        c["total"], c["runs"] = 12, 1
    num, starts = draw_parts(ctx, c)
    order = list(starts)
    for i in range(len(order) - 1, 0, -1):
        j = i - ctx.draw(i + 1)
        order[i], order[j] = order[j], order[i]
    if how != "threads" and ctx.chance(0.2):
        order.insert(ctx.draw(len(order)), ctx.pick(starts))  # one partition runs twice
    ctx.say("config", c, "partitions of", num, "order", order, how)
    _, want = mono(ctx, c, call=call)
    truth = lds_truth(c, want)
    d = ctx.dir("split")
    path = "split" if ctx.chance(0.2) else d
    seeds = [ctx.draw(10**6) for _ in range(len(order) + 1)]

    def check(where, finished):
        got = lds_files(d)
        if claims(where, got, [("monolithic", want)]) and len(finished) < len(starts):
            fail("false-metadata", where, f"only partitions {sorted(finished)} of {starts} have run")

    def run(s, p, seed):
        ambient(seed)
        call(c, path, s, start=p, num=num)

    if how == "threads":
        def p(s):
            import threading

            errs, ran = [], set()

            def one(st):
                try:
                    call(c, path, s, start=st, num=num)
                    ran.add(st)
                except Exception as e:  # noqa: BLE001
                    errs.append((st, repr(e)))

            ts = [threading.Thread(target=one, args=(st,)) for st in order]
            for t in ts:
                t.start()
            viol = []
            while any(t.is_alive() for t in ts) and not viol:
                with quiet(s):
                    m = os.path.join(d, "metadata.yml")
                    try:
                        if os.path.exists(m):
                            claims("while partitions run:", lds_files(d), [("monolithic", want)])
                            s.probe("metadata while others run")
                    except Exception as e:  # noqa: BLE001
                        viol.append(e)
                s.sleep(0.5)
            if viol:
                raise viol[0]
            for t in ts:
                t.join()
            if errs:
                fail("retraining-failed", "concurrent partitions:", *errs)

        o = ctx.epoch(p, root=d, name="threads", fsopts={"slow": slow(ctx)})
        if o.kind != "ok":
            fail("retraining-failed", o.value, o.detail[-600:])
    elif how == "one process":
        def p(s):
            done = set()
            for st, seed in zip(order, seeds):
                run(s, st, seed)
                done.add(st)
                with quiet(s):
                    check(f"after partition {st}:", done)

        o = ctx.epoch(p, root=d, name="all", fsopts={"slow": slow(ctx, 2)})
        if o.kind != "ok":
            fail("retraining-failed", o.value, o.detail[-600:])
    else:
        done = set()
        for st, seed in zip(order, seeds):
            o = ctx.epoch(run, (st, seed), root=d, name=f"part{st}", fsopts={"slow": slow(ctx, 1)})
            if o.kind != "ok":
                fail("retraining-failed", f"partition {st}:", o.value, o.detail[-600:])
            done.add(st)
            check(f"after partition {st}:", done)
    same_files("all partitions finished:", lds_files(d), want)
    o = ctx.epoch(lambda s: lds_gt(c, path, s), root=d, name="gt", sched="serial")
    if o.kind != "ok":
        fail("ground-truth-failed", o.value, o.detail[-600:])
    same_gt("partitioned run:", o.value, truth)
    ctx.probe(f"compared, {how}")


def gpt_settings(words):
    """What train.py makes of its arguments: the last assignment counts."""
    import ast

    given = {}
    for w in words:
        if "=" in w and w.startswith("--"):
            k, v = w[2:].split("=", 1)
            try:
                given[k] = ast.literal_eval(v)
            except (SyntaxError, ValueError):
                given[k] = v
        else:
            exec(Path(w).read_text(encoding="utf-8"), given)  # noqa: S102
            given.pop("__builtins__")
    return given


def gpt_cli(c, s, lo, hi, made):
    """dattri_retrain_nanogpt for the models lo..hi-1; what its trainings were given."""
    import subprocess

    from dattri.script import dattri_retrain_nanogpt as cli

    def run(command, *a, **kw):
        if s is not None:
            s.yield_point("train")
        words = command.split() if isinstance(command, str) else [str(x) for x in command]
        if any(x.endswith("train.py") for x in words):
            given = gpt_settings(words[1 + [x.endswith("train.py") for x in words].index(True):])
            made.append((given.pop("out_dir"), given))
        if s is not None:
            s.yield_point("train")
        return subprocess.CompletedProcess(command, 0)

    argv = ["dattri_retrain_nanogpt", "--save_path", "out", "--dataset", c["dataset"], "--seed", str(c["seed"]),
            "--subset_ratio", str(c["ratio"]), "--partition", str(lo), str(hi), str(c["total"])]
    class Child:
        def __init__(self, command, *a, **kw):
            run(command)
            self.returncode, self.pid = 0, 4242

        def wait(self, *a, **kw):
            return 0

        def poll(self):
            return 0

        def communicate(self, *a, **kw):
            return (b"", b"")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    stubs = [(subprocess, "run", run), (subprocess, "call", lambda *a, **k: 0 if run(*a) else 1),
             (subprocess, "check_call", lambda *a, **k: 0 if run(*a) else 1),
             (subprocess, "check_output", lambda *a, **k: b"" if run(*a) else b""), (subprocess, "Popen", Child),
             (os, "system", lambda x: 0 if run(x) else 1)]
    old = [(o, n, getattr(o, n)) for o, n, _ in stubs]
    args, sys.argv, where = sys.argv, argv, os.getcwd()
    for o, n, f in stubs:
        setattr(o, n, f)
    try:
        cli.main()
    finally:
        for o, n, f in old:
            setattr(o, n, f)
        sys.argv = args
        os.chdir(where)


def r01_nanogpt(ctx):
    c = {"dataset": ctx.pick(["shakespeare_char", "tinystories"]), "seed": ctx.pick([0, 1, 42, 2**31]),
         "ratio": ctx.pick([0.5, 1.0, 0.1]), "total": ctx.between(1, 12)}
    cuts = sorted({0, c["total"], *(ctx.between(0, c["total"]) for _ in range(ctx.between(0, 3)))})
    parts = list(zip(cuts, cuts[1:]))
    if ctx.chance(0.3):
        parts[-1] = (parts[-1][0], parts[-1][1] + 2)   # ends at the total all the same
    for i in range(len(parts) - 1, 0, -1):
        j = i - ctx.draw(i + 1)
        parts[i], parts[j] = parts[j], parts[i]
    apart = ctx.chance(0.5)
    seeds = [ctx.draw(10**6) for _ in range(len(parts) + 1)]
    ctx.say("config", c, "partitions", parts, "processes" if apart else "one process")
    d = ctx.dir("gpt")

    def run(s, some):
        made = []
        for i, (lo, hi) in some:
            ambient(seeds[i])
            gpt_cli(c, s, lo, hi, made)
        return made

    def take(o):
        if o.kind != "ok":
            fail("retraining-failed", f"config {c} {parts}:", o.value, o.detail[-600:])
        return o.value

    whole = take(ctx.epoch(run, ([(len(parts), (0, c["total"]))],), root=d, name="whole", sched="serial"))
    got = []
    if apart:
        for x in enumerate(parts):
            got += take(ctx.epoch(run, ([x],), root=d, name=f"part{x[0]}", sched="serial"))
    else:
        got = take(ctx.epoch(run, (list(enumerate(parts)),), root=d, name="parts", sched="serial"))
    want = dict(whole)
    if len(whole) != c["total"] or len(want) != c["total"]:
        fail("incomplete-run", f"{sorted(x for x, _ in whole)} for {c}")
    if sorted(x for x, _ in got) != sorted(want):
        fail("incomplete-run", f"{parts} of {c} train {sorted(x for x, _ in got)}, one run {sorted(want)}")
    for x, v in got:
        if v != want[x]:
            bad = {k: (v.get(k), want[x].get(k)) for k in {*v, *want[x]} if v.get(k) != want[x].get(k)}
            fail("different-training", f"model {x} in {parts} of {c}: (got, one run) {bad}")
    ctx.probe("compared, nanoGPT command line")


def lds_cli(c, path, s=None, start=None, num=None):
    """The same through the dattri_retrain command (stub data set and model)."""
    from dattri.script import dattri_retrain as cli

    part = f"{start},{start + num},{c['total']}" if num is not None else f"0,{c['total']},{c['total']}"
    argv = ["dattri_retrain", "--dataset", "mnist", "--model", "lr", "--mode", "lds",
            "--save_path", str(path), "--data_path", str(path), "--seed", str(c["seed"]),
            "--train_subset", str(c.get("take", -1)), "--partition", part]
    if c["runs"] != 1:
        argv += ["--extra_param", f"num_runs_per_subset={c['runs']}"]
    run_cli(cli, argv, c, s)
    return 1


def run_cli(cli, argv, c, s):
    old = (sys.argv, cli.SUPPORTED_SETTINGS["mnist_lr"], cli.SUPPORTED_DATASETS["mnist"],
           cli.DEFAULT_BATCH_SIZE["mnist_lr"])
    sys.argv = argv
    cli.SUPPORTED_SETTINGS["mnist_lr"] = Trainer(c, s)
    cli.SUPPORTED_DATASETS["mnist"] = lambda p: (dataset(c), dataset(c))
    cli.DEFAULT_BATCH_SIZE["mnist_lr"] = c["bs"]
    try:
        cli.main()
    finally:
        (sys.argv, cli.SUPPORTED_SETTINGS["mnist_lr"], cli.SUPPORTED_DATASETS["mnist"],
         cli.DEFAULT_BATCH_SIZE["mnist_lr"]) = old


# --------------------------------------------------------------------- R02
def draw_trouble(ctx, kmax, calls):
    t = ctx.pick(["crash", "fault", "train", "fault+train"], [4, 3, 2, 1])
    fs, step, boom = {"slow": slow(ctx, 2)}, None, None
    if t == "crash":
        x, step = crash_opts(ctx, kmax)
        fs.update(x)
    if "fault" in t:
        fs["plans"] = write_plan(ctx, kmax)
        fs["short_writes"] = ctx.chance(0.3)
    if "train" in t:
        boom = (ctx.between(1, max(1, calls)), ctx.pick(["start", "end"]))
    return t, fs, step, boom


def r02_interrupted(ctx):
    c = draw_lds(ctx)
    c["shuffle"] = False
    num, starts = draw_parts(ctx, c)
    if ctx.chance(0.5):
        num, starts = None, [0]
    earlier = None
    if ctx.chance(0.5):
        keys = ("seed", "ratio", "total", "runs", "n", "scale", "style", "dseed")
        if num is not None and ctx.chance(0.7):
            # a partition cannot tell what training the other partitions' models
            # went through, so only settings visible to retrain_lds differ, and
            # subsets are too large to coincide by chance
            keys = ("seed", "ratio", "total", "runs", "n")
            c["n"] += 24
        elif num is not None:
            keys = ()
        earlier = dict(c)
        one = ctx.pick(keys) if keys and ctx.chance(0.4) else None
        for k in keys:
            if k == one or (one is None and ctx.chance(0.3)):
                earlier[k] = draw_lds(ctx)[k]
                if k == "n" and len(keys) == 5:
                    earlier[k] += 24
        left = len(keys) == 5 and ctx.chance(0.3)
        if left:
            # only the surplus models tell the earlier run's from the new one's
            earlier = dict(c, runs=c["runs"] + ctx.between(1, 2))
        elif len(keys) == 5 and earlier["n"] != c["n"]:
            earlier["seed"] = c["seed"] + 999
    ctx.say("config", c, "partition size", num, "earlier", earlier)
    d = ctx.dir("run")
    runs = []
    if earlier:
        o = ctx.epoch(lambda s: lds_call(earlier, d) and None, root=d, name="earlier", sched="serial")
        if o.kind != "ok":
            fail("retraining-failed", "earlier run:", o.value, o.detail[-600:])
        runs.append(("earlier", lds_files(d)))
        ctx.probe("over an earlier run")
        over = ctx.dir("start")
        shutil.rmtree(over)
        shutil.copytree(d, over)
    else:
        over = None
    if num is None:
        _, want = mono(ctx, c, over)
    else:
        md = ctx.dir("mono")
        if over:
            shutil.rmtree(md)
            shutil.copytree(over, md)
        o = ctx.pure(lambda s: [lds_call(c, md, None, st, num) for st in starts] and None)
        if o.kind != "ok":
            fail("retraining-failed", f"config {c}:", o.value, o.detail[-600:])
        want = lds_files(md)
        sane(c, want)
    runs.append(("new", want))
    cfgs = ([earlier] if earlier else []) + [c]
    calls = (num or c["total"]) * c["runs"]
    kmax = 5 * calls + 8

    def inspect(where):
        claims(where, lds_files(d), runs)

        def gt(s):
            out = []
            for cc in cfgs:
                try:
                    out.append(lds_gt(cc, d))
                except Exception as e:  # noqa: BLE001
                    out.append(repr(e))
            return out

        if ctx.chance(0.5):
            o = ctx.epoch(gt, root=d, name="gt", sched="serial")
            if o.kind != "ok":
                fail("ground-truth-failed", where, o.value, o.detail[-400:])
            for cc, got in zip(cfgs, o.value):
                if isinstance(got, str):
                    continue
                for (_, f), rc in zip(runs, cfgs):
                    if rc["n"] != cc["n"]:
                        continue
                    t = lds_truth({**rc, "dseed": cc["dseed"], "tn": cc["tn"]}, f)
                    if got[0].shape == t[0].shape and got[1].shape == t[1].shape and \
                       torch.allclose(got[0], t[0], rtol=1e-5, atol=1e-6) and torch.equal(got[1], t[1]):
                        break
                else:
                    fail("wrong-ground-truth", where, "neither run's values:", str(got[0].tolist())[:300])
                ctx.probe("ground truth readable after the fault")

    def rerun(st, last):
        o = ctx.epoch(lambda s: lds_call(c, d, s, st, num) and None, root=d, name=f"rerun{st}", sched="serial")
        if o.kind != "ok":
            fail("rerun-failed", f"partition {st}:", o.value, o.detail[-600:])
        if not last:
            inspect(f"after partition {st} was run again:")

    # a failed partition may be repeated at once, or after the others have run
    order = list(starts)
    if ctx.chance(0.5):
        for i in range(len(order) - 1, 0, -1):
            j = i - ctx.draw(i + 1)
            order[i], order[j] = order[j], order[i]
    later = []
    for st in order:
        hit = ctx.chance(0.7) or num is None
        ok = False
        for _ in range(ctx.between(1, 2) if hit else 0):
            # half of the time over an earlier run: while its models are being removed
            early = earlier and ctx.chance(0.5)
            kill = earlier["runs"] * (num or c["total"]) + 2 if early else 0
            t, fs, step, boom = draw_trouble(ctx, kill or kmax, calls)
            if early and ctx.chance(0.4):
                t, fs, step, boom = "fault", {"plans": write_plan(ctx, 3 * kill, ops=("unlink",))}, None, None
            inproc = ctx.chance(0.4)

            def p(s):
                if step:
                    s.crash_at_step = s.steps + step
                try:
                    lds_call(c, d, s, st, num, boom=boom)
                except Exception:  # noqa: BLE001
                    if not inproc:
                        raise
                else:
                    return "finished"
                s.fs.clear_faults()
                lds_call(c, d, s, st, num)
                return "retried"

            o = ctx.epoch(p, root=d, name=f"{t}-{st}", fsopts=fs)
            ok = o.kind == "ok"
            ctx.probe(f"{t}: {o.kind}")
            where = f"after {t} in partition {st} ({o.kind} {str(o.value)[:80]}):"
            inspect(where)
            if ok:
                # it said that everything is there
                got = lds_files(d)
                for k, v in want.items():
                    if k[0].isdigit() and st <= int(k.split("/")[0]) < st + (num or c["total"]) and \
                       (k not in got or not same_value(got[k], v)):
                        fail("incomplete-run", where, k, "is", "missing" if k not in got else "different")
        if hit and ctx.chance(0.5):
            later.append((st, ok))
            ctx.probe("others run before the repetition")
        else:
            rerun(st, st == order[-1] and not later)
    for i, (st, ok) in enumerate(later):
        if not ok or i == len(later) - 1 or ctx.chance(0.5):
            rerun(st, i == len(later) - 1)
    same_files("after the rerun:", lds_files(d), want)


# --------------------------------------------------------------------- LOO
def draw_loo(ctx, styles=("gen", "global", "reseed")):
    n = ctx.between(2, 9)
    return {"n": n, "dseed": ctx.draw(1000), "bs": ctx.between(1, 4), "tn": ctx.between(1, 3),
            "seed": ctx.pick([0, 3, 2**33]), "style": ctx.pick(styles), "scale": ctx.pick([1.0, 0.5]),
            "shuffle": ctx.chance(0.5)}


def loo_call(c, path, s=None, indices=None, boom=None, kind="list"):
    from dattri.model_util.retrain import retrain_loo

    kw = {"scale": c["scale"]} if c["scale"] != 1.0 else {}
    if indices is not None:
        indices = {"list": list, "numpy": lambda x: list(np.array(x)), "range": list}[kind](indices)
    t = Trainer(c, s, boom)
    retrain_loo(t, loader(c), path, indices=indices, seed=c["seed"], **kw)


def loo_cli(c, path, s=None, indices=None, boom=None, kind=None):
    from dattri.script import dattri_retrain as cli

    argv = ["dattri_retrain", "--dataset", "mnist", "--model", "lr", "--mode", "loo",
            "--save_path", str(path), "--data_path", str(path), "--seed", str(c["seed"]),
            "--train_subset", str(-1)]
    if indices is not None:
        argv += ["--partition", f"{indices[0]},{indices[-1] + 1},none"]
    run_cli(cli, argv, c, s)


def load_model(p):
    return torch.load(p, weights_only=False)


def loo_files(d):
    """(metadata or None, {index: state dict or error text})."""
    models = {}
    for x in sorted(os.listdir(d)):
        if x.startswith("index_") and os.path.isdir(os.path.join(d, x)):
            p = os.path.join(d, x, "model_weights.pt")
            if os.path.exists(p):
                try:
                    models[int(x[6:])] = load_model(p).state_dict()
                except Exception as e:  # noqa: BLE001
                    models[int(x[6:])] = f"unreadable: {e!r:.200}"
    m = os.path.join(d, "metadata.yml")
    meta = None
    if os.path.exists(m):
        text = Path(m).read_text()
        try:
            meta = yaml.safe_load(text)
            assert isinstance(meta, dict)
            meta["indices"], meta["map_index_dir"], meta["data_length"]  # noqa: B018
        except Exception as e:  # noqa: BLE001
            fail("torn-metadata", f"{e!r:.300} in {text[:200]!r}")
    return meta, models


def loo_claims(where, d, c, variants):
    """No index is treated as finished without a complete model."""
    meta, models = loo_files(d)
    for i, m in models.items():
        if isinstance(m, str):
            fail("torn-model", where, f"index {i}: {m}")
        if not any(i in v and eq_state(m, v[i]) for v in variants):
            fail("wrong-model", where, f"index {i}: seen {m['seen'].tolist()}")
    if meta is not None:
        for i in meta["indices"]:
            if i not in models:
                fail("false-metadata", where, f"metadata lists index {i}, which has no model; models {sorted(models)}")
        for i, p in meta["map_index_dir"].items():
            if not os.path.exists(os.path.join(p, "model_weights.pt")):
                fail("false-metadata", where, f"metadata maps index {i} to {p}, which has no model")
    return meta, models


def loo_complete(where, d, c, want, must):
    meta, models = loo_claims(where, d, c, [want])
    if meta is None:
        fail("missing-metadata", where)
    if set(models) != set(must):
        fail("missing-model", where, f"models of {sorted(models)} instead of {sorted(must)}")
    if sorted(meta["indices"]) != sorted(must):
        fail("wrong-metadata", where, f"indices {meta['indices']} instead of {sorted(must)}")
    if meta["data_length"] != c["n"] or meta.get("mode") != "loo" or meta.get("train_func") != "train_stub":
        fail("wrong-metadata", where, str(meta)[:300])
    if {int(k): os.path.realpath(v) for k, v in meta["map_index_dir"].items()} != \
       {i: os.path.realpath(os.path.join(d, f"index_{i}")) for i in must}:
        fail("wrong-metadata", where, str(meta["map_index_dir"])[:300])


def loo_target(s=None, boom=None):
    n = [0]

    def f(model, dl):
        n[0] += 1
        if boom and n[0] == boom:
            raise BOOMS[(boom * 5) % len(BOOMS)]("target failed")
        model.eval()
        with torch.no_grad():
            return torch.cat([model(x).logsumexp(1) for (x,) in dl])

    return f


def loo_truth(c, models):
    (xs,) = zip(*test_loader(c))
    idx = sorted(models)
    rows = []
    for i in idx:
        m = Net(c["n"])
        m.load_state_dict(models[i])
        with torch.no_grad():
            rows.append(torch.cat([m(x).logsumexp(1) for x in xs]))
    return torch.stack(rows), torch.tensor(idx).float()


def loo_gt(c, path, s=None, boom=None):
    from dattri.metric import calculate_loo_ground_truth

    return calculate_loo_ground_truth(loo_target(s, boom), path, test_loader(c))


def loo_reference(ctx, c, name="mono"):
    d = ctx.dir(name)
    o = ctx.pure(lambda s: loo_call(c, d))
    if o.kind != "ok":
        fail("retraining-failed", f"config {c}:", o.value, o.detail[-600:])
    _, models = loo_files(d)
    for i in range(c["n"]):
        if i not in models or isinstance(models[i], str):
            fail("missing-model", f"index {i} after one uninterrupted call: {models.get(i)}")
        want = [int(k != i) for k in range(c["n"])]
        if models[i]["seen"].tolist() != want:
            fail("wrong-training-data", f"the model without {i} was trained on {models[i]['seen'].tolist()}")
    if set(models) != set(range(c["n"])):
        fail("extra-model", sorted(models))
    loo_complete("one uninterrupted call:", d, c, models, range(c["n"]))
    return models


def r03_loo(ctx):
    how = ctx.pick(["processes", "threads", "command line"], [4, 2, 1])
    c = draw_loo(ctx, ("sorted",) if how == "threads" else ("gen", "global", "reseed"))
    if how == "command line":
        c["scale"] = 1.0
    call = loo_cli if how == "command line" else loo_call
    want = loo_reference(ctx, c)
    # which indices, in which calls
    idx = list(range(c["n"]))
    if how != "command line":
        for i in range(len(idx) - 1, 0, -1):
            j = i - ctx.draw(i + 1)
            idx[i], idx[j] = idx[j], idx[i]
        idx = idx[: ctx.between(1, len(idx))]
    ncalls = ctx.between(1, min(3, len(idx)))
    cuts = sorted(ctx.between(1, len(idx)) for _ in range(ncalls - 1)) if ncalls > 1 else []
    parts = [idx[a:b] for a, b in zip([0, *cuts], [*cuts, len(idx)]) if b > a]
    if how == "command line" and ctx.chance(0.5):
        parts.reverse()
    if len(parts) == 1 and len(idx) == c["n"] and ctx.chance(0.5):
        parts = [None]
    kind = ctx.pick(["list", "numpy"])
    trouble = how != "command line" and ctx.chance(0.6)
    variants = [want]
    d = ctx.dir("loo")
    path = "loo" if ctx.chance(0.2) else d
    ctx.say("config", c, "calls", parts, kind, how, "with trouble" if trouble else "")
    if trouble and ctx.chance(0.3):
        e = dict(c, seed=c["seed"] + 1, style="gen")
        variants.append(loo_reference(ctx, e, "mono2"))
        o = ctx.epoch(lambda s: loo_call(e, d), root=d, name="earlier", sched="serial")
        if o.kind != "ok":
            fail("retraining-failed", o.value, o.detail[-400:])
        ctx.probe("over an earlier run")
        idx = list(range(c["n"]))
        parts = [p or idx for p in parts] + [[i for i in idx if not any(i in (p or idx) for p in parts)]]
        parts = [p for p in parts if p]
    if how == "threads":
        t, fs, step, boom = draw_trouble(ctx, 30, 3) if trouble else ("none", {"slow": slow(ctx)}, None, None)

        def p(s):
            import threading

            if step:
                s.crash_at_step = s.steps + step
            errs = []

            def one(k, part):
                try:
                    call(c, path, s, part, boom if k == 0 else None, kind)
                except Exception as e:  # noqa: BLE001
                    errs.append(repr(e))

            ts = [threading.Thread(target=one, args=a) for a in enumerate(parts)]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
            return errs

        o = ctx.epoch(p, root=d, name=f"threads-{t}", fsopts=fs)
        if o.kind == "exc" or (o.kind == "ok" and o.value and t == "none"):
            fail("retraining-failed", o.value, o.detail[-600:])
        loo_claims(f"after {t} with concurrent calls ({o.kind}):", d, c, variants)
        clean = o.kind == "ok" and not o.value
        ctx.probe(f"threads {t} {'clean' if clean else 'failed'}")
        again = [] if clean else parts
    else:
        again = parts
    for k, part in enumerate(again):
        for _ in range(ctx.between(0, 2) if trouble else 0):
            t, fs, step, boom = draw_trouble(ctx, 5 * (len(part or idx)) + 8, len(part or idx))

            def p(s):
                if step:
                    s.crash_at_step = s.steps + step
                call(c, path, s, part, boom, kind)

            o = ctx.epoch(p, root=d, name=f"{t}-{k}", fsopts=fs)
            ctx.probe(f"{t}: {o.kind}")
            where = f"after {t} in call {k} ({o.kind} {str(o.value)[:80]}):"
            meta, models = loo_claims(where, d, c, variants)
            if o.kind == "ok":
                for i in part if part is not None else idx:
                    if meta is None or i not in meta["indices"] or i not in models or not eq_state(models[i], want[i]):
                        fail("incomplete-run", where, f"index {i}")
            if models and ctx.chance(0.4):
                o = ctx.epoch(lambda s: loo_gt(c, path), root=d, name="gt", sched="serial")
                if o.kind == "ok":
                    same_gt(where, o.value, loo_truth(c, models))
                    ctx.probe("ground truth readable after the fault")
                else:
                    ctx.probe("ground truth refused after the fault")
        o = ctx.epoch(lambda s: call(c, path, s, part, None, kind), root=d, name=f"call{k}",
                      fsopts={"slow": slow(ctx, 1)})
        if o.kind != "ok":
            fail("rerun-failed" if trouble else "retraining-failed", o.value, o.detail[-600:])
        if k < len(again) - 1:
            loo_claims(f"after call {k}:", d, c, variants)
    must = set()
    for part in parts:
        must |= set(range(c["n"]) if part is None else part)
    loo_complete("all calls finished:", d, c, want, must)
    o = ctx.epoch(lambda s: loo_gt(c, path), root=d, name="gt", fsopts={"shuffle_dirs": True})
    if o.kind != "ok":
        fail("ground-truth-failed", o.value, o.detail[-600:])
    same_gt("complete directory:", o.value, loo_truth(c, {i: want[i] for i in must}))


# --------------------------------------------------------------------- R04
def cut_file(ctx, path, lines=False):
    """Truncates a file; for a text file at least its last line goes."""
    size = os.path.getsize(path)
    if lines:
        text = Path(path).read_bytes()
        size = text.rfind(b"\n") + 1
        if size <= 0:
            size = 1
    at = ctx.draw(max(1, size), s="fault")
    with open(path, "r+b") as f:
        f.truncate(at)
    return at


def r04_ground_truth(ctx):
    lds = ctx.chance(0.55)
    c = draw_lds(ctx) if lds else draw_loo(ctx)
    if lds and ctx.chance(0.2):   # numbers of several digits
        if ctx.chance(0.7):
            c["total"], c["runs"] = 10 + ctx.between(1, 4), 1
        else:
            c["total"], c["runs"] = 2, 10 + ctx.between(1, 3)
    d = ctx.dir("gt")
    path = "gt" if ctx.chance(0.15) else d
    if lds:
        o = ctx.pure(lambda s: lds_call(c, path) and None)
    else:
        idx = [i for i in range(c["n"]) if not ctx.chance(0.4)] or [c["n"] - 1]
        o = ctx.pure(lambda s: loo_call(c, path, None, idx))
        if ctx.chance(0.5):   # larger and unordered index numbers
            hi = ctx.pick([10, 98, 997])
            os.rename(os.path.join(d, f"index_{idx[0]}"), os.path.join(d, f"index_{idx[0] + hi}"))
        if ctx.chance(0.2):
            os.makedirs(os.path.join(d, "logs"))
            Path(d, "index_of_files.txt").write_text("x")
    if o.kind != "ok":
        fail("retraining-failed", o.value, o.detail[-600:])
    if lds:
        files = lds_files(d)
        sane(c, files)
        truth = lds_truth(c, files)
        n = c["total"] * c["runs"]
    else:
        _, models = loo_files(d)
        truth = loo_truth(c, models)
        n = len(models)
    trouble = ctx.pick(["none", "read", "remove", "cut", "target"], [2, 4, 3, 3, 2])
    fs, boom, what = {"shuffle_dirs": True, "slow": slow(ctx, 1)}, None, ""
    names = sorted(os.path.relpath(os.path.join(b, f), d) for b, _, fl in os.walk(d) for f in fl)
    names = [x for x in names if x.endswith((".pt", "indices.txt")) or (lds and x == "metadata.yml")]
    if trouble == "read":
        fs["plans"] = read_plan(ctx, 3 * n + 3)
    elif trouble in ("remove", "cut"):
        what = ctx.pick(names, s="fault")
        p = os.path.join(d, what)
        ctx.fired[f"{trouble} {what.split('/')[-1].split('_')[0].split('.')[0]}"] += 1
        if trouble == "remove":
            os.unlink(p)
        elif what.endswith("indices.txt") and os.path.getsize(p) == 0:
            trouble = "none"
        else:
            what += f" at {cut_file(ctx, p, what.endswith('indices.txt'))}"
    elif trouble == "target":
        boom = ctx.between(1, n, s="fault")
        ctx.fired["target function error"] += 1
    ctx.say("LDS" if lds else "LOO", "config", c, "trouble", trouble, what, boom)
    times = ctx.between(1, 2)

    def p(s):
        out = []
        for _ in range(times):
            try:
                out.append((lds_gt if lds else loo_gt)(c, path, s, boom))
            except Exception as e:  # noqa: BLE001
                out.append(Boom(repr(e)) if isinstance(e, Boom) else repr(e))
        return out

    o = ctx.epoch(p, root=d, name="gt", fsopts=fs)
    if o.kind != "ok":
        fail("ground-truth-failed", o.value, o.detail[-600:])
    for got in o.value:
        if isinstance(got, tuple):
            if trouble == "target":
                fail("swallowed-error", "the target function failed, a ground truth was returned")
            if trouble == "remove" and "metadata" not in what:
                fail("wrong-ground-truth", f"{what} is missing, a ground truth was returned")
            same_gt(f"trouble {trouble} {what}:", got, truth)
            ctx.probe(f"{trouble}: exact")
        else:
            if trouble == "none":
                fail("ground-truth-failed", got)
            ctx.probe(f"{trouble}: error")


# --------------------------------------------------------------------- R05
TINY = ["--device=cpu", "--dtype=float32", "--compile=False", "--n_layer=1", "--n_head=1", "--n_embd=4", "--block_size=4",
        "--eval_iters=1", "--eval_interval=1", "--log_interval=100", "--warmup_iters=0", "--wandb_log=False"]


def gpt_data(c, d):
    """What the preparation leaves: every block starts with a token of its own."""
    import pickle

    n = c["blocks"]
    toks = np.array([t for b in range(n) for t in (b, n, n + 1, n)] + [n + 1], dtype=np.uint16)
    os.makedirs(d, exist_ok=True)
    for f in ("train.bin", "val.bin"):
        with open(os.path.join(d, f), "wb") as h:
            h.write(toks.tobytes())
    with open(os.path.join(d, "meta.pkl"), "wb") as h:
        pickle.dump({"vocab_size": n + 2}, h)


def gpt_train(words, c, data, seen):
    """train.py, as its own interpreter would run it, on a small machine."""
    from .boot import REPO

    where = os.path.join(REPO, "dattri", "benchmark", "models", "nanoGPT")
    with open(os.path.join(where, "train.py"), encoding="utf-8") as f:
        code = compile(f.read(), os.path.join(where, "train.py"), "exec")
    opts = [*TINY, f"--batch_size={c['bs']}", f"--max_iters={c['iters']}", f"--lr_decay_iters={c['iters']}",
            f"--always_save_checkpoint={c['always']}", f"--dropout={c['dropout']}"]
    old, mods = (sys.argv, list(sys.path), os.getcwd()), sys.modules.pop("model", None)

    def watch(module, args):
        if type(module).__name__ == "GPT" and module.training:
            seen.update(int(x) for x in args[0][:, 0])

    hook = torch.nn.modules.module.register_module_forward_pre_hook(watch)
    sys.argv = ["train.py", *words[1:], *opts, f"--dataset_path={data}"]
    sys.path.insert(0, where)
    os.chdir(where)
    try:
        exec(code, {"__name__": "__main__", "__file__": "train.py"})  # noqa: S102
    finally:
        hook.remove()
        sys.argv, sys.path[:], cwd = old[0], old[1], old[2]
        os.chdir(cwd)
        sys.modules.pop("model", None)
        if mods is not None:
            sys.modules["model"] = mods


class GptMachine:
    """Stands for the operating system that starts the preparation and trainings."""

    def __init__(self, s, c, data, boom):
        self.s, self.c, self.data, self.boom, self.n, self.hits, self.seen = s, c, data, boom, 0, 0, {}

    def start(self, command):
        words = command.split() if isinstance(command, str) else [str(x) for x in command]
        names = [os.path.basename(x) for x in words]
        job = next((n for n in names if n in ("train.py", "prepare.py")), None)
        if job is None:
            return 0
        self.n += 1
        self.s.yield_point(job)
        if self.boom and self.boom[0] == self.n and self.boom[1] == "start":
            self.hits += 1
            self.s.fire(f"{job} could not run")
            return self.boom[2]
        if job == "train.py":
            words = words[names.index("train.py"):]
            given = gpt_settings(words[1:])
            seen = self.seen[os.path.basename(given["out_dir"])] = set()
            before = sum(p.hits for p in self.s.fs.plans)
            state = torch.get_rng_state(), np.random.get_state()
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    # a process of its own: its use of the generators is not seen here
                    gpt_train(words, self.c, self.data, seen)
            except Exception as e:  # noqa: BLE001
                if sum(p.hits for p in self.s.fs.plans) == before:
                    self.error = repr(e)
                self.hits += 1
                self.s.fire("training failed")
                return 1
            finally:
                torch.set_rng_state(state[0])
                np.random.set_state(state[1])
        if self.boom and self.boom[0] == self.n and self.boom[1] == "end":
            self.hits += 1
            self.s.fire(f"{job} died at its end")
            return self.boom[2]
        return 0

    error = None

    def stubs(self):
        import subprocess

        def run(command, *a, check=False, **kw):
            rc = self.start(command)
            if check and rc:
                raise subprocess.CalledProcessError(rc, command)
            return subprocess.CompletedProcess(command, rc, kw.get("text") and "" or b"", kw.get("text") and "" or b"")

        class Child:
            def __init__(ch, command, *a, **kw):
                ch.returncode, ch.pid = self.start(command), 4242

            def wait(ch, *a, **kw):
                return ch.returncode

            poll = wait

            def communicate(ch, *a, **kw):
                return (b"", b"")

            def __enter__(ch):
                return ch

            def __exit__(ch, *a):
                pass

        def checked(value):
            def f(command, *a, **kw):
                kw.pop("check", None)
                run(command, check=True)
                return value
            return f

        return [(subprocess, "run", run), (subprocess, "call", lambda x, *a, **k: self.start(x)),
                (subprocess, "check_call", checked(0)), (subprocess, "check_output", checked(b"")),
                (subprocess, "Popen", Child), (os, "system", lambda x: self.start(x) << 8)]


def gpt_result(d):
    """Every model directory: what its checkpoint holds and its list of blocks."""
    out = {}
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        p = os.path.join(d, x)
        ck, idx = None, None
        if os.path.exists(os.path.join(p, "ckpt.pt")):
            try:
                k = torch.load(os.path.join(p, "ckpt.pt"), weights_only=False)
                ck = (k["iter_num"], round(float(k["best_val_loss"]), 5), k["config"]["seed"],
                      torch.cat([v.reshape(-1).double() for v in k["model"].values()]))
            except Exception as e:  # noqa: BLE001
                ck = f"unreadable: {type(e).__name__}"
        if os.path.exists(os.path.join(p, "indices.txt")):
            with open(os.path.join(p, "indices.txt"), encoding="utf-8") as f:
                idx = f.read().split()
        out[x] = (ck, idx)
    return out


def gpt_same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[:3] == b[:3] and a[3].shape == b[3].shape and bool((a[3] - b[3]).abs().max() <= 1e-5)
    return a == b


def gpt_command(c, s, machine, out, lo, hi):
    from dattri.script import dattri_retrain_nanogpt as cli

    argv = ["dattri_retrain_nanogpt", "--save_path", out, "--dataset", c["dataset"], "--seed", str(c["seed"]),
            "--subset_ratio", str(c["ratio"]), "--partition", str(lo), str(hi), str(c["total"])]
    stubs = machine.stubs()
    old = [(o, n, getattr(o, n)) for o, n, _ in stubs]
    args, sys.argv, where = sys.argv, argv, os.getcwd()
    for o, n, f in stubs:
        setattr(o, n, f)
    tempfile.tempdir = os.path.dirname(out)
    try:
        cli.main()
        return "ok", None
    except SystemExit as e:
        return ("error", repr(e)) if e.code else ("ok", None)
    except Exception as e:  # noqa: BLE001
        return "error", repr(e)[:300]
    finally:
        for o, n, f in old:
            setattr(o, n, f)
        sys.argv = args
        os.chdir(where)


def r05_nanogpt(ctx):
    def draw():
        return {"dataset": ctx.pick(["shakespeare_char", "tinystories"]), "seed": ctx.pick([1, 2, 42]),
                "ratio": ctx.pick([0.5, 1.0, 0.3]), "total": ctx.between(1, 4), "blocks": ctx.between(5, 12), "bs": ctx.between(1, 4),
                "iters": ctx.between(1, 4), "always": ctx.chance(0.5), "dropout": ctx.pick([0.0, 0.3])}

    c = draw()
    lo = ctx.draw(c["total"])
    hi = ctx.between(lo + 1, c["total"])
    root = ctx.dir("gpt")
    data, out = os.path.join(root, "data"), os.path.join(root, "out")
    history = []
    for _ in range(ctx.between(0, 3)):
        e = c if ctx.chance(0.5) else {**draw(), "blocks": c["blocks"]}
        fs, step, boom = {"slow": 0}, None, None
        t = ctx.pick(["none", "crash", "fault", "job"], [2, 4, 3, 4])
        if t == "crash":
            fs["crash_at"], fs["crash_mid"] = 1 + ctx.draw(30, s="crash"), ctx.chance(0.5, s="crash")
        elif t == "fault":
            fs["plans"] = write_plan(ctx, 12) if ctx.chance(0.6, s="fault") else read_plan(ctx, 8)
        elif t == "job":
            boom = (ctx.between(1, 1 + e["total"], s="fault"), ctx.pick(["start", "end"], s="fault"),
                    ctx.pick([1, 137, -9], s="fault"))
        history.append((e, t, fs, boom))
    ctx.say("config", c, "models", lo, hi)
    seeds = [ctx.draw(10**6) for _ in range(len(history) + 2)]

    def clean(s):
        ambient(1)
        gpt_data(c, data)
        m = GptMachine(s, c, data, None)
        ref = os.path.join(root, "ref")
        res = gpt_command(c, s, m, ref, lo, hi)
        if res[0] != "ok" or m.error:
            fail("retraining-failed", res, m.error)
        return gpt_result(ref), m.seen

    o = ctx.epoch(clean, root=root, name="reference", sched="serial")
    if o.kind != "ok":
        fail("retraining-failed", o.value, o.detail[-600:])
    want, seen = o.value
    if sorted(want) != sorted(f"model_{i + 1}" for i in range(lo, hi)):
        fail("incomplete-run", f"{sorted(want)} for models {lo}..{hi} of {c}")
    for x, (ck, idx) in want.items():
        n = int(c["blocks"] * c["ratio"])
        if idx is None or len(idx) != n or len(set(idx)) != n or not seen[x] <= {int(i) for i in idx}:
            fail("wrong-indices", f"{x} lists {idx}, was trained on {sorted(seen[x])}; {c}")
        if isinstance(ck, str) or (ck is None and c["always"]):
            fail("no-checkpoint", f"{x}: {ck}; {c}")

    def compare(which):
        got = gpt_result(out)
        for x, w in want.items():
            g = got.get(x, (None, None))
            if g[1] != w[1]:
                fail("wrong-indices", f"{x} of {which} lists {g[1]} instead of {w[1]}; {c}")
            if not gpt_same(g[0], w[0]):
                fail("wrong-checkpoint", f"{x} of {which}: {str(g[0])[:120]} instead of {str(w[0])[:120]}; {c}")

    def p(s, e, boom, a, b, seed):
        ambient(seed)
        m = GptMachine(s, e, data, boom)
        res = gpt_command(e, s, m, out, a, b)
        return res, m.hits, m.error

    for i, (e, t, fs, boom) in enumerate(history):
        a, b = (lo, hi) if e is c else (0, e["total"])
        ctx.say("earlier", i, e if e is not c else "same", t, fs, boom)
        o = ctx.epoch(p, (e, boom, a, b, seeds[i]), root=root, name=f"earlier{i}", fsopts=fs)
        if o.kind == "crashed":
            ctx.probe("killed")
            continue
        if o.kind != "ok":
            fail("retraining-failed", o.value, o.detail[-600:])
        (res, msg), hits, error = o.value
        if error:
            fail("retraining-failed", f"a training that no fault struck: {error}")
        if res == "ok" and hits:
            fail("failure-not-reported", f"{hits} preparations or trainings failed, yet the command ended normally ({t} {boom}); {e}")
        if res != "ok" and t == "none":
            fail("retraining-failed", msg)
        ctx.probe("reported" if res != "ok" else "finished")
        if res == "ok" and e is c:
            compare(f"run {i}")
    o = ctx.epoch(p, (c, None, lo, hi, seeds[-1]), root=root, name="rerun", fsopts={"slow": slow(ctx, 1)})
    if o.kind != "ok" or o.value[0][0] != "ok":
        fail("retraining-failed", "the rerun:", o.value, (o.detail or "")[-600:])
    compare("the rerun")
    ctx.probe("reruns compared" if history else "compared")
