"""Seeded benchmark training and evaluation functions (B04).

The reference is the same call as the first thing that happens in a process of
its own.  A run is a history of trainings and evaluations in one process, some
aborted by a failing data access, allocation or file read, in the midst of
foreign use of the global generators.
"""

from __future__ import annotations

import contextlib
import importlib
import io
import os
import random
import threading

import numpy as np
import torch
from torch.utils.data import DataLoader, Dataset

from . import fs as simfs
from .memory import Allocations, NoMemory, harness_code
from .util import READ_ERR, close, diff, fail, quiet
from .w_attr import Ambient, reseed_all

B = "dattri.benchmark.datasets."
#          module, training function, loss function, keyword of the epochs, losses per sample
FUNCS = {
    "lr": ("mnist.mnist_lr", "train_mnist_lr", "loss_mnist_lr", "epoch_num", True),
    "mlp": ("mnist.mnist_mlp", "train_mnist_mlp", "loss_mnist_mlp", "epoch_num", True),
    "resnet9": ("cifar.cifar_resnet9", "train_cifar_resnet9", "loss_cifar_resnet9", "num_epochs", True),
    "resnet18": ("imagenet.imagenet_resnet18", "train_imagenet_resnet18", "loss_imagenet_resnet18", "num_epochs", False),
    "music": ("maestro.maestro_musictransformer", "train_maestro_musictransformer", "loss_maestro_musictransformer", "num_epoch", True),
}
SHAPE = {"lr": (1, 28, 28), "mlp": (1, 28, 28), "resnet9": (3, 32, 32), "resnet18": (3, 32, 32)}


class Broken(RuntimeError):
    pass


class Halt(BaseException):
    pass


EXCS = (Broken, OSError, ValueError, Halt, KeyError, MemoryError, IndexError, TypeError)


def functions(kind):
    mod, train, loss, epochs, per_sample = FUNCS[kind]
    m = importlib.import_module(B + mod)
    return getattr(m, train), getattr(m, loss), epochs, per_sample


class Data(Dataset):
    """A data set whose samples may be augmented through a global generator."""

    def __init__(self, c, test=False):
        g = torch.Generator().manual_seed(c["data"] + 1000 * test)
        self.n, self.aug = c["n"], None if test else c["aug"]
        if c["kind"] == "music":
            self.x = torch.randint(0, 300, (self.n, 6), generator=g)
            self.y = torch.randint(0, 300, (self.n, 6), generator=g)
        else:
            self.x = torch.randn(self.n, *SHAPE[c["kind"]], generator=g)
            self.y = torch.randint(0, 2, (self.n,), generator=g)
        self.calls, self.seen = None, []

    def __len__(self):
        return self.n

    @harness_code
    def __getitem__(self, i):
        if self.calls:
            self.calls()
        e = {None: lambda: 0.0, "torch": lambda: float(torch.rand(())), "numpy": np.random.rand,
             "python": random.random}[self.aug]()
        self.seen.append((int(i), round(float(e), 7)))
        x = self.x[i]
        return (x if x.dtype == torch.int64 else x + e), self.y[i]


class Strike:
    def __init__(self, s, at=None, exc=Broken, noise=None):
        self.s, self.at, self.exc, self.noise, self.n, self.hits = s, at, exc, noise, 0, 0

    def __call__(self):
        self.n += 1
        if self.noise:
            self.noise()
        self.s.yield_point("data access")
        if self.at is not None and self.n == self.at:
            self.hits += 1
            self.s.fire(f"{self.exc.__name__} from the data set")
            raise self.exc("data access failed")


def draw_config(ctx):
    kind = ctx.pick(["lr", "mlp", "resnet9", "music", "resnet18"], [8, 8, 4, 1, 1])
    small = kind in ("music", "resnet18")
    return {"kind": kind, "n": ctx.between(2, 3 if small else 9), "bs": ctx.pick([2, 3, 5]),
            "epochs": 1 if small else ctx.between(1, 2), "seed": ctx.pick([0, 1, 7, 2**31]), "data": ctx.draw(4),
            "shuffle": ctx.chance(0.6), "aug": ctx.pick([None, "torch", "numpy", "python"], [2, 1, 2, 2])}


def loader(c, ds):
    # a batch of one sample has no batch statistics
    return DataLoader(ds, batch_size=c["bs"], shuffle=c["shuffle"], drop_last=c["n"] % c["bs"] == 1 and c["n"] > c["bs"])


def train(c, ds):
    fn, _, epochs, _ = functions(c["kind"])
    return fn(loader(c, ds), seed=c["seed"], device="cpu", **{epochs: c["epochs"]})


@harness_code
def state(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


@harness_code
def flat(st):
    return torch.cat([v.reshape(-1).double() for v in st.values()])


def reference(c):
    """In a process of its own: training, then evaluation of what it gave."""
    def f(s):
        ds = Data(c)
        m = train(c, ds)
        st = state(m)
        path = os.path.join(s.root, "model.pt")
        torch.save(st, path)
        t = Data(c, test=True)
        out = evaluate(c, path, t, c["bs"])
        return {"names": list(st), "flat": flat(st), "seen": ds.seen, "loss": torch.as_tensor(out)}

    return f


def evaluate(c, path, ds, bs):
    return functions(c["kind"])[1](path, DataLoader(ds, batch_size=bs, shuffle=False), device="cpu")


def b04_training(ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        for kind in FUNCS:
            functions(kind)
    configs = [draw_config(ctx)]
    for _ in range(ctx.between(0, 1)):
        o = draw_config(ctx)
        if ctx.chance(0.6):  # differs in little
            keep = ctx.pick(["seed", "aug", "data", "shuffle", "bs"])
            o = {**configs[0], keep: o[keep]}
        configs.append(o)
    prog = []
    trained = set()
    if ctx.chance(0.7):
        prog.append(("train", 0, "none", 0, 0, 1))
        trained.add(0)
    for _ in range(ctx.between(1, 5)):
        i = ctx.draw(len(configs))
        what = ctx.pick(["train", "eval", "both"], [3, 4, 1])
        if what != "train" and i not in trained:
            what = "train"
        trouble = ctx.pick(["none", "data", "memory", "file", "damage"] if what == "eval" else ["none", "data", "memory"],
                           [4, 3, 3, 3, 2] if what == "eval" else [3, 4, 2], s="fault") if what != "both" else "none"
        if what == "train" and trouble == "none":
            trained.add(i)
        c = configs[i]
        at = 1 + ctx.draw({"data": c["n"] * c["epochs"], "memory": 60, "file": 2}.get(trouble, 3), s="fault")
        prog.append((what, i, trouble, at, ctx.draw(len(EXCS), s="fault"), ctx.pick([1, 2, 4, 16])))
    # once the faults are gone
    prog += [("train", i, "none", 0, 0, 1) for i in range(len(configs))]
    prog += [("eval", i, "none", 0, 0, ctx.pick([1, 2, 4, 16])) for i in range(len(configs))]
    amb = ctx.draw(10**6, s="fault") if ctx.chance(0.8, s="fault") else None
    ctx.say("configurations", configs)
    ctx.say("program", prog, "ambient", amb)

    ref = []
    for i, c in enumerate(configs):
        o = ctx.epoch(reference(c), root=ctx.dir(f"ref{i}"), name=f"ref{i}", sched="serial")
        if o.kind != "ok":
            fail("failed-without-faults", o.value, o.detail[-900:])
        ref.append(o.value)

    def p(s):
        noise = Ambient(amb) if amb is not None else None
        if noise:
            reseed_all(amb % 1000)
        paths = [os.path.join(s.root, f"model{i}.pt") for i in range(len(configs))]
        blobs = {}

        def check_loss(i, bs, out, why=""):
            c = configs[i]
            if not (functions(c["kind"])[3] or bs == c["bs"]):
                return
            got = torch.as_tensor(out)
            if not close(got.double(), ref[i]["loss"].double(), rtol=1e-4, floor=1e-3):
                fail("wrong-loss", why, diff(got.double(), ref[i]["loss"].double()), f"for {c}, batch size {bs}")
            s.probe("losses compared")

        def one_eval(i, bs, env, out):
            t = Data(configs[i], test=True)
            t.calls = env
            out.append(evaluate(configs[i], paths[i], t, bs))

        for what, i, trouble, at, exc, bs in prog:
            c = configs[i]
            if noise:
                noise()
            if not functions(c["kind"])[3]:
                bs = c["bs"]
            if what == "both":
                # two evaluations at once, over loaders of their own
                outs, envs = [[], []], [Strike(s, noise=noise), Strike(s)]
                jobs = [i, random.Random(bs).choice(sorted(blobs))]
                ts = [threading.Thread(target=one_eval, args=(jobs[k], configs[jobs[k]]["bs"], envs[k], outs[k])) for k in (0, 1)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                if s.thread_errors:
                    fail("thread-error", s.thread_errors[0])
                for k in (0, 1):
                    check_loss(jobs[k], configs[jobs[k]]["bs"], outs[k][0], "of two evaluations at once:")
                continue
            env = Strike(s, at if trouble == "data" else None, EXCS[exc],
                         noise if what == "eval" else None)
            mem = Allocations(at) if trouble == "memory" else Allocations()
            mem.sim = s
            plans = [simfs.Plan(simfs.READ_OPS, at, READ_ERR[exc % len(READ_ERR)], exc % 2 == 0)] if trouble == "file" else []
            damaged = False
            if trouble == "damage":
                with quiet(s):
                    damaged = True
                    if exc % 3 == 0:
                        os.unlink(paths[i])
                    else:
                        with open(paths[i], "wb") as f:
                            f.write(blobs[i][:0 if exc % 3 == 1 else len(blobs[i]) * 2 // 3])
            ds = Data(c)
            ds.calls = env
            out = []
            s.fs.plans += plans
            err = None
            try:
                with mem:
                    if what == "train":
                        out.append(train(c, ds))
                    else:
                        one_eval(i, bs, env, out)
            except (Exception, Halt) as e:  # noqa: BLE001
                err = e
            finally:
                mem.clear()
                s.fs.plans[:] = [x for x in s.fs.plans if x not in plans]
            struck = env.hits or mem.hits or any(x.hits for x in plans) or damaged
            if damaged:
                with quiet(s), open(paths[i], "wb") as f:
                    f.write(blobs[i])
            if err is not None:
                if not struck:
                    fail("failed-without-faults", f"{err!r} in {what} of {c}")
                s.probe(f"{what} aborted")
            elif env.hits or damaged:
                fail("failure-swallowed", f"{what} of {c} went on after {trouble} (access {at})")
            elif what == "train":
                st = state(out[0])
                if list(st) != ref[i]["names"]:
                    fail("wrong-model", f"other entries of the state of {c}")
                if ds.seen != ref[i]["seen"]:
                    k = next((k for k, (a, b) in enumerate(zip(ds.seen, ref[i]["seen"])) if a != b), None)
                    fail("wrong-samples", f"sample {k} of the training was {ds.seen[k:k + 1] if k is not None else len(ds.seen)} "
                         f"instead of {ref[i]['seen'][k:k + 1] if k is not None else len(ref[i]['seen'])}; {c}")
                if not close(flat(st), ref[i]["flat"], rtol=2e-6, floor=1e-6):
                    fail("wrong-model", diff(flat(st), ref[i]["flat"]), f"for {c}")
                s.probe("models compared")
                with quiet(s):
                    if i not in blobs:
                        torch.save(st, paths[i])
                        with open(paths[i], "rb") as f:
                            blobs[i] = f.read()
            else:
                check_loss(i, bs, out[0], "after trouble:" if struck else "")
            if i in blobs:
                with quiet(s), open(paths[i], "rb") as f:
                    if f.read() != blobs[i]:
                        fail("file-changed", f"{what} of {c} changed the saved weights")
            if not torch.is_grad_enabled() or torch.get_default_dtype() is not torch.float32:
                fail("process-state", f"{what} of {c} left another gradient mode or default type behind")
        return True

    o = ctx.epoch(p, root=ctx.dir("work"), name="history")
    if o.kind != "ok":
        fail("failed-without-faults", o.value, o.detail[-900:])
