"""Attributors as state machines over a shared task (A01-A04).

A run draws one or more attributors of any family, a program of operations
for each, and decides at which callback (data loader, loss / target function,
checkpoint loading, file read) an exception strikes, in which order operations
of different attributors interleave, or what foreign code does to the global
random generators.  The reference is the same program on a private task in an
undisturbed process.
"""

from __future__ import annotations

import copy
import os
import random

import numpy as np
import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from . import fs as simfs
from . import w_bp
from .core import Violation
from .memory import Allocations, NoMemory, harness_code
from .util import READ_ERR, close, diff, fail, quiet, slow

BP = ("logra", "factgrass", "bp", "bpn")
NO_OTHER = ("explicit", "cg", "lissa")   # cached data has to be the train loader's
DICT = ("tracin", "trak", "explicit", "cg")   # take dictionaries as batches
KINDS06 = ("tracin", "trak", "datainf", "knn", "ekfac", "rps", *BP)   # forward-mode AD has process-wide levels in torch
IF = ("explicit", "cg", "lissa", "arnoldi", "datainf", "ekfac")


class Boom(Exception):
    pass


class Halt(BaseException):
    """Like KeyboardInterrupt: not an Exception."""


# what user code may raise
EXCS = (Boom, Boom, RuntimeError, Halt, ValueError, OSError, KeyError, TypeError, MemoryError, AttributeError,
        NotImplementedError)


# ---------------------------------------------------------------- callbacks
class ReadFault:
    """In a fault plan: the k-th read of a checkpoint file fails instead."""


class Env:
    """What user callbacks do: count, raise at chosen counts, disturb."""

    def __init__(self, s=None):
        self.n = 0
        self.at = None
        self.exc = Boom
        self.kinds = []
        self.disturb = None
        self.s = s
        self.raised = 0

    def tick(self, kind):
        self.n += 1
        self.kinds.append(kind)
        if self.disturb is not None:
            self.disturb(self.n)
        if self.at is not None and self.n == self.at:
            self.at = None
            self.raised += 1
            raise self.exc(f"{kind} failed (callback {self.n})")


class Loader(DataLoader):
    def __init__(self, env, ds, bs, drop_last=False, as_dict=False):
        self.env, self.as_dict = env, as_dict
        super().__init__(ds, batch_size=bs, shuffle=False, drop_last=drop_last,
                         generator=torch.Generator().manual_seed(3))

    def __iter__(self):
        for b in super().__iter__():
            self.env.tick("loader")
            yield {"x": b[0], "y": b[1]} if self.as_dict else b
        self.env.tick("loader-end")


class Net(nn.Module):
    def __init__(self, din, hid, dout, buf=False, frozen=False):
        super().__init__()
        self.fc1 = nn.Linear(din, hid)
        self.act = nn.Tanh()
        self.fc2 = nn.Linear(hid, dout)
        # like running statistics: part of a checkpoint, but no parameter
        self.register_buffer("shift", torch.zeros(hid) if buf else None)
        if frozen:
            self.fc1.requires_grad_(False)

    def forward(self, x):
        h = self.fc1(x)
        if self.shift is not None:
            h = h + self.shift
        return self.fc2(self.act(h))


def net(t):
    return Net(t["din"], t["hid"], t["dout"], t["buf"], t["frozen"])


def held(m):
    """Parameters and buffers by name."""
    return {**{k: v.detach() for k, v in m.named_parameters()}, **dict(m.named_buffers())}


def fill(m, seed):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in [*m.parameters(), *m.buffers()]:
            p.copy_(torch.randn(p.shape, generator=g) * 0.8)
    return m


@harness_code
def dataset(c, which, train=True):
    g = torch.Generator().manual_seed(c["seed"] * 131 + which * 7 + (0 if train else 1000003))
    n = c["n"] + 2 * which if train else c["tn"] + which
    return TensorDataset(torch.randn(n, c["din"], generator=g), torch.randint(0, c["dout"], (n,), generator=g))


# -------------------------------------------------------------------- tasks
def draw_task(ctx, single=False):
    return {
        "din": ctx.between(2, 3), "hid": ctx.between(2, 4), "dout": ctx.between(2, 3),
        "n": ctx.between(2, 7), "bs": ctx.between(1, 4), "tn": ctx.between(1, 4), "tbs": ctx.between(1, 3),
        "seed": ctx.draw(40),
        "ckpts": 1 if single else ctx.pick([1, 2, 3], [3, 3, 1]),
        "load": ctx.pick(["default", "path", "inplace", "new"], [3, 2, 3, 1]),
        "mode": ctx.pick(["eval", "train", "mixed"], [2, 1, 1]),
        "target": ctx.chance(0.5),
        "buf": ctx.chance(0.3), "frozen": ctx.chance(0.15), "dict": ctx.chance(0.15),
    }


def unpack(data):
    return (data["x"], data["y"]) if isinstance(data, dict) else data


class World:
    """A model, its checkpoints and the task(s) over it in one process."""

    def __init__(self, t, env, folder, model=None, ckpt_seed=0):
        self.t, self.env = t, env
        fresh = model is None
        self.model = model or net(t)
        if fresh:
            fill(self.model, 9999)
            self.model.train(t["mode"] == "train")
            if t["mode"] == "mixed":
                self.model.fc1.train()
        self.states = []
        for k in range(t["ckpts"]):
            m = fill(net(t), t["seed"] * 17 + k + 1000 * ckpt_seed)
            self.states.append({a: b.clone() for a, b in m.state_dict().items()})
        self.folder = folder
        self.ckpt_seed = ckpt_seed
        self.task = self.make()

    def make(self):
        from dattri.task import AttributionTask

        t, env, model = self.t, self.env, self.model
        ck = [{a: b.clone() for a, b in s.items()} for s in self.states]
        if t["load"] == "path":
            names = [os.path.join(self.folder, f"ckpt-{self.ckpt_seed}-{k}.pt") for k in range(len(ck))]
            for n, s in zip(names, ck):
                if not os.path.exists(n):
                    torch.save(s, n)
            ck = names
        load = None
        if t["load"] == "inplace":
            def load(m, c):
                env.tick("load")
                own = {**dict(m.named_parameters()), **dict(m.named_buffers())}
                with torch.no_grad():
                    for i, (k, v) in enumerate(c.items()):
                        own[k].copy_(v)
                        if i == 1:
                            env.tick("load")
                return m
        elif t["load"] == "new":
            def load(m, c):
                env.tick("load")
                x = copy.deepcopy(m)
                x.load_state_dict(c)
                return x

        def run(p, x):
            return p(x) if isinstance(p, nn.Module) else torch.func.functional_call(model, p, x)

        def loss(p, data, device=None):
            env.tick("loss")
            if isinstance(p, torch.Tensor):  # RPS: pre-activations and labels
                return nn.functional.cross_entropy(p, data)
            x, y = unpack(data)
            return t.get("scale", 1) * nn.functional.cross_entropy(run(p, x.reshape(-1, t["din"])), y.reshape(-1).long())

        def target(p, data, device=None):
            env.tick("target")
            if isinstance(p, torch.Tensor):
                return nn.functional.cross_entropy(p, data)
            x, y = unpack(data)
            z = run(p, x.reshape(-1, t["din"]))
            return t.get("scale", 1) * nn.functional.cross_entropy(z, y.reshape(-1).long()) + 0.1 * z.square().mean()

        return AttributionTask(loss_func=loss, target_func=target if t["target"] else None, model=model,
                               checkpoints=ck if len(ck) > 1 or t["load"] != "default" else ck[0],
                               checkpoints_load_func=load)


# --------------------------------------------------------------- attributors
LAYERS = [None, ["fc2.weight", "fc2.bias"], ["fc1.weight", "fc1.bias"], ["fc2.bias", "fc2.weight"],
          ["fc1.bias", "fc1.weight"], ["fc2.bias"], ["fc2.weight", "fc1.bias", "fc2.bias"]]


def draw_attributor(ctx, t, kinds=None, proj=False):
    """Family and settings that the task supports."""
    pool = [("tracin", 4), ("trak", 4), ("explicit", 2), ("cg", 1), ("arnoldi", 2), ("datainf", 2),
            ("lissa", 1), ("knn", 1)]
    if t["ckpts"] == 1:
        pool.append(("ekfac", 2))
    pool.append(("rps", 3))
    pool += [("logra", 1), ("factgrass", 1), ("bp", 1), ("bpn", 1)]
    if proj:
        pool = [(k, w) for k, w in pool if k in ("tracin", "trak", "arnoldi") + BP]
    if kinds:
        pool = [(k, w) for k, w in pool if k in kinds]
    if t["frozen"]:
        pool = [(k, w) for k, w in pool if k not in BP + ("ekfac",)]   # these take every linear layer
    kind = ctx.pick([k for k, _ in pool], [w for _, w in pool])
    a = {"kind": kind, "layer": ctx.pick(LAYERS, [6, 2, 2, 1, 1, 1, 1]),
         "proj": proj or ctx.chance(0.5), "dim": ctx.pick([4, 8, 2]), "pseed": ctx.draw(5),
         "ptype": ctx.pick(["normal", "rademacher"]), "norm": ctx.chance(0.4),
         "offload": ctx.pick(["none", "cpu", "disk"], [2, 1, 2]), "hess": ctx.pick(["eFIM", "Identity"], [3, 1]),
         "chunk": ctx.pick([1, 2, 16])}
    if kind in BP + ("ekfac", "rps", "datainf"):
        a["layer"] = None
    if t["frozen"] and a["layer"] and any("fc1" in x for x in a["layer"]):
        a["layer"] = None
    if kind not in BP:
        a["offload"] = "none"
    return a


def make_attributor(w, t, a, folder):
    from dattri.algorithm import influence_function as f
    from dattri.params.projection import TRAKProjectionParams, TracInProjectionParams

    task, k, env = w.task, a["kind"], w.env
    p = {"proj_dim": a["dim"], "proj_seed": a["pseed"], "proj_type": a["ptype"]}
    if k == "tracin":
        from dattri.algorithm.tracin import TracInAttributor

        return TracInAttributor(task, weight_list=torch.arange(1, t["ckpts"] + 1) * 0.5, normalized_grad=a["norm"],
                                layer_name=a["layer"],
                                proj_params=TracInProjectionParams(**p) if a["proj"] else NoProj())
    if k == "trak":
        from dattri.algorithm.trak import TRAKAttributor

        model = w.model

        def prob(params, data):
            env.tick("probability")
            x, y = unpack(data)
            z = torch.func.functional_call(model, params, x.reshape(-1, t["din"]))
            return torch.exp(-nn.functional.cross_entropy(z, y.reshape(-1).long()))

        return TRAKAttributor(task, correct_probability_func=prob, proj_params=TRAKProjectionParams(**p),
                              layer_name=a["layer"], regularization=0.3)
    if k == "knn":
        from dattri.algorithm.data_shapley import KNNShapleyAttributor

        def dist(a, b):
            env.tick("distance")
            return torch.cdist(a[0], b[0])

        w.labels = {}
        return KNNShapleyAttributor(k_neighbors=1 + a["dim"] % 3, distance_func=dist)
    if k == "explicit":
        return f.IFAttributorExplicit(task, layer_name=a["layer"], regularization=0.5)
    if k == "cg":
        return f.IFAttributorCG(task, layer_name=a["layer"], regularization=0.7, max_iter=4,
                                mode=["rev-rev", "rev-fwd"][a["norm"]])
    if k == "lissa":
        return f.IFAttributorLiSSA(task, layer_name=a["layer"], recursion_depth=4, batch_size=2, scaling=20.0,
                                   damping=0.1)
    if k == "arnoldi":
        return f.IFAttributorArnoldi(task, layer_name=a["layer"], proj_dim=3, max_iter=5, regularization=1.0,
                                     seed=a["pseed"])
    if k == "datainf":
        return f.IFAttributorDataInf(task, regularization=0.3)
    if k == "ekfac":
        return f.IFAttributorEKFAC(task, module_name="fc2" if a["norm"] else None, damping=0.2)
    if k == "rps":
        from dattri.algorithm.rps import RPSAttributor

        return RPSAttributor(task, final_linear_layer_name="fc2", normalize_preactivate=a["norm"], l2_strength=0.01,
                             epoch=4)
    c = {"kind": k, "layers": "all", "model": "x", "hessian": a["hess"], "damping": 0.3, "chunk": a["chunk"],
         "seed": a["pseed"], "dim": 4}
    return w_bp.make_attributor(c, a["offload"], folder, task)


class NoProj:
    """TracIn without projection (its parameters' default projects)."""

    proj_dim = None

    def __bool__(self):
        return True


# ------------------------------------------------------------------ programs
def draw_program(ctx, t, a, lo=1, hi=3):
    k = a["kind"]
    ops = []
    if k == "knn":
        pool = [(("attr", 0, 0), 3), (("attr", 1, 0), 2), (("attr", 0, 1), 2), (("attr", 1, 1), 2)]
    elif k == "tracin":
        pool = [(("attr", 0, 0), 4), (("attr", 1, 0), 1), (("attr", 0, 1), 1), (("self", 0), 3)]
    elif k == "trak":
        if ctx.chance(0.6):
            ops.append(("cache", 0))
            pool = [(("attr", None, 0), 4), (("attr", None, 1), 2), (("cache", 1), 1), (("cache", 0), 1)]
        else:
            pool = [(("attr", 0, 0), 3), (("attr", 1, 1), 2), (("self", 0), 2)]
    elif k in ("arnoldi", "datainf", "ekfac"):
        ops.append(("cache", 0))
        pool = [(("attr", 0, 0), 4), (("attr", 0, 1), 2), (("self", 0), 2), (("cache", 1), 1), (("cache", 0), 1),
                (("attr", 1, 0), 1)]
        if k == "arnoldi":
            pool += [(("rel", "l"), 1), (("rel", "theta"), 1)]
    elif k in ("explicit", "cg", "lissa"):
        if ctx.chance(0.6):
            ops.append(("cache", 0))
        pool = [(("attr", 0, 0), 4), (("attr", 0, 1), 2), (("self", 0), 2), (("cache", 0), 1), (("attr", 1, 0), 1)]
        if k != "lissa":
            pool += [(("rel", "l"), 1), (("rel", "theta"), 1)]
    elif k == "rps":
        if ctx.chance(0.6):
            ops.append(("cache", 0))
        pool = [(("attr", 0, 0), 4), (("attr", 0, 1), 2), (("attr", 1, 0), 2), (("cache", 1), 1), (("cache", 0), 1)]
    else:
        ops.append(ctx.pick([("cache", 0), ("attr", 0, 0)], [3, 1]))
        pool = [(("attr", 0, 0), 4), (("attr", 0, 1), 2), (("self", 0), 3), (("cache", 1), 1), (("cache", 0), 1)]
    for _ in range(ctx.between(lo, hi)):
        ops.append(ctx.pick([x for x, _ in pool], [y for _, y in pool]))
    if ops[-1][0] == "cache":
        ops.append(pool[0][0])
    return ops


def run_op(w, t, a, obj, op):
    """One public operation; a tensor or None."""
    k, env = a["kind"], w.env
    # multi-batch self-attribution of the inner-product family is not defined upstream
    bs = t["n"] if op[0] == "self" and k in IF else t["bs"]
    as_dict = t["dict"] and k in DICT

    def tr(which):
        return Loader(env, dataset(t, which), bs if which == 0 else t["bs"], as_dict=as_dict)

    def te(which):
        return Loader(env, dataset(t, which, False), t["tbs"], as_dict=as_dict)

    if k == "lissa":
        torch.manual_seed(4242)   # samples from the global generator
    if op[0] == "cache":
        if k == "tracin":
            obj.cache()
        else:
            obj.cache(Loader(env, dataset(t, op[1]), t["n"] + 2 * op[1] if k in IF else t["bs"],
                             as_dict=as_dict))
        return None
    if op[0] == "self":
        if k in BP:
            return obj.compute_self_attribution().detach().clone()
        return obj.self_attribute(tr(op[1])).detach().clone()
    if op[0] == "rel":
        return obj.attribute(tr(0), te(0), relatif_method=op[1]).detach().clone()
    if k == "knn":
        lab = {}
        if a["norm"]:   # the user's own lists, the same ones every time
            for name, ds in (("train_labels", dataset(t, op[1])), ("test_labels", dataset(t, op[2], False))):
                lab[name] = w.labels.setdefault((name, op[1 if name[1] == "r" else 2]),
                                                [int(x[1]) for x in ds])
        return obj.attribute(tr(op[1]), te(op[2]), **lab).detach().clone()
    if k == "trak":
        if op[1] is None:
            return obj.attribute(te(op[2])).detach().clone()
        return obj.attribute(te(op[2]), tr(op[1])).detach().clone()
    if op[1] is None:
        return obj.attribute(te(op[2])).detach().clone()
    return obj.attribute(tr(op[1]), te(op[2])).detach().clone()


def isolated(ctx, t, a, ops, folder, ckpt_seed=0):
    """[(result, callbacks)] of the program alone, undisturbed."""
    return references(ctx, t, a, [ops], folder, ckpt_seed)[0]


def needed(a, ops, i):
    """The operations that define the result of the i-th: itself and the one
    that established the training data (an explicit cache(), else the first;
    the stateless kinds without a cache() use what they are given)."""
    base = [op for op in ops[:i] if op[0] == "cache"][-1:]
    if not base and a["kind"] not in ("tracin", "trak", "rps", "knn"):
        base = ops[:i][:1]
    return [*base, ops[i]]


def each_alone(ctx, t, a, ops, folder, ckpt_seed=0):
    """Every result as a fresh attributor gives it, without the repetitions."""
    progs = [needed(a, ops, i) for i in range(len(ops))]
    return [x[-1] for x in references(ctx, t, a, progs, folder, ckpt_seed)]


def references(ctx, t, a, programs, folder, ckpt_seed=0):
    def f(s):
        x = dict(a, offload="none")
        outs = []
        for ops in programs:
            env = Env()
            w = World(t, env, folder, ckpt_seed=ckpt_seed)
            obj = make_attributor(w, t, x, None)
            out = []
            for op in ops:
                env.n = 0
                env.kinds = []
                with Allocations() as mem:
                    r = run_op(w, t, x, obj, op)
                out.append((r, env.n, mem.n))
            outs.append(out)
        return outs

    o = ctx.pure(f)
    if o.kind != "ok":
        fail("failed-without-faults", f"{a} {t} {programs}:", o.value, o.detail[-900:])
    return o.value


def check(where, got, want):
    if want is None:
        return
    if not close(got, want):
        fail("wrong-scores", where, diff(got, want))


def sched_of(a):
    return None if a["offload"] == "disk" else "serial"


# ----------------------------------------------------------------------- A01
def a01_retry(ctx):
    t = draw_task(ctx)
    a = draw_attributor(ctx, t)
    ops = draw_program(ctx, t, a, 1, 4)
    again = a["kind"] not in ("tracin", "knn") and ctx.chance(0.35)
    if again:
        # a cache of other data that is aborted and then used
        uses = [op for op in ops if op[0] != "cache" and (a["kind"] != "trak" or op[1] is None)]
        use = uses[-1] if uses else ("attr", None if a["kind"] == "trak" else 0, 0)
        ops = [("cache", 0), *([use] if ctx.chance(0.5) else []), ("cache", 0 if a["kind"] in NO_OTHER else 1), use]
    ctx.say("task", t)
    ctx.say("attributor", a)
    ctx.say("program", ops)
    d = ctx.dir("work")
    want = isolated(ctx, t, a, ops, d)
    plan = []
    if again:
        n = want[-2][1]
        if n:
            plan.append((len(ops) - 2, n - ctx.draw((n + 1) // 2, s="fault"), Boom))
    for i, (op, (_, n, m)) in enumerate(zip(ops, want)):
        for _ in range(ctx.pick([0, 1, 2], [3, 4, 1], s="fault")):
            if n:
                plan.append((i, 1 + ctx.draw(n, s="fault"), ctx.pick(EXCS, s="fault")))
            if t["load"] == "path" and ctx.chance(0.6, s="fault"):
                plan.append((i, 1 + ctx.draw(3 * t["ckpts"], s="fault"), ReadFault))
        if m and ctx.chance(0.4, s="alloc"):
            plan.append((i, 1 + ctx.draw(m, s="alloc"), NoMemory))
    probe_after = again or ctx.chance(0.5)
    bare = {}   # block-projected: attribute() without a cache uses its own train loader
    if a["kind"] in BP and probe_after:
        bare = {op: isolated(ctx, t, a, [op], d)[0][0] for op in set(ops) if op[0] == "attr"}
    ctx.say("faults", [(i, k, e.__name__) for i, k, e in plan], "probe" if probe_after else "")

    def p(s):
        env = Env(s)
        w = World(t, env, d)
        obj = make_attributor(w, t, a, os.path.join(d, "cache"))
        out = []
        for i, op in enumerate(ops):
            for j, k, exc in plan:
                if j != i:
                    continue
                env.n, env.at, env.exc, env.kinds = 0, k, exc, []
                hit = env.raised
                io = []
                mem = Allocations()
                if exc is NoMemory:
                    env.at, mem.at = None, {k}
                if exc is ReadFault:
                    env.at = None
                    io = [simfs.Plan(("open", "read"), k, READ_ERR[k % len(READ_ERR)], k % 2 == 0, "ckpt-")]
                    s.fs.plans += io
                try:
                    if exc is NoMemory:
                        with mem:
                            r = run_op(w, t, a, obj, op)
                    else:
                        r = run_op(w, t, a, obj, op)
                    if env.raised > hit or mem.hits or (io and io[0].hits):
                        # swallowed: then the result has to be right all the same
                        check(f"{op} although callback or read {k} failed:", r, want[i][0])
                except Violation:
                    raise
                except BaseException as e:  # noqa: BLE001
                    if env.raised == hit and not mem.hits and not (io and io[0].hits):
                        if not isinstance(e, Exception):
                            raise
                        fail("failed-without-faults", f"{op} before the fault struck: {e!r}")
                    if mem.hits:
                        s.fire("no memory for " + mem.where)
                    elif not io:
                        s.fire("exception@" + env.kinds[k - 1])
                    s.fs.plans[:] = [x for x in s.fs.plans if x not in io]
                    s.probe("aborted " + op[0])
                    env.at = None
                    if probe_after and op[0] == "cache":
                        # using it although cache() failed: an error or the true result
                        q = next((z for z in range(i + 1, len(ops)) if ops[z][0] != "cache"), None)
                        if q is not None and not any(x[0] == "cache" for x in ops[i + 1:q]):
                            try:
                                r = run_op(w, t, a, obj, ops[q])
                            except Exception:  # noqa: BLE001
                                s.probe("use after a failed cache raised")
                            else:
                                ok = bare.get(ops[q])
                                if ok is None or not close(r, ok):
                                    check(f"{ops[q]} after a failed {op} (callback {k}, {env.kinds[:1]}):", r,
                                          want[q][0])
                                s.probe("use after a failed cache was right")
                env.at = None
                s.fs.plans[:] = [x for x in s.fs.plans if x not in io]
            env.n = 0
            r = run_op(w, t, a, obj, op)
            check(f"{i}: {op} retried after {[x[1:2] for x in plan if x[0] == i]}, earlier "
                  f"{[x[:2] for x in plan if x[0] < i]}: {a}", r, want[i][0])
        return True

    o = ctx.epoch(p, root=d, name="faults", **({"sched": "serial"} if a["offload"] != "disk" else {}))
    if o.kind != "ok":
        fail("retry-failed", f"{a} {t} {ops} {plan}:", o.value, o.detail[-900:])
    ctx.probe("family " + a["kind"])


# ----------------------------------------------------------------------- A02
def snapshot(m):
    out = {}
    for name, x in m.named_modules():
        hooks = {k: len(getattr(x, k)) for k in (
            "_forward_hooks", "_forward_pre_hooks", "_backward_hooks", "_backward_pre_hooks",
            "_state_dict_hooks", "_load_state_dict_pre_hooks")}
        out[name] = (hooks, x.training)
    flags = {n: p.requires_grad for n, p in m.named_parameters()}
    return out, flags


def inspect_model(where, w, t, before, modes):
    m = w.model if t["load"] != "new" else w.task.get_model()
    now, flags = snapshot(m)
    for name, (hooks, training) in now.items():
        if hooks != before[0][name][0]:
            fail("leftover-hook", where, f"module {name!r}: {hooks}, before {before[0][name][0]}")
        if modes and training != before[0][name][1]:
            fail("training-mode", where, f"module {name!r} is in {'train' if training else 'eval'} mode")
    if flags != before[1]:
        fail("requires-grad", where, f"{flags} instead of {before[1]}")
    for name, x in m.named_modules():
        fw = x.__dict__.get("forward")
        if fw is not None and getattr(fw, "__func__", None) is not type(x).forward:
            fail("patched-forward", where, f"module {name!r} has a patched forward")
    sd = held(m)
    known = w.all_states
    if not any(all(torch.equal(sd[k], s[k]) for k in sd) for s in known):
        fail("parameters", where, "the model's parameters and buffers are those of no checkpoint")
    # same function of the same parameters
    x = torch.randn(3, t["din"], generator=torch.Generator().manual_seed(5))
    with torch.no_grad():
        got = m(x)
        clean = net(t)
        clean.load_state_dict(sd)
        want = clean(x)
    if not torch.allclose(got, want, rtol=1e-5, atol=1e-6):
        fail("outputs", where, f"the model computes {got} instead of {want}")
    if not torch.is_grad_enabled():
        fail("grad-mode", where, "gradients are left disabled")


def a02_clean_model(ctx):
    t = draw_task(ctx)
    t["load"] = ctx.pick(["default", "path", "inplace"], [2, 1, 3])
    a = draw_attributor(ctx, t, kinds=("rps", "ekfac", "tracin", "trak", "explicit", "arnoldi", "datainf") + BP)
    ops = draw_program(ctx, t, a, 1, 3)
    ctx.say("task", t)
    ctx.say("attributor", a)
    ctx.say("program", ops)
    d = ctx.dir("work")
    want = isolated(ctx, t, a, ops, d)
    plan = {}
    for i, (_, n, m) in enumerate(want):
        if n and ctx.chance(0.6, s="fault"):
            plan[i] = (1 + ctx.draw(n, s="fault"), ctx.pick(EXCS, s="fault"))
        if m and ctx.chance(0.25, s="alloc"):
            plan[i] = (1 + ctx.draw(m, s="alloc"), NoMemory)
    frozen = ctx.chance(0.2) and a["kind"] == "rps"
    ctx.say("faults", {i: (k, e.__name__) for i, (k, e) in plan.items()})

    def p(s):
        env = Env(s)
        w = World(t, env, d)
        w.all_states = [*w.states, {k: v.clone() for k, v in held(w.model).items()}]
        if frozen:
            for q in w.model.fc1.parameters():
                q.requires_grad_(False)
        before = snapshot(w.model)
        obj = make_attributor(w, t, a, os.path.join(d, "cache"))
        keep = t["load"] == "inplace"   # the default loader switches to eval mode
        loading = t["load"] == "inplace"
        inspect_model("construction", w, t, before, keep)
        for i, op in enumerate(ops):
            k, exc = plan.get(i, (None, None))
            env.n, env.at, env.exc, env.kinds = 0, k, exc, []
            hit = env.raised
            mem = Allocations()
            if exc is NoMemory:
                env.at, mem.at = None, {k}
            try:
                if mem.at:
                    with mem:
                        run_op(w, t, a, obj, op)
                else:
                    run_op(w, t, a, obj, op)
            except BaseException as e:  # noqa: BLE001
                if env.raised == hit and not mem.hits:
                    if not isinstance(e, Exception):
                        raise
                    fail("failed-without-faults", f"{op}: {e!r}")
                last = env.kinds[-1:] if mem.hits else [env.kinds[k - 1]]
                s.fire("no memory for " + mem.where if mem.hits else "exception@" + last[0])
                where = f"{a['kind']} {op} aborted at {k} (after {last}, {exc.__name__} {mem.where})"
                if last == ["load"] and loading:
                    # the user's own loader stopped half way: its business
                    w.all_states.append({n: v.clone() for n, v in held(w.model).items()})
            else:
                where = f"{a['kind']} {op} returned"
            env.at = None
            with quiet(s):
                inspect_model(where, w, t, before, keep)
            s.probe("inspected")
            if k is not None and (env.raised > hit or mem.hits):
                env.n = 0
                run_op(w, t, a, obj, op)
                with quiet(s):
                    inspect_model(f"{a['kind']} {op} repeated", w, t, before, keep)
        return True

    o = ctx.epoch(p, root=d, name="faults", **({"sched": "serial"} if a["offload"] != "disk" else {}))
    if o.kind != "ok":
        fail("operation-failed", f"{a} {t} {ops} {plan}:", o.value, o.detail[-900:])
    ctx.probe("family " + a["kind"])


# ----------------------------------------------------------------------- A03
def a03_interleaved(ctx):
    share = ctx.pick(["task", "model"], [3, 1])
    t = draw_task(ctx)
    k = ctx.between(2, 3)
    progs = []
    for i in range(k):
        a = draw_attributor(ctx, t)
        if i and a["layer"] and progs[0][0]["layer"] and ctx.chance(0.6):
            # the same parameters named in another order
            a["layer"] = progs[0][0]["layer"][::ctx.pick([-1, 1], [3, 1])]
        progs.append((a, draw_program(ctx, t, a, 1, 3)))
    # which task (checkpoint list) each attributor uses when only the model is shared
    which = [i if share == "model" else 0 for i in range(k)]
    if t["load"] == "new":
        share, which = "task", [0] * k
    order = [i for i, (_, ops) in enumerate(progs) for _ in ops]
    for i in range(len(order) - 1, 0, -1):
        j = i - ctx.draw(i + 1, s="sched-op")
        order[i], order[j] = order[j], order[i]
    late = ctx.chance(0.3)   # construct each attributor just before its first operation
    ctx.say("share", share, "task", t)
    for a, ops in progs:
        ctx.say("attributor", a, ops)
    ctx.say("order", order, "late construction" if late else "")
    d = ctx.dir("work")
    want = [each_alone(ctx, t, a, ops, d, ckpt_seed=which[i]) for i, (a, ops) in enumerate(progs)]

    def p(s):
        env = Env(s)
        first = World(t, env, d, ckpt_seed=which[0])
        worlds = [first if which[i] == which[0] else World(t, env, d, model=first.model, ckpt_seed=which[i])
                  for i in range(k)]
        objs = [None] * k

        def get(i):
            if objs[i] is None:
                objs[i] = make_attributor(worlds[i], t, progs[i][0], os.path.join(d, f"cache{i}"))
            return objs[i]

        if not late:
            for i in range(k):
                get(i)
        at = [0] * k
        prev = None
        for i in order:
            if i != prev:
                s.op_switch((i, at[i]))
                prev = i
            a, ops = progs[i]
            op = ops[at[i]]
            try:
                r = run_op(worlds[i], t, a, get(i), op)
            except Exception as e:  # noqa: BLE001
                import traceback
                fail("interleaving-failed", f"{a['kind']} {op} at {at} of {order} with "
                     f"{[x['kind'] for x, _ in progs]}: {e!r}", traceback.format_exc()[-700:])
            with quiet(s):
                check(f"{a['kind']} #{i} {op} at {at} of {order}, sharing a {share} with "
                      f"{[x['kind'] for x, _ in progs]}: {a} {t}:", r, want[i][at[i]][0])
            at[i] += 1
            s.probe("compared")
        return True

    disk = any(a["offload"] == "disk" for a, _ in progs)
    o = ctx.epoch(p, root=d, name="interleaved", **({} if disk else {"sched": "serial"}))
    if o.kind != "ok":
        fail("interleaving-failed", o.value, o.detail[-900:])
    for a, _ in progs:
        ctx.probe("family " + a["kind"])
    ctx.probe("shared " + share)


# ----------------------------------------------------------------------- A06
def a06_concurrent(ctx):
    """Attributors over tasks of their own, in threads of one process."""
    import threading

    k = ctx.between(2, 3)
    twins = ctx.chance(0.55)    # the same architecture and settings, other parameters, data and loss
    progs = []
    for i in range(k):
        if twins and i:
            t, a = dict(progs[0][0]), dict(progs[0][1])
            t["seed"] += i
            t["scale"] = 1 + i
            a["pseed"] += ctx.draw(2)
        else:
            t = draw_task(ctx)
            a = draw_attributor(ctx, t, KINDS06)
        progs.append((t, a, draw_program(ctx, t, a, 1, 3)))
    aborted = {}
    for i in range(k):
        if ctx.chance(0.25, s="fault"):
            aborted[i] = (ctx.draw(len(progs[i][2]), s="fault"), 1 + ctx.draw(40, s="fault"), ctx.pick(EXCS, s="fault"))
    early = ctx.chance(0.4)    # constructed before the threads start
    for i, (t, a, ops) in enumerate(progs):
        ctx.say("thread", i, "task", t, "attributor", a, ops, "aborted", str(aborted.get(i)))
    d = ctx.dir("work")
    for i in range(k):
        os.makedirs(os.path.join(d, f"w{i}"), exist_ok=True)
    want = [each_alone(ctx, t, a, ops, os.path.join(d, f"w{i}"), ckpt_seed=i) for i, (t, a, ops) in enumerate(progs)]

    def p(s):
        viol = []

        def build(i):
            t, a, _ = progs[i]
            w = World(t, Env(s), os.path.join(d, f"w{i}"), ckpt_seed=i)
            w.env.disturb = lambda n: s.yield_point("callback")
            return w, make_attributor(w, t, a, os.path.join(d, f"cache{i}"))

        def one(i, made):
            t, a, ops = progs[i]
            try:
                w, obj = made or build(i)
                for j, op in enumerate(ops):
                    if i in aborted and aborted[i][0] == j:
                        _, at, exc = aborted[i]
                        w.env.n, w.env.at, w.env.exc = 0, at, exc
                        try:
                            run_op(w, t, a, obj, op)
                        except BaseException:  # noqa: BLE001
                            if w.env.at is not None:
                                raise
                            s.probe("aborted")
                            s.fire("exception in a callback")
                        w.env.at = None
                    r = run_op(w, t, a, obj, op)
                    with quiet(s):
                        check(f"{a['kind']} {op} in thread {i} next to {[x[1]['kind'] for x in progs]}: {a} {t}:", r,
                              want[i][j][0])
                        s.probe("compared")
            except Violation as e:
                viol.append(e)
            except Exception as e:  # noqa: BLE001
                import traceback
                viol.append(Violation("concurrency-failed", f"{a['kind']} {ops} next to {[x[1]['kind'] for x in progs]}: {e!r} "
                                      + traceback.format_exc()[-700:]))

        made = [build(i) if early else None for i in range(k)]
        ts = [threading.Thread(target=one, args=(i, made[i])) for i in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if s.thread_errors:
            fail("thread-error", s.thread_errors[0])
        if viol:
            raise viol[0]
        return True

    # in half of the runs a few functions are preempted on most of their lines
    focus = (24, ctx.draw(24)) if ctx.chance(0.5) else None
    o = ctx.epoch(p, root=d, name="threads", every_line=True, focus=focus)
    if o.kind != "ok":
        fail("concurrency-failed", o.value, o.detail[-900:])
    for _, a, _ in progs:
        ctx.probe("family " + a["kind"])


# ----------------------------------------------------------------------- A04
def reseed_all(k):
    torch.manual_seed(k)
    np.random.seed(k % 2**32)
    random.seed(k)


def rng_states():
    n = np.random.get_state()
    return {"torch": torch.get_rng_state().numpy().tobytes(), "numpy": (n[0], n[1].tobytes(), *n[2:]),
            "python": random.getstate()}


class Ambient:
    """Unrelated components drawing from and reseeding the global generators."""

    def __init__(self, seed, rate=0.7, kinds=("torch", "numpy", "python")):
        self.r = random.Random(seed)
        self.rate, self.kinds, self.n = rate, kinds, 0

    def __call__(self, *_):
        r = self.r
        if r.random() > self.rate:
            return
        self.n += 1
        for k in self.kinds:
            how = r.choice(["seed", "draw", "draw", "none"])
            if how == "none":
                continue
            if k == "torch":
                if how == "seed":
                    torch.manual_seed(r.choice([0, 1, r.randrange(2**40)]))
                else:
                    torch.rand(r.randint(1, 5))
            elif k == "numpy":
                if how == "seed":
                    np.random.seed(r.randrange(2**32))
                else:
                    np.random.rand(r.randint(1, 5))
            elif how == "seed":
                random.seed(r.random())
            else:
                random.random()


def a04_attributors(ctx):
    t = draw_task(ctx)
    a = draw_attributor(ctx, t, proj=True)
    ops = draw_program(ctx, t, a, 1, 3)
    first, amb = ctx.draw(1000, s="fault"), ctx.draw(10**6, s="fault")
    ctx.say("task", t)
    ctx.say("attributor", a)
    ctx.say("program", ops, "ambient", first, amb)
    d = ctx.dir("work")
    want = isolated(ctx, t, a, ops, d)

    def disturbed(s):
        env = Env(s)
        reseed_all(first)
        w = World(t, env, d)
        obj = make_attributor(w, t, a, os.path.join(d, "cache"))
        env.disturb = noise = Ambient(amb)
        for i, op in enumerate(ops):
            noise()
            r = run_op(w, t, a, obj, op)
            check(f"{i}: {op} under foreign use of the random generators: {a} {t}", r, want[i][0])
            s.probe("compared")
        s.fired["ambient-randomness"] = s.fired.get("ambient-randomness", 0) + noise.n
        s.op_switch(amb)
        return True

    o = ctx.epoch(disturbed, root=d, name="disturbed", **({"sched": "serial"} if a["offload"] != "disk" else {}))
    if o.kind != "ok":
        fail("failed-without-faults", f"{a} {t} {ops}:", o.value, o.detail[-900:])

    def harmless(s):
        env = Env()
        w = World(t, env, d)
        reseed_all(first)
        before = rng_states()
        obj = make_attributor(w, t, a, os.path.join(d, "cache2"))
        for what in ["construction", *ops]:
            if what != "construction":
                run_op(w, t, a, obj, what)
            now = rng_states()
            for k in before:
                if now[k] != before[k]:
                    fail("disturbs-randomness", f"{what} of {a} changes the global {k} generator")
        return True

    # workers of the disk mode are real threads here, which does not matter
    o = ctx.pure(harmless)
    if o.kind != "ok":
        fail("failed-without-faults", f"{a} {t} {ops}:", o.value, o.detail[-900:])
    ctx.probe("family " + a["kind"])


def a04_projectors(ctx):
    from dattri.params.projection import RandomProjectionParams

    k = ctx.between(1, 4)
    cfg = []
    for _ in range(k):
        cfg.append({"seed": ctx.pick([0, 1, 7, 1000, 100000]), "dim": ctx.pick([1, 3, 8, 100, 130, 205], [2, 3, 3, 1, 2, 1]),
                    "type": ctx.pick(["normal", "rademacher", "random_mask", "identity"], [4, 3, 2, 1]),
                    "fdim": ctx.pick([4, 9, 30, 210]), "rows": ctx.between(1, 4), "dict": ctx.chance(0.3)})
        if len(cfg) > 1 and ctx.chance(0.5, s="like"):
            # like an earlier one, but for one setting
            key = ctx.pick(["seed", "dim", "type", "fdim", "rows", "dict", "none"], s="like")
            cfg[-1] = {**cfg[ctx.draw(len(cfg) - 1, s="like")], **{key: cfg[-1].get(key)}}
            cfg[-1].pop("none", None)
        if cfg[-1]["type"] == "random_mask":
            cfg[-1]["dim"] = min(cfg[-1]["dim"], cfg[-1]["fdim"])
    calls = [(ctx.draw(k, s="sched-op"), ctx.pick([0, 0, 1, 2, 3], s="sched-op"), ctx.draw(4)) for _ in range(ctx.between(2, 10))]
    first, amb = ctx.draw(1000, s="fault"), ctx.draw(10**6, s="fault")
    late = ctx.chance(0.5)
    ctx.say("projectors", cfg)
    ctx.say("calls", calls, "ambient", first, amb, "late" if late else "")

    def feature(c, q):
        g = torch.Generator().manual_seed(17 + q)
        x = torch.randn(c["rows"], c["fdim"], generator=g)
        if c["dict"]:
            h = c["fdim"] // 2
            return {"a": x[:, :h].contiguous(), "b": x[:, h:].contiguous()}
        return x

    def make(c):
        from dattri.func.projection import random_project

        return random_project(feature(c, 0), RandomProjectionParams(
            feature_batch_size=c["rows"], proj_dim=c["dim"], proj_seed=c["seed"], proj_type=c["type"], device="cpu",
            proj_max_batch_size=16))

    def alone(s):
        torch.manual_seed(1)
        return [make(cfg[i])(feature(cfg[i], q), ensemble_id=e).clone() for i, e, q in calls]

    want = ctx.value(alone)

    def p(s):
        reseed_all(first)
        noise = Ambient(amb)
        made = {} if late else {i: make(c) for i, c in enumerate(cfg)}
        for n, (i, e, q) in enumerate(calls):
            noise()
            f = made.get(i)
            if f is None:
                f = made[i] = make(cfg[i])
                noise()
            s.op_switch((i, e))
            before = rng_states()
            r = f(feature(cfg[i], q), ensemble_id=e)
            if rng_states() != before:
                fail("disturbs-randomness", f"projection {cfg[i]} changes a global generator")
            if not close(r, want[n]):
                fail("wrong-projection", f"call {n} of {calls} on {cfg[i]}:", diff(r, want[n]))
        s.fired["ambient-randomness"] = noise.n
        return True

    o = ctx.epoch(p, name="projectors", sched="serial")
    if o.kind != "ok":
        fail("failed-without-faults", f"{cfg} {calls}:", o.value, o.detail[-900:])


def a04_retraining(ctx):
    from . import w_retrain as R

    c = R.draw_lds(ctx)
    first, amb = ctx.draw(1000, s="fault"), ctx.draw(10**6, s="fault")
    ctx.say("retraining", c, "ambient", first, amb)
    a, b = ctx.dir("quiet"), ctx.dir("noisy")

    def plain(s):
        reseed_all(5)
        R.lds_call(c, a)
        return R.lds_files(a)

    want = ctx.value(plain)

    def p(s):
        noise = Ambient(amb)
        other = Ambient(amb + 1, kinds=("numpy", "python"))
        call = R.Trainer.__call__

        def trainer(self, *args, **kw):
            other()
            m = call(self, *args, **kw)
            noise()
            return m

        R.Trainer.__call__ = trainer
        reseed_all(first)
        R.lds_call(c, b)
        s.fired["ambient-randomness"] = noise.n + other.n
        s.op_switch(amb)
        return R.lds_files(b)

    o = ctx.epoch(p, root=b, name="noisy", sched="serial")
    if o.kind != "ok":
        fail("failed-without-faults", f"{c}:", o.value, o.detail[-900:])
    R.same_files("retraining under foreign use of the random generators", o.value, want)
