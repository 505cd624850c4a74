"""Recording a training trajectory for data-value embedding (A05, and the DVEmb
parts of A01, A02 and A04).

A run draws a trajectory (model, optimiser, epochs, batches), how it is
recorded (through the context, directly before the step, or directly between
backward and optimiser step), which steps fail where, and what happens around
it (reused buffers, an earlier trajectory, a failed embedding pass, aborted
attribution).  The references are the same training without any recording and
the embedding recursion over per-sample gradients computed here.
"""

from __future__ import annotations

from contextlib import contextmanager

import numpy as np
import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from .core import Violation
from .memory import Allocations, NoMemory
from .util import close as close_, diff, fail
from .w_attr import Ambient, Boom, Halt, Loader, Env, reseed_all, rng_states, snapshot


def close(a, b):
    return close_(a, b, floor=1e-3)   # float32 gradients of magnitude 1 cancel


class Flat(nn.Module):
    def __init__(self, din, hid, dout, bias):
        super().__init__()
        self.a = nn.Linear(din, hid, bias=bias)
        self.act = nn.Tanh()
        self.b = nn.Linear(hid, dout)

    def forward(self, x):
        return self.b(self.act(self.a(x)))


class Seq(nn.Module):
    """(batch, length, features) -> (batch, classes)."""

    def __init__(self, din, hid, dout, bias):
        super().__init__()
        self.a = nn.Linear(din, hid, bias=bias)
        self.norm = nn.LayerNorm(hid)
        self.b = nn.Linear(hid, dout)

    def forward(self, x):
        return self.b(torch.tanh(self.norm(self.a(x)))).mean(-2)


def fill(m, seed):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * 0.5)
    return m


def draw(ctx):
    kind = ctx.pick(["none", "kronecker", "elementwise"], [2, 3, 3])
    n = ctx.between(2, 6)
    c = {
        "kind": kind, "seq": ctx.chance(0.4), "din": ctx.between(2, 3), "hid": ctx.between(2, 4),
        "dout": ctx.between(2, 3), "bias": ctx.chance(0.7), "len": ctx.between(1, 3), "n": n,
        "bs": ctx.between(1, n), "tn": ctx.between(1, 4), "tbs": ctx.between(1, 3), "seed": ctx.draw(50),
        "proj": ctx.pick([None, 4, 9, 16], [2, 1, 1, 1]), "pseed": ctx.draw(4),
        "layers": ctx.pick([None, ["a"], ["b"], ["b", "a"]], [4, 1, 1, 1]) if kind != "none" else None,
        "opt": ctx.pick(["sgd", "momentum", "adam"], [2, 1, 1]),
        "lr": ctx.pick([0.05, 0.2, 0.01]),
    }
    return c


def trajectory(ctx, c, tag=0):
    """[(epoch, [indices], learning rate)]"""
    first = ctx.pick([0, 1, 7], [4, 1, 1])
    out = []
    for e in range(ctx.between(1, 3)):
        order = list(range(c["n"]))
        for i in range(c["n"] - 1, 0, -1):
            j = ctx.draw(i + 1)
            order[i], order[j] = order[j], order[i]
        steps = [order[i:i + c["bs"]] for i in range(0, c["n"], c["bs"])]
        steps = steps[:ctx.between(1, len(steps))]
        for b in steps:
            out.append((first + e, b, c["lr"] * ctx.pick([1.0, 0.5])))
    if not any(c["n"] - 1 in b for _, b, _ in out):
        out[-1][1][0] = c["n"] - 1   # the size of the embedding is the largest index
    return out


def data(c):
    g = torch.Generator().manual_seed(c["seed"] + 1)
    shape = (c["n"], c["len"], c["din"]) if c["seq"] else (c["n"], c["din"])
    return torch.randn(shape, generator=g), torch.randint(0, c["dout"], (c["n"],), generator=g)


def test_set(c):
    g = torch.Generator().manual_seed(c["seed"] + 2)
    shape = (c["tn"], c["len"], c["din"]) if c["seq"] else (c["tn"], c["din"])
    return TensorDataset(torch.randn(shape, generator=g), torch.randint(0, c["dout"], (c["tn"],), generator=g))


def model_of(c, shift=0):
    with torch.random.fork_rng():   # initialising a module draws
        m = (Seq if c["seq"] else Flat)(c["din"], c["hid"], c["dout"], c["bias"])
    return fill(m, c["seed"] * 3 + shift)


def optimiser(c, m):
    if c["opt"] == "adam":
        return torch.optim.Adam(m.parameters(), lr=c["lr"])
    return torch.optim.SGD(m.parameters(), lr=c["lr"], momentum=0.9 if c["opt"] == "momentum" else 0.0)


def recorder(c, m, env):
    from dattri.algorithm.dvemb import DVEmbAttributor
    from dattri.params.projection import DVEmbProjectionParams
    from dattri.task import AttributionTask

    if c["kind"] == "none":
        def loss(params, d):
            env.tick("loss")
            x, y = d
            z = torch.func.functional_call(m, params, x if x.dim() == (3 if c["seq"] else 2) else x.unsqueeze(0))
            return nn.functional.cross_entropy(z, y.reshape(-1))
    else:
        def loss(model, d, device):
            env.tick("loss")
            x, y = d
            return nn.functional.cross_entropy(model(x), y)

    task = AttributionTask(loss_func=loss, model=m, checkpoints=m.state_dict())
    pp = None
    if c["proj"] is not None:
        pp = DVEmbProjectionParams(proj_dim_per_layer=c["proj"], proj_seed=c["pseed"])
    return DVEmbAttributor(task, proj_params=pp, factorization_type=c["kind"], layer_names=c["layers"])


# ---------------------------------------------------------------- reference
def per_sample(c, m, x, y):
    """Gradients per sample in the attributor's layout, by autograd."""
    if c["kind"] == "none":
        ps = [p for _, p in m.named_parameters()]
    else:
        mods = dict(m.named_modules())
        names = c["layers"] or ["a", "b"]
        ps = [p for k in names for p in (mods[k].weight, mods[k].bias) if p is not None]
    rows = []
    for i in range(len(y)):
        g = torch.autograd.grad(nn.functional.cross_entropy(m(x[i:i + 1]), y[i:i + 1]), ps, allow_unused=True)
        rows.append(torch.cat([(torch.zeros_like(p) if q is None else q).flatten() for p, q in zip(ps, g)]))
    return torch.stack(rows).detach()


def reference(c, traj, shift=0):
    """Training without any recording: (parameters, embeddings, test gradients)
    - the latter two only where nothing is projected."""
    m = model_of(c, shift)
    x, y = data(c)
    opt = optimiser(c, m)
    grads = []
    for _, b, _ in traj:
        if c["proj"] is None:
            grads.append(per_sample(c, m, x[b], y[b]))
        opt.zero_grad()
        nn.functional.cross_entropy(m(x[b]), y[b]).backward()
        opt.step()
    params = {k: v.detach().clone() for k, v in m.named_parameters()}
    if c["proj"] is not None:
        return params, None, None
    dim = grads[0].shape[1]
    mm = torch.zeros(dim, dim)
    emb = {}
    n = max(i for _, b, _ in traj for i in b) + 1
    for (e, b, lr), g in reversed(list(zip(traj, grads))):
        eta = lr / len(b)
        v = eta * g - eta * (g @ mm.T)
        emb.setdefault(e, torch.zeros(n, dim)).index_add_(0, torch.tensor(b), v)
        mm = mm + v.T @ g
    ts = test_set(c)
    return params, emb, per_sample(c, m, ts.tensors[0], ts.tensors[1])


def plain_direct(c, traj, shift=0):
    """Undisturbed direct recording with fresh buffers: what projected runs are compared with."""
    m = model_of(c, shift)
    r = recorder(c, m, Env())
    x, y = data(c)
    opt = optimiser(c, m)
    for e, b, lr in traj:
        r.cache_gradients(e, (x[b].clone(), y[b].clone()), torch.tensor(b), lr)
        opt.zero_grad()
        nn.functional.cross_entropy(m(x[b]), y[b]).backward()
        opt.step()
    r.cache()
    return {e: v.clone() for e, v in r.embeddings.items()}, r.attribute(DataLoader(test_set(c), batch_size=c["tbs"]))


# ---------------------------------------------------------------- the recorded run
class Stage:
    """Where a training step fails."""

    ALL = ("enter", "forward", "backward", "before-step", "direct")


EXCS = (Boom, RuntimeError, Halt, StopIteration, KeyboardInterrupt, ValueError, OSError, MemoryError, AttributeError)


class Run:
    """One model, one recorder and the user's loop around them."""

    def __init__(self, s, c, mode, reuse, other=False, noise=None):
        self.s, self.c, self.mode, self.reuse, self.noise = s, c, mode, reuse, noise
        self.env = Env(s)
        self.m = model_of(c)
        self.r = recorder(c, self.m, self.env)
        self.second = None
        if other:
            self.second = recorder(dict(c, **other), self.m, self.env)
        self.x, self.y = data(c)
        shape = (c["bs"], *self.x.shape[1:])
        self.bx, self.by = torch.zeros(shape), torch.zeros(c["bs"], dtype=torch.long)
        self.bi = torch.zeros(c["bs"], dtype=torch.long)
        self.opt = optimiser(c, self.m)

    def restart(self, shift):
        with torch.no_grad():
            for p, q in zip(self.m.parameters(), model_of(self.c, shift).parameters()):
                p.copy_(q)
        self.opt = optimiser(self.c, self.m)

    def batch(self, b):
        if not self.reuse:
            return self.x[b].clone(), self.y[b].clone(), torch.tensor(b)
        k = len(b)
        self.bx[:k].copy_(self.x[b])
        self.by[:k].copy_(self.y[b])
        self.bi[:k].copy_(torch.tensor(b))
        return self.bx[:k], self.by[:k], self.bi[:k]

    def scribble(self):
        if self.reuse:
            self.bx.fill_(1e3)
            self.by.zero_()
            self.bi.zero_()

    @contextmanager
    def memory(self, k):
        """The k-th allocation within fails; k may also name another stage."""
        if not isinstance(k, int):
            yield
            return
        with Allocations() as self.mem:
            self.mem.at = {k}
            yield

    def no_memory(self, e, b, lr, k):
        """A step short of memory; True if it succeeded after all."""
        params = {n: v.detach().clone() for n, v in self.m.named_parameters()}
        self.mem = None
        try:
            self.step(e, b, lr, k)
        except NoMemory:
            self.s.fire("no memory for " + self.mem.where)
        except Violation:
            raise
        except BaseException as x:  # noqa: BLE001
            fail("masked-error", f"a step short of memory for {self.mem and self.mem.where} raised {x!r} instead")
        else:
            if self.mem.hits:
                fail("masked-error", f"a step short of memory for {self.mem.where} raised nothing")
            return True
        self.scribble()
        for n, v in self.m.named_parameters():
            if not torch.equal(params[n], v):
                fail("disturbs-training", f"a step short of memory changed {n}")
        return False

    def tick(self):
        if self.noise is not None:
            self.noise()

    def step(self, e, b, lr, stage=None, exc=None):
        x, y, idx = self.batch(b)
        self.m.train()
        self.tick()
        err = exc("the step failed") if exc else None

        def at(where):
            if stage == where:
                raise err

        def forward_backward():
            at("enter")
            self.opt.zero_grad()
            out = self.m(x)
            loss = nn.functional.cross_entropy(out, y)
            at("forward")
            if stage == "backward":
                def boom(g):
                    raise err

                h = self.m.a.weight.register_hook(boom)
                try:
                    loss.backward()
                finally:
                    h.remove()
                raise AssertionError("unreachable")
            loss.backward()
            self.tick()

        if self.mode == "context":
            before = snapshot(self.m)
            recs = [self.r] + ([self.second] if self.second else [])
            from contextlib import ExitStack

            try:
                with ExitStack() as st:
                    for r in recs:
                        st.enter_context(r.cache_gradients_context(e, idx, lr))
                    with self.memory(stage):
                        forward_backward()
                    at("before-step")
                    self.opt.step()
            finally:
                if snapshot(self.m) != before:
                    fail("leftover-hook", f"after a step {'failing at ' + stage if stage else 'that succeeded'}: "
                         f"{snapshot(self.m)} instead of {before}")
        elif self.mode == "direct":
            self.record(e, x, y, idx, lr, stage, exc)
            forward_backward()
            self.opt.step()
        else:   # between backward and the optimiser's step
            forward_backward()
            grads = {k: p.grad.clone() for k, p in self.m.named_parameters() if p.grad is not None}
            self.record(e, x, y, idx, lr, stage, exc)
            now = {k: p.grad for k, p in self.m.named_parameters() if p.grad is not None}
            if grads.keys() != now.keys() or not all(torch.equal(grads[k], now[k]) for k in grads):
                fail("disturbs-training", "direct recording between backward() and step() changes the gradients: "
                     f"{ {k: None if k not in now else now[k].flatten()[:3].tolist() for k in grads} }")
            self.opt.step()
        self.scribble()
        self.tick()

    def record(self, e, x, y, idx, lr, stage, exc):
        before = snapshot(self.m)
        self.env.n, self.env.at, self.env.exc = 0, 1 if stage == "direct" else None, exc
        try:
            with self.memory(stage):
                for r in [self.r] + ([self.second] if self.second else []):
                    r.cache_gradients(e, (x, y), idx, lr)
        finally:
            self.env.at = None
            if snapshot(self.m) != before:
                fail("leftover-hook", f"direct recording leaves {snapshot(self.m)} instead of {before}")

    def failing(self, e, b, lr, stage, exc):
        """A step that fails: its own error, nothing recorded, nothing changed."""
        params = {k: v.detach().clone() for k, v in self.m.named_parameters()}
        try:
            self.step(e, b, lr, stage, exc)
        except Violation:
            raise
        except exc as x:
            if "failed" not in str(x):
                fail("masked-error", f"a step failing at {stage} with {exc.__name__} raised {x!r}")
        except BaseException as x:  # noqa: BLE001
            fail("masked-error", f"a step failing at {stage} with {exc.__name__} raised {x!r} instead")
        else:
            fail("masked-error", f"a step failing at {stage} with {exc.__name__} raised nothing")
        self.s.fire("exception@" + stage)
        self.scribble()
        for k, v in self.m.named_parameters():
            if not torch.equal(params[k], v):
                fail("disturbs-training", f"a step failing at {stage} changed {k}")


def draw_faults(ctx, traj, mode, rate=0.3):
    stages = {"context": ["enter", "forward", "backward", "before-step"],
              "direct": ["direct", "forward", "backward"], "between": ["forward", "backward", "direct"]}[mode]
    out = {}
    for i in range(len(traj)):
        if ctx.chance(rate, s="fault"):
            st = ctx.pick(stages, s="fault")
            if mode == "direct" and st != "direct":
                continue   # the recording is over when the user's own step fails
            out[i] = (st, ctx.pick(EXCS, [4, 2] + [1] * 7, s="fault"), ctx.between(1, 2, s="fault"))
    return out


def check_result(run, c, traj, emb, scores, tg, test):
    r = run.r
    if set(r.embeddings) != set(emb):
        fail("wrong-epochs", f"embeddings for epochs {sorted(r.embeddings)} instead of {sorted(emb)}")
    for e in emb:
        if not close(r.embeddings[e], emb[e]):
            fail("wrong-embedding", f"epoch {e} of {sorted(emb)}: {diff(r.embeddings[e], emb[e])}")
    got = r.attribute(test())
    if not close(got, scores):
        fail("wrong-scores", diff(got, scores))
    e = sorted(emb)[len(emb) // 2]
    got = r.attribute(test(), epoch=e, train_data_indices=[c["n"] - 1, 0])
    want = emb[e][[c["n"] - 1, 0]] @ tg.T if tg is not None else None
    if want is not None and not close(got, want):
        fail("wrong-scores", f"of epoch {e}: {diff(got, want)}")


def a05_trajectory(ctx):
    recorded(ctx)


def a01_dvemb(ctx):
    """Aborted embedding passes and attributions, retried."""
    recorded(ctx, abort=0.9, poison=0.4)


def a02_dvemb(ctx):
    """Failing steps and aborted attributions; the model inspected after each."""
    recorded(ctx, abort=0.7, faulty=0.6)


def a04_dvemb(ctx):
    """Foreign use of the random generators around every step, or none at all
    and the generators' states compared."""
    recorded(ctx, ambient=True, project=0.8)


def recorded(ctx, abort=0.4, poison=0.2, faulty=0.3, ambient=False, project=None):
    c = draw(ctx)
    if project is not None and c["proj"] is None and ctx.chance(project):
        c["proj"] = ctx.pick([4, 9, 16])
    traj = trajectory(ctx, c)
    mode = ctx.pick(["context", "direct", "between"], [4, 1, 2]) if c["kind"] != "none" else ctx.pick(["direct", "between"])
    reuse = ctx.chance(0.5)
    faults = draw_faults(ctx, traj, mode, faulty)
    poison = ctx.chance(poison, s="fault")
    # a pass over the finished record that fails part-way, with rates given for it
    spoil = [(ctx.draw(len(traj), s="fault"), ctx.chance(0.7, s="fault"))
             for _ in range(ctx.pick([0, 1, 2], [2, 2, 1], s="fault"))]
    earlier = trajectory(ctx, c) if ctx.chance(0.3) else None
    other = None
    if ctx.chance(0.25) and c["kind"] != "none":
        other = {"kind": ctx.pick(["kronecker", "elementwise"]), "proj": ctx.pick([None, 4])}
        if other["kind"] == "elementwise" and other["proj"] is None:
            other["kind"] = "kronecker"
    abort = ctx.chance(abort, s="fault")
    noise, first, harmless = None, ctx.draw(1000, s="fault"), False
    if ambient:
        harmless = ctx.chance(0.4, s="fault")
        noise = None if harmless else ctx.draw(10**6, s="fault")
        ctx.say("ambient", first, noise)
    short = {}
    if mode == "context" or other is None:
        short = {i: 1 + ctx.draw(25, s="alloc") for i in range(len(traj)) if ctx.chance(0.15, s="alloc")}
    short_pass = 1 + ctx.draw(60, s="alloc") if ctx.chance(0.3, s="alloc") else None
    saving = ctx.chance(0.6)
    ctx.say("setting", c, "mode", mode, "reuse" if reuse else "", "saving" if saving else "", "second", other)
    ctx.say("trajectory", traj, "earlier", earlier)
    ctx.say("faults", {i: (s_, x.__name__, k) for i, (s_, x, k) in faults.items()},
            "allocations", short, short_pass, "poisoned embedding pass" if poison else "", "failing passes", spoil, "aborted attribution" if abort else "")

    params, emb, tg = ctx.value(lambda s: reference(c, traj))
    if emb is None:
        emb, scores = ctx.value(lambda s: plain_direct(c, traj))
    else:
        scores = sum(emb.values()) @ tg.T
    second = ctx.value(lambda s: plain_direct(dict(c, **other), traj))[0] if other else None

    def p(s):
        if ambient:
            reseed_all(first)
        states = rng_states()
        hum = Ambient(noise) if noise is not None else None
        run = Run(s, c, mode, reuse, other, noise=hum)
        run.env.disturb = hum

        def test(at=None):
            run.env.n, run.env.at, run.env.exc = 0, at, Boom
            return Loader(run.env, test_set(c), c["tbs"])

        if earlier:
            run.restart(5)
            for e, b, lr in earlier:
                run.step(e, b, lr)
            run.r.cache(memory_saving=True)
            if run.second:
                run.second.cache()
            s.probe("earlier trajectory")
        if poison:
            run.restart(6)
            e, b, _ = traj[0]
            run.step(e, b, float("nan"))
            try:
                run.r.cache()
            except ValueError:
                s.fire("nan-in-embedding-pass")
            else:
                fail("silent-nan", "cache() returns although the learning rate is not a number")
            try:
                run.r.attribute(test())
            except RuntimeError:
                s.probe("attribute after failed cache raised")
            else:
                fail("stale-embedding", "attribute() gives scores although cache() failed")
            for r in [run.r] + ([run.second] if run.second else []):
                r.clear_cache()
        run.restart(0)
        for i, (e, b, lr) in enumerate(traj):
            s.op_switch((i, mode, i in faults))
            st, exc, k = faults.get(i, (None, None, 0))
            for _ in range(k):
                run.failing(e, b, lr, st, exc)
            if i not in short or not run.no_memory(e, b, lr, short[i]):
                run.step(e, b, lr)
        for k, v in run.m.named_parameters():
            if not torch.equal(v, params[k]):
                fail("disturbs-training", f"{k} differs from training without recording: {diff(v.detach(), params[k])}")
        rates = {}
        for e, b, lr in traj:   # rates given to cache() are per sample
            rates.setdefault(e, []).append(lr / len(b))
        for k, save in spoil:
            bad = {e: list(v) for e, v in rates.items()}
            e = traj[k][0]
            bad[e][k - [x[0] for x in traj].index(e)] = float("nan")
            try:
                run.r.cache(learning_rates=bad, memory_saving=save)
            except ValueError:
                s.fire("nan-in-embedding-pass")
            else:
                fail("silent-nan", f"cache() returns although a learning rate of epoch {e} is not a number")
            try:
                run.r.attribute(test())
            except RuntimeError:
                s.probe("attribute after failed cache raised")
            else:
                fail("stale-embedding", "attribute() gives scores although cache() failed")
        enough = False
        if short_pass:
            try:
                with run.memory(short_pass):
                    if spoil:
                        run.r.cache(learning_rates=rates, memory_saving=saving)
                    else:
                        run.r.cache(memory_saving=saving)
            except NoMemory:
                s.fire("no memory for " + run.mem.where)
                try:
                    run.r.attribute(test())
                except RuntimeError:
                    s.probe("attribute after failed cache raised")
                else:
                    fail("stale-embedding", "attribute() gives scores although cache() ran out of memory")
            else:
                enough = True
        if enough:
            pass
        elif spoil:
            run.r.cache(learning_rates=rates, memory_saving=saving)
        else:
            run.r.cache(memory_saving=saving)
        run.m.train()
        run.m.b.eval()
        before = snapshot(run.m)
        grads = {k: None if v.grad is None else v.grad.clone() for k, v in run.m.named_parameters()}
        if abort:
            n = run.env
            try:
                run.r.attribute(test(1 + s.c.draw("fault", 4)))
            except Boom:
                s.fire("exception@" + n.kinds[-1])
            n.at = None
            if snapshot(run.m) != before:
                fail("leftover-hook", f"aborted attribute(): {snapshot(run.m)} instead of {before}")
        check_result(run, c, traj, emb, scores, tg, test)
        if snapshot(run.m) != before:
            fail("training-mode", f"attribute(): {snapshot(run.m)} instead of {before}")
        for k, v in run.m.named_parameters():
            if not torch.equal(v, params[k]):
                fail("disturbs-training", f"attribute() changes {k}")
            g = grads[k]
            if (g is None) != (v.grad is None) or (g is not None and not torch.equal(g, v.grad)):
                fail("disturbs-training", f"attribute() changes the gradient of {k}")
        if not saving:   # the record is still there
            run.r.cache()
            check_result(run, c, traj, emb, scores, tg, test)
        if run.second:
            run.second.cache()
            for e in second:
                if not close(run.second.embeddings[e], second[e]):
                    fail("wrong-embedding", f"second recorder, epoch {e}: {diff(run.second.embeddings[e], second[e])}")
            s.probe("two recorders")
        if harmless:
            now = rng_states()
            for k in states:
                if now[k] != states[k]:
                    fail("disturbs-randomness", f"recording, embedding or attribution changes the global {k} generator")
        if hum is not None:
            s.fired["ambient-randomness"] = s.fired.get("ambient-randomness", 0) + hum.n
        s.probe("compared")
        s.probe("mode " + mode)
        return True

    o = ctx.epoch(p, name="training", sched="serial")
    if o.kind != "ok":
        fail("recording-failed", f"{c} {mode}:", o.value, o.detail[-900:])
    ctx.probe("factorisation " + c["kind"])
