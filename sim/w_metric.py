"""The brittleness search over user training and evaluation functions (M01).

The oracle is a table: which searched k flips the prediction, and which samples
are left when the k highest-scored ones are removed.
"""

from __future__ import annotations

import threading

import torch
from torch import nn
from torch.utils.data import DataLoader, Dataset, SubsetRandomSampler

from .util import fail
from .w_attr import Ambient, reseed_all


class Boom(RuntimeError):
    pass


class Halt(BaseException):
    pass


class Calls:
    """Counts callbacks and strikes at a chosen one."""

    def __init__(self, s, noise):
        self.s, self.noise, self.n, self.at, self.exc, self.hit = s, noise, 0, None, None, 0

    def __call__(self, what):
        self.n += 1
        if self.noise:
            self.noise()
        self.s.yield_point(what)
        if self.at is not None and self.n == self.at:
            self.hit += 1
            self.s.fire(f"exception in {what}")
            raise self.exc(f"{what} failed")


class Data(Dataset):
    def __init__(self, n, labels):
        self.n, self.labels, self.calls = n, labels, None

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if self.calls:
            self.calls("data set")
        return torch.tensor(float(i)), torch.tensor(self.labels[i])


class Model(nn.Module):
    def __init__(self, left):
        super().__init__()
        self.lin = nn.Linear(1, 1)
        self.left = left


def draw_case(ctx):
    n = ctx.between(1, 14)
    perm = sorted(range(n), key=lambda _: ctx.draw(10**6))
    space = sorted({ctx.draw(n + 3) for _ in range(ctx.between(1, 6))})
    if ctx.chance(0.15):
        space = None  # range(0, 200, 20)
    ks = list(range(0, 200, 20)) if space is None else space
    return {"n": n, "bs": ctx.pick([1, 2, 3, 5, 20]), "rank": perm, "space": space,
            "flips": {k: ctx.chance(0.3) for k in ks}, "type": ctx.pick(["tensor", "numpy", "double"], [3, 2, 1]),
            "sampler": ctx.pick(["subset", "random"], [3, 1]), "label": ctx.draw(3)}


def left(c, k):
    return sorted(set(range(c["n"])) - set(c["rank"][:k]))


def answer(c):
    ks = list(range(0, 200, 20)) if c["space"] is None else c["space"]
    done = []
    for k in ks:
        done.append(left(c, k))
        if c["flips"][k]:
            return k, done
    return None, done


def scores_of(c):
    # rank[0] has the highest score
    v = torch.zeros(c["n"], dtype=torch.float64 if c["type"] == "double" else torch.float32)
    for place, i in enumerate(c["rank"]):
        v[i] = 3.0 - 0.37 * place
    return v.numpy() if c["type"] == "numpy" else v


def setup(c):
    from dattri.benchmark.utils import SubsetSampler

    train = Data(c["n"], [0] * c["n"])
    test = Data(1, [c["label"]])
    sampler = SubsetSampler(list(range(c["n"]))) if c["sampler"] == "subset" else SubsetRandomSampler(list(range(c["n"])))
    return (DataLoader(train, batch_size=c["bs"], sampler=sampler), DataLoader(test, batch_size=1))


def search(c, env, loaders, scores, record):
    from dattri.metric import brittleness

    tl, vl = loaders

    def train(dl):
        env("train function")
        ids = []
        for x, _ in dl:
            if len(x) > c["bs"]:
                fail("wrong-batch", f"{len(x)} samples in a batch of {c['bs']}")
            ids.extend(int(i) for i in x)
        if dl.dataset is not tl.dataset:
            fail("wrong-data", "another data set than the loader's")
        record.append(sorted(ids))
        env("train function")
        return Model(sorted(ids))

    def evaluate(m, dl):
        env("evaluation function")
        if m.training:
            fail("training-mode", "the evaluated model is in training mode")
        if dl is not vl or [int(y) for _, y in dl] != [c["label"]]:
            fail("wrong-test-data", "the evaluation got other test data")
        flips = {tuple(left(c, k)): f for k, f in reversed(sorted(c["flips"].items()))}
        if tuple(m.left) not in flips:
            fail("wrong-training-set", f"trained on {m.left}; case {c}")
        env("evaluation function")
        return torch.tensor([c["label"] + int(flips[tuple(m.left)])])

    return brittleness(train_loader=tl, test_loader=vl, scores=scores, train_func=train, eval_func=evaluate,
                       device="cpu", search_space=None if c["space"] is None else list(c["space"]))


def m01_brittleness(ctx):
    share = ctx.chance(0.4)  # several searches over the same loaders
    cases = [draw_case(ctx)]
    for _ in range(ctx.between(1, 2) if share else 0):
        o = draw_case(ctx)
        perm = sorted(cases[0]["rank"], key=lambda _: ctx.draw(10**6))
        cases.append({**o, **{k: cases[0][k] for k in ("n", "bs", "sampler", "label")}, "rank": perm})
    for c in cases:
        # sets of samples that several k leave (all removed) have one fate
        seen = {}
        for k in sorted(c["flips"]):
            c["flips"][k] = seen.setdefault(tuple(left(c, k)), c["flips"][k])
    together = share and ctx.chance(0.5)
    amb = ctx.draw(10**6, s="fault") if ctx.chance(0.6, s="fault") else None
    strikes = [[(1 + ctx.draw(12 + 4 * c["n"], s="fault"), ctx.pick([Boom, OSError, Halt, ValueError, torch.OutOfMemoryError, MemoryError, IndexError, KeyError, TypeError], s="fault"))
                for _ in range(ctx.pick([0, 1, 2], [2, 3, 1], s="fault"))] for c in cases]
    ctx.say("cases", cases, "together", together)
    ctx.say("faults", [[(k, e.__name__) for k, e in x] for x in strikes], "ambient", amb)

    def p(s):
        import copy

        if amb is not None:
            reseed_all(amb % 1000)
        loaders = setup(cases[0])
        indices = list(loaders[0].sampler.indices)
        viol = []

        def one(i):
            c, sc = cases[i], scores_of(cases[i])
            keep = copy.deepcopy(sc)
            for at, exc in [*strikes[i], (None, None)]:
                env = Calls(s, Ambient(amb + i) if amb is not None else None)
                env.at, env.exc = at, exc
                if not together:
                    loaders[0].dataset.calls = loaders[1].dataset.calls = env
                rec = []
                want, sets = answer(c)
                try:
                    got = search(c, env, loaders, sc, rec)
                except (Boom, Halt, OSError, ValueError, RuntimeError, MemoryError, LookupError, TypeError) as e:
                    if not env.hit:
                        viol.append(("failed-without-faults", f"{e!r} for {c}"))
                        return
                    s.probe("failure surfaced")
                    if rec != sets[: len(rec)]:
                        viol.append(("wrong-training-set", f"{rec} instead of {sets} for {c}"))
                    continue
                if env.hit:
                    viol.append(("failure-swallowed", f"callback {at} raised {exc.__name__}, yet the search answered {got} ({want}) for {c}"))
                    return
                if rec != sets:
                    viol.append(("wrong-training-set", f"{rec} instead of {sets} for {c}"))
                if got != want:
                    viol.append(("wrong-answer", f"{got!r} instead of {want!r} for {c}"))
                s.probe("answered")
            if (torch.as_tensor(sc) != torch.as_tensor(keep)).any():
                viol.append(("scores-changed", f"{sc} were {keep}"))

        if together:
            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(cases))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if s.thread_errors:
                fail("thread-error", s.thread_errors[0])
        else:
            for i in range(len(cases)):
                one(i)
        if viol:
            fail(*viol[0])
        if list(loaders[0].sampler.indices) != indices or len(loaders[0].dataset) != cases[0]["n"]:
            fail("loader-changed", f"{loaders[0].sampler.indices} were {indices}")
        return True

    o = ctx.epoch(p, root=ctx.dir("work"), name="search")
    if o.kind != "ok":
        fail("failed-without-faults", o.value, o.detail[-900:])
