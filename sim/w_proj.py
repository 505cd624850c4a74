"""Random projections as stateful objects (P01).

Several projectors live in one process and are called in a seeded order, with
changing ensemble ids and batches, while foreign code uses the global random
generators and allocations fail.  The reference for every call is a projector
made for it alone in a process of its own.
"""

from __future__ import annotations

import torch

from .memory import Allocations, NoMemory, harness_code
from .util import close, diff, fail
from .w_attr import Ambient, reseed_all

FAR = 97


def draw_projector(ctx, earlier):
    c = {"how": ctx.pick(["random_project", "blocks", "arnoldi"], [5, 3, 1]),
         "seed": ctx.pick([0, 1, 7, 1000, 100000], [3, 2, 2, 1, 1]),
         "dim": ctx.pick([1, 3, 8, 100, 130, 205], [2, 3, 3, 1, 2, 1]),
         "type": ctx.pick(["normal", "rademacher", "random_mask", "identity"], [4, 4, 3, 1]),
         "fdim": ctx.pick([4, 9, 30, 210]), "rows": ctx.between(1, 5), "dict": ctx.chance(0.3),
         "block": ctx.pick([1, 2, 3, 100]), "f64": ctx.chance(0.2)}
    if earlier and ctx.chance(0.6):
        # like an earlier one, but for one setting
        key = ctx.pick(["seed", "dim", "type", "fdim", "rows", "dict", "block", "f64", "none"])
        c = {**earlier[ctx.draw(len(earlier))], **({key: c[key]} if key != "none" else {})}
    if c["type"] == "random_mask":
        c["dim"] = min(c["dim"], c["fdim"])
    if c["how"] == "blocks":
        c["dim"] = min(c["dim"], 8)
    if c["how"] == "arnoldi":
        c["fdim"], c["dim"] = min(c["fdim"], 9), min(c["dim"], 3)
    return c


@harness_code
def feature(c, q, rows=None):
    g = torch.Generator().manual_seed(17 + q)
    x = torch.randn(c["rows"], c["fdim"], generator=g, dtype=torch.float64)
    x = x.to(torch.float64 if c["f64"] and c["how"] != "arnoldi" else torch.float32)
    if rows:
        x = x[rows[0]:rows[1]].contiguous()
    if c["dict"]:
        h = c["fdim"] // 2
        return {"a": x[:, :h].contiguous(), "b": x[:, h:].reshape(x.shape[0], -1, 1).contiguous()}
    return x


@harness_code
def quadratic(n):
    g = torch.Generator().manual_seed(n)
    a = torch.randn(n, n, generator=g)
    return a @ a.T + torch.eye(n)


def make(c):
    from dattri.func import projection as P
    from dattri.params.projection import RandomProjectionParams

    if c["how"] == "random_project":
        f = P.random_project(feature(c, 0), RandomProjectionParams(
            feature_batch_size=c["rows"], proj_dim=c["dim"], proj_seed=c["seed"], proj_type=c["type"], device="cpu",
            proj_max_batch_size=16))
        return lambda x, e: f(x, ensemble_id=e)
    if c["how"] == "blocks":
        p = P.BasicProjector(c["fdim"], c["dim"], c["seed"], P.ProjectionType(c["type"]), torch.device("cpu"),
                             block_size=c["block"], dtype=torch.float64 if c["f64"] else torch.float32)
        return p.project
    m = quadratic(c["fdim"])
    f = P.arnoldi_project(c["fdim"], lambda x: x @ m @ x / 2, torch.zeros(c["fdim"]), proj_dim=c["dim"], max_iter=20,
                          seed=c["seed"])
    return lambda x, e: f(x)


def p01_projections(ctx):
    cfg = []
    for _ in range(ctx.between(1, 3)):
        cfg.append(draw_projector(ctx, cfg))
    k = len(cfg)
    calls = []
    for _ in range(ctx.between(2, 9)):
        i = ctx.draw(k, s="sched-op")
        rows = None
        if ctx.chance(0.3):
            lo = ctx.draw(cfg[i]["rows"])
            rows = (lo, lo + 1 + ctx.draw(cfg[i]["rows"] - lo))
        calls.append((i, ctx.pick([0, 0, 1, 2, FAR], s="sched-op"), ctx.draw(3), rows))
    short = {n: 1 + ctx.draw(12, s="alloc") for n in range(len(calls)) if ctx.chance(0.3, s="alloc")}
    first, amb = ctx.draw(1000, s="fault"), ctx.draw(10**6, s="fault")
    late = ctx.chance(0.5)
    ctx.say("projectors", cfg)
    ctx.say("calls", calls, "allocations", short, "ambient", first, amb, "late" if late else "")

    def alone(key):
        i, e, q = key

        def f(s):
            torch.manual_seed(1)
            return make(cfg[i])(feature(cfg[i], q), e).clone()
        return ctx.value(f)

    want = {key: alone(key) for key in sorted({c[:3] for c in calls})}

    for i, e, q in want:
        c = cfg[i]
        rich = {"normal": True, "rademacher": c["fdim"] * c["dim"] >= 60,
                "random_mask": c["fdim"] == 210 and 8 <= c["dim"] <= 100}.get(c["type"], False)
        if rich and c["how"] != "arnoldi":
            for e2 in {k[1] for k in want if k[0] == i and k[2] == q and k[1] != e}:
                if torch.equal(want[i, e, q], want[i, e2, q]):
                    fail("same-randomness", f"ensembles {e} and {e2} of {c} give the same projection")

    def p(s):
        reseed_all(first)
        noise = Ambient(amb)
        made = {} if late else {i: make(c) for i, c in enumerate(cfg)}
        kept = []
        for n, (i, e, q, rows) in enumerate(calls):
            noise()
            w = want[i, e, q]
            w = w[rows[0]:rows[1]] if rows else w
            x = feature(cfg[i], q, rows)
            s.op_switch((i, e))
            if n in short:
                mem = Allocations(short[n])
                mem.sim = s
                try:
                    with mem:
                        if i not in made:
                            made[i] = make(cfg[i])
                        r = made[i](x, e)
                except NoMemory:
                    s.probe("aborted")
                else:
                    check(n, i, e, r, w, " short of memory")
            if i not in made:
                made[i] = make(cfg[i])
                noise()
            r = made[i](x, e)
            check(n, i, e, r, w, "")
            same = x if isinstance(x, dict) else {"": x}
            again = feature(cfg[i], q, rows)
            for name, v in (again if isinstance(again, dict) else {"": again}).items():
                if not torch.equal(v, same[name]):
                    fail("input-changed", f"call {n} of {calls} on {cfg[i]} changes its input")
            kept.append((n, i, r, r.clone()))
            for m, j, a, b in kept:
                if not torch.equal(a, b) and not bool(torch.isnan(b).any()):
                    fail("earlier-result-changed", f"call {n} of {calls} changes the result of call {m} on {cfg[j]}")
            s.probe("compared")
        s.fired["ambient-randomness"] = noise.n
        return True

    @harness_code
    def check(n, i, e, r, w, how):
        if r.dtype != w.dtype or not close(r, w):
            fail("wrong-projection", f"call {n}{how} (ensemble {e}) of {calls} on {cfg[i]} of {cfg}:", diff(r, w))

    o = ctx.epoch(p, name="projectors", sched="serial")
    if o.kind != "ok":
        fail("failed-without-faults", f"{cfg} {calls}:", o.value, o.detail[-900:])
    for c in cfg:
        ctx.probe("kind " + c["how"])
