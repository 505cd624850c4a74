"""Running out of memory in the offload machinery (D13).

The k-th allocation fails, in whichever thread of the simulated process it
happens: tensor operations, the start of a thread, reading or mapping a file.
"""

from __future__ import annotations

import contextlib

import torch

from . import fs as simfs
from . import w_bp as B
from .core import Violation
from .memory import Allocations, harness_code
from .util import diff, fail, slow
from .w_offload import Spec, absent, begin, finish, join, order_of, precond, verify


def draw_shortage(ctx, hi):
    """Positions of failing allocations and failing file mappings."""
    at = sorted({1 + ctx.draw(hi, s="alloc") for _ in range(ctx.pick([1, 2, 4, 0], [6, 2, 1, 2], s="alloc"))})
    plans = []
    if not at or ctx.chance(0.2, s="alloc"):
        ops = ctx.pick([("mmcreat",), ("mmread",), ("open", "mmread"), ("mmread", "read")], s="alloc")
        plans = [simfs.Plan(ops, 1 + ctx.draw(12, s="alloc"), "NOMEM", ctx.chance(0.2, s="alloc"))]
    return at, plans


def d13_manager(ctx):
    spec = Spec(ctx)
    ctx.say("spec", spec)
    d = ctx.dir("cache")
    n = spec.n
    at, plans = draw_shortage(ctx, 12 + 16 * n)
    order = order_of(ctx, n)
    spec.missing.pop(order[0], None)
    same_one = ctx.chance(0.5) and not spec.direct    # the manager that failed is used again
    bs = ctx.between(1, 3)
    via = ctx.pick(["loader", "retrieve", "both"])
    ctx.say("allocations that fail", at, plans, "same manager" if same_one else "", via)
    vals = {(k, b): spec.val(k, b) for k in ("gradients", "ifvp") for b in range(n)}
    pre = {i: precond(i, 0, dim) for i, dim in enumerate(spec.dims)}
    want = {"gradients": {b: spec.exp("gradients", b) for b in range(n)},
            "ifvp": {b: spec.exp("ifvp", b) for b in range(n)}, "precond": pre}

    def one_pass(m):
        begin(m, 0, n)
        for b in order:
            m.store_gradients(b, [x.clone() for x in vals["gradients", b]])
        finish(m)
        for i, x in pre.items():
            m.store_preconditioner(i, x)
        m.wait_for_async_operations()
        begin(m, 0, n)
        for b in range(n):
            m.store_ifvp(b, [x.clone() for x in vals["ifvp", b]])
        finish(m)
        m.wait_for_async_operations()

    @harness_code
    def right(kind, b, got, how):
        w = want[kind][b]
        if got.shape != w.shape or not torch.equal(got, w):
            fail("wrong-rows", f"{kind} batch {b} by {how}, short of memory:", diff(got, w))

    def reads(m):
        """Everything, once; an error or the truth."""
        for kind in ("gradients", "ifvp"):
            if via != "loader":
                for b in range(n):
                    got = (m.retrieve_gradients if kind == "gradients" else m.retrieve_ifvp)(b)
                    if absent(got):
                        fail("unreadable-as-absent", f"{kind} batch {b} retrieved as empty, short of memory")
                    right(kind, b, harness_code(join)(got), "retrieval")
            if via != "retrieve":
                seen = []
                dl = m.create_gradient_dataloader(kind, batch_size=bs, pin_memory=False)
                if dl is None:
                    fail("loader-missing", kind, "short of memory")
                for tensor, mapping in dl:
                    for b, (x, y) in mapping.items():
                        seen.append(b)
                        right(kind, b, tensor[x:y], "the loader")
                if sorted(seen) != list(range(n)):
                    fail("lost-batch", f"{kind}: the loader delivers {sorted(seen)}, short of memory")
        for i in pre:
            got = m.retrieve_preconditioner(i)
            if got is None or not torch.equal(got, pre[i]):
                fail("lost-preconditioner", f"layer {i}: {got}, short of memory")

    def p(s):
        mem = Allocations(*at)
        m, err = None, None
        with mem.everywhere(s):
            try:
                m = spec.make(d)
                one_pass(m)
            except Exception as e:  # noqa: BLE001
                if not (mem.hits or any(q.hits for q in plans)):
                    raise
                s.probe("shortage surfaced in " + ("storing" if m is not None else "construction"))
                err = f"{type(e).__name__}: {e}"
            else:
                for _ in range(2):
                    try:
                        reads(m)
                    except Violation:
                        raise
                    except Exception:  # noqa: BLE001
                        if not (mem.hits or any(q.hits for q in plans)):
                            raise
                        s.probe("shortage surfaced in reading")
        mem.clear()
        s.fs.clear_faults()
        if err is None:
            try:
                verify(m, want, "no error was reported while storing", 2)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                fail("silent-loss", "no error was reported while storing, but reading says", repr(e))
            s.probe("complete in spite of the shortage" if mem.hits else "not short")
        if spec.direct:
            return err   # only the strategies above the manager can be cleared
        if m is None or not same_one:
            if m is not None:   # it may have writes in flight
                with contextlib.suppress(Exception):
                    m.wait_for_async_operations()
            m = spec.make(d)
        try:
            m.clear_cache()
            one_pass(m)
            verify(m, want, f"stored again after {err}", 2)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            fail("no-recovery", f"with memory again after {err}, storing and reading raised {e!r}")
        return err

    o = ctx.epoch(p, root=d, name="short", fsopts={"slow": slow(ctx, 4), "plans": plans})
    if o.kind == "exc":
        fail("store-failed", o.value, o.detail[-700:])


def d13_attributor(ctx):
    B.d05_write_fault(ctx, memory=True)
