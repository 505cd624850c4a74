"""Helpers shared by the workloads."""

from __future__ import annotations

import gc
import os

import torch

from . import fs as simfs
from .core import Violation
from .memory import harness_code

WRITE_ERR = ["ENOSPC", "EIO", "EMFILE", "EDQUOT"]
READ_ERR = ["EIO", "EMFILE", "ESTALE"]


def fail(kind, *detail):
    raise Violation(kind, " ".join(str(d) for d in detail))


def slow(ctx, hi=4):
    """Disk speed profile 0 (instant) .. 4 (stalls of 40 s), 5 (seconds per operation)."""
    return ctx.pick(range(hi + 1), [4, 2, 2, 2, 1, 1][:hi + 1], s="slow")


def write_plan(ctx, kmax=24, match="", ops=None):
    # every choice is cast to an optional fault: k == 0 means none
    ops = ops or ctx.pick([
        simfs.WRITE_OPS, ("write",), ("creat", "mmcreat"), ("rename",), ("mmcreat",),
        ("mkdir",), ("unlink",),
    ], [6, 3, 3, 2, 2, 1, 1], s="fault")
    k = ctx.between(0, kmax if len(ops) > 2 else max(3, kmax // 3), s="fault")
    p = simfs.Plan(ops, k, ctx.pick(WRITE_ERR, s="fault"), ctx.chance(0.3, s="fault"),
                   match, short=ctx.chance(0.4, s="fault"))
    return [p] if k else []


def read_plan(ctx, kmax=24, match="", ops=None):
    ops = ops or ctx.pick([simfs.READ_OPS, ("open",), ("mmread",), ("read",), ("listdir",)],
                          [5, 3, 4, 3, 1], s="fault")
    k = ctx.between(0, kmax if len(ops) > 2 else max(3, kmax // 2), s="fault")
    p = simfs.Plan(ops, k, ctx.pick(READ_ERR, s="fault"), ctx.chance(0.4, s="fault"), match)
    return [p] if k else []


def crash_opts(ctx, kmax=60):
    """Die at the k-th file operation, or at a scheduling step."""
    if ctx.chance(0.8, s="crash"):
        return {"crash_at": 1 + ctx.draw(kmax, s="crash"), "crash_mid": ctx.chance(0.5, s="crash")}, None
    return {}, 1 + ctx.draw(40 * kmax, s="crash")


@harness_code
def close(a, b, rtol=1e-3, floor=1e-12):
    if not isinstance(a, torch.Tensor) or not isinstance(b, torch.Tensor):
        return False
    if a.shape != b.shape:
        return False
    if a.numel() == 0:
        return True
    if not torch.isfinite(a).all() or not torch.isfinite(b).all():
        return bool(torch.equal(torch.nan_to_num(a, 7e7), torch.nan_to_num(b, 7e7)))
    scale = max(float(b.abs().max()), floor)
    return float((a - b).abs().max()) <= rtol * scale


@harness_code
def diff(a, b):
    if not isinstance(a, torch.Tensor):
        return f"got {type(a)}"
    if a.shape != b.shape:
        return f"shape {tuple(a.shape)} instead of {tuple(b.shape)}"
    d = (a - b).abs()
    bad = (~(d <= 1e-3 * b.abs().max())).nonzero().tolist()
    return (f"{len(bad)} of {b.numel()} entries differ, first at {bad[:4]}; "
            f"max error {float(torch.nan_to_num(d, 1e30).max()):.4g} at scale {float(b.abs().max()):.4g}")


class quiet:
    """Harness code that must neither be preempted nor see faults."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        if self.s is not None:
            self.s.quiet += 1

    def __exit__(self, *a):
        if self.s is not None:
            self.s.quiet -= 1


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def drop():
    gc.collect()
