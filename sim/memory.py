"""Allocations that fail: the k-th tensor operation (or thread start) that
needs memory raises, in whichever thread it happens."""

from __future__ import annotations

import functools
from contextlib import contextmanager

from torch.overrides import TorchFunctionMode


class NoMemory(RuntimeError):
    """What torch raises when the CPU allocator fails is a RuntimeError too."""


# queries and views: no memory is needed
NO_ALLOC = frozenset("""size dim numel stride storage_offset element_size data_ptr detach view view_as expand expand_as
    t transpose permute unsqueeze squeeze unbind chunk split narrow select get_device type_as has_names register_hook
    untyped_storage nelement ndimension item tolist result_type""".split())


class Allocations(TorchFunctionMode):
    """Counts tensor operations that need memory; the ones in `at` fail."""

    harness = 0   # inside the workload's own code

    def __init__(self, *at):
        super().__init__()
        self.n = self.hits = 0
        self.at = set(at)
        self.where = ""
        self.sim = None

    def take(self, name, exc=NoMemory):
        self.n += 1
        if self.n in self.at:
            self.hits += 1
            self.where = name
            if self.sim is not None:
                self.sim.fire("no memory for " + name)
            raise exc(f"simulated: no memory for {name} (operation {self.n})")

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", "")
        # in-place operations need no memory either
        if not (Allocations.harness or name.startswith(("_", "is_")) or name.endswith("_") or name in NO_ALLOC):
            self.take(name)
        return func(*args, **(kwargs or {}))

    def clear(self):
        self.at = set()

    @contextmanager
    def everywhere(self, s):
        """In this thread and in all that are started meanwhile."""
        self.sim, s.memory = s, self
        with self:
            yield self
        # threads started so far go on counting


class OtherThread(TorchFunctionMode):
    def __init__(self, parent):
        super().__init__()
        self.parent = parent

    def __torch_function__(self, func, types, args=(), kwargs=None):
        return self.parent.__torch_function__(func, types, args, kwargs)


def harness_code(f):
    """Allocations of the workload itself neither count nor fail."""
    @functools.wraps(f)
    def g(*a, **k):
        Allocations.harness += 1
        try:
            return f(*a, **k)
        finally:
            Allocations.harness -= 1
    return g
