"""Entry point: python -m sim.cli <property-id> [options]."""

from __future__ import annotations

import sys
import traceback


def selftest(registry, harness):
    """The simulator starts and the same seed gives the same execution."""
    import os
    import shutil

    scratch = os.path.join(harness.SCRATCH_BASE, f"dsim-self-{os.getpid()}")
    try:
        for pid in sorted(registry.CHECKS):
            c = registry.get(pid)
            d = [harness.run_one(c, f"self:{pid}:0", scratch, "quick")["digest"] for _ in range(2)]
            print(pid, *d, flush=True)
            if d[0] != d[1]:
                print("not deterministic")
                sys.exit(2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(0)


def main():
    pid, rest = sys.argv[1], sys.argv[2:]
    from . import boot

    try:
        boot.boot()
        from . import harness, registry

        if pid == "--selftest":
            return selftest(registry, harness)
        rc = harness.main(registry.get(pid), rest)
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
