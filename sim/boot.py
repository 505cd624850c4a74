"""Process-wide set-up: environment, patches, imports (in that order)."""

from __future__ import annotations

import logging
import os
import sys
import warnings

REPO = os.environ.get("SIM_REPO", "/repo")
DONE = False
PREEMPT = ("/offload/", "/core/metadata", "/model_util/retrain", "/benchmark/load", "/datasets/maestro/data",
           "/metric/ground_truth",
           "/metric/brit")


def boot(lines=True):
    global DONE
    if DONE:
        return
    DONE = True
    os.environ["TQDM_DISABLE"] = "1"
    os.environ["TORCHDYNAMO_DISABLE"] = "1"  # torch.compile'd functions run eagerly
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    import concurrent.futures.thread  # noqa: F401
    import multiprocessing.queues  # noqa: F401
    import shutil  # noqa: F401
    import tempfile  # noqa: F401
    import zipfile  # noqa: F401

    import numpy  # noqa: F401
    import requests  # noqa: F401
    import torch.utils.data  # noqa: F401
    import tqdm
    import yaml  # noqa: F401

    tqdm.tqdm.monitor_interval = 0
    from . import fs, patches

    patches.install(os.path.realpath(REPO) + "/dattri/")
    fs.install()
    logging.disable(logging.CRITICAL)
    import dattri  # noqa: F401
    import dattri.algorithm  # noqa: F401
    import dattri.func  # noqa: F401
    import dattri.params  # noqa: F401
    import dattri.task  # noqa: F401

    assert os.path.realpath(dattri.__file__).startswith(os.path.realpath(REPO)), dattri.__file__
    import dattri.algorithm.block_projected_if.offload.disk_io.manager  # noqa: F401
    import dattri.algorithm.block_projected_if.offload.disk_io.memory_map  # noqa: F401
    import dattri.algorithm.block_projected_if.offload.disk_io.prefetch_dataset  # noqa: F401
    import importlib
    import pkgutil

    # a module that is imported while threads run would be imported under its lock
    for pkg in (dattri.algorithm, dattri.func, dattri.params):
        for m in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
            importlib.import_module(m.name)
    import dattri.algorithm.dvemb  # noqa: F401
    import dattri.algorithm.factgrass  # noqa: F401
    import dattri.algorithm.logra  # noqa: F401
    import dattri.benchmark.load  # noqa: F401
    import dattri.metric  # noqa: F401
    import pretty_midi  # noqa: F401
    import dattri.model_util.retrain  # noqa: F401
    import dattri.params.projection  # noqa: F401

    if lines:
        patches.install_lines(os.path.realpath(REPO) + "/dattri/", PREEMPT)
    # warm up lazily initialised library state so that epochs are alike
    x = torch.randn(4, 4, requires_grad=True)
    (torch.linalg.inv(x.detach() @ x.detach().T + torch.eye(4)) @ x).sum().backward()
    list(torch.utils.data.DataLoader(torch.utils.data.TensorDataset(x.detach()), batch_size=2))
    torch.func.vmap(torch.func.grad(lambda p, q: (p * q).sum()), in_dims=(None, 0))(x[0].detach(), x.detach())
