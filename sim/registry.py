"""Which scenarios decide which property, and what each check covers."""

from __future__ import annotations

from . import w_attr as A
from . import w_bench as N
from . import w_bp as B
from . import w_dvemb as V
from . import w_mem as Y
from . import w_meta as M
from . import w_metric as T
from . import w_offload as O
from . import w_proj as J
from . import w_retrain as R
from . import w_train as W
from .harness import Check

CHECKS = {}

# ---------------------------------------------------------------- components
DISK = [
    "dattri.algorithm.block_projected_if.offload (disk manager, memory-mapped chunk files, prefetching loader, strategies): real code, statement-level preemption",
    "dattri.algorithm.block_projected_if.core.metadata: real code, statement-level preemption",
]
ATTR = ["block-projected IF / LoGra / FactGraSS attributors, compressors, hooks, torch models and data loaders: real code"]
RET = ["dattri.model_util.retrain, dattri.metric.ground_truth, dattri.script.dattri_retrain: real code, statement-level preemption"]
BEN = ["dattri.benchmark.load: real code, statement-level preemption", "requests / urllib3 response streaming: real code above the socket"]
MAE = ["dattri.benchmark.datasets.maestro.data and MusicTransformer/dataset/e_piano.py: real code", "requests streaming, zipfile, csv/json, pickle: real code"]
CORE_STUB = [
    "threading.Thread/Lock/RLock/Condition/Event/Semaphore, queue.Queue, concurrent.futures.ThreadPoolExecutor: simulator versions over one baton; every acquire, release, wait, put, get, start and join is a scheduling point",
    "time.time/monotonic/perf_counter/sleep: simulated clock with seeded jumps",
    "open/os/shutil/pathlib/numpy.memmap/torch.save/torch.load: real files in a scratch directory behind a layer that schedules, delays, fails, shortens and counts every operation",
    "process death: the simulated process is a forked child that exits at the chosen file operation or statement; only what reached the file system survives",
]
NET = ["HTTP server and socket: stub with refused connections, status codes, early end of body, stalls and per-chunk faults"]
TRAIN = ["user training / target functions: small deterministic torch stand-ins that call back into the simulator"]
DUR = "Durability is against process death (the page cache survives), not power loss; a full disk hit through a memory-mapped page (SIGBUS) is not simulated."
EXPL = "Seeded random search, not exhaustive: a schedule or fault sequence outside those sampled is not covered."
PRE = "Preemption is at statement granularity inside the named dattri modules and at synchronisation and file operations elsewhere; C extensions are atomic."


def add(pid, scenarios, **kw):
    kw.setdefault("assumptions", [EXPL, PRE])
    CHECKS[pid] = Check(pid, scenarios, **kw)


def get(pid):
    return CHECKS[pid]


add("D01", [("transparent", B.d01_transparent, 1)],
    rule="random attributor, geometry and operation program run with offload='disk' under a seeded scheduler with I/O delays and clock jumps; scores compared with an unscheduled in-memory run.",
    note="Holds on every sampled schedule and geometry; oracle is the in-memory run of the same tree (1e-3 relative), so an error common to all offload modes is not seen here.",
    real=DISK + ATTR, stub=CORE_STUB, quick_runs=560)
add("D02", [("barrier", O.d02_barrier, 1)],
    rule="random store programs on the manager; at the instant a barrier returns everything stored is compared bit for bit by direct reads, by the loader and by a new manager after a simulated process death.",
    note="Oracle is a dictionary of the stored tensors; all comparisons exact.",
    real=DISK, stub=CORE_STUB, assumptions=[EXPL, PRE, DUR], quick_runs=1300)
add("D03", [("manager", O.d03_crash_store, 2), ("attributor", B.d03_crash_attribute, 1)],
    rule="process death at a seeded file operation (optionally in its middle) or statement, up to several times in a row; the survivor's reads and the re-run's scores are compared with what was stored / an empty-directory run.",
    note="Crash points are sampled over all file operations and statements of each run.",
    real=DISK + ATTR, stub=CORE_STUB, assumptions=[EXPL, PRE, DUR], quick_runs=600)
add("D04", [("leftovers", B.d04_leftovers, 1)],
    rule="a history of earlier runs with other configurations (finished, failed or killed) on one directory, then a run whose scores are compared with an empty-directory run.",
    note="Oracle is the same tree's run on an empty directory.",
    real=DISK + ATTR, stub=CORE_STUB, assumptions=[EXPL, PRE, DUR], quick_runs=560)
add("D05", [("manager", O.d05_write_fault, 2), ("attributor", B.d05_write_fault, 1)],
    rule="seeded plans of failing or short writes, creations and renames (ENOSPC, EIO, EMFILE, ...) on any thread; the call or the next barrier must raise or the result must be complete, everything must terminate, and a run after the fault clears must be right.",
    note="Bounded termination is in simulated time/steps; a call that blocks forever is reported as a hang.",
    real=DISK + ATTR, stub=CORE_STUB, assumptions=[EXPL, PRE, DUR], quick_runs=850)
add("D06", [("manager", O.d06_read_fault, 2), ("attributor", B.d06_read_fault, 1)],
    rule="seeded plans of failing reads and missing, truncated or damaged files while preconditioners, IFVPs and scores are computed or a loader iterates; the call must raise or give the true values.",
    note="Damage is limited to missing/truncated/emptied files: silent bit rot inside a chunk of right size carries no checksum and is outside the property.",
    real=DISK + ATTR, stub=CORE_STUB, quick_runs=1200)
add("D07", [("callers", O.d07_callers, 1)],
    rule="2-4 caller threads store and retrieve distinct batches through one disk offload with statement-level preemption; every answer and the contents at the barrier are checked against the call history.",
    note="Each batch has one writer, so the history check is exact per batch (stored value, absent, or error).",
    real=DISK, stub=CORE_STUB, quick_runs=1000)
add("D08", [("loader", O.d08_loader, 1)],
    rule="random cache geometry and loader parameters; delivered rows, pairing of two loaders in lock-step, abandonment, re-iteration, random access and the number of chunks held are checked at every step.",
    note="Oracle is the dictionary of stored tensors; exact comparison.",
    real=DISK, stub=CORE_STUB, quick_runs=160)
add("D09", [("lifecycle", O.d09_lifecycle, 3), ("attribution", B.d09_attribution, 1)],
    rule="managers, loaders and attributors used again and again and dropped at seeded points; the number of background threads does not grow with use, and after a drop, within bounded simulated time no background thread of theirs is alive and the file system is quiet; acknowledged writes are intact.",
    note="'Dropped' means last reference gone and a garbage collection; interpreter exit is not covered.",
    real=DISK + ATTR, stub=CORE_STUB, quick_runs=130)
add("D10", [("history", O.d10_history, 1)],
    rule="random operation histories executed on the none, cpu and disk strategies and on a dictionary model; every answer compared.",
    note="Restart operations are process death right after a barrier; the disk strategy's history obeys the barrier rules in the statement.",
    real=DISK, stub=CORE_STUB, quick_runs=800)
add("D12", [("atomic", M.d12_atomic, 2), ("updates", M.d12_updates, 1)],
    rule="metadata programs (initialise, add, save, reload from several threads) with death or a failing file operation at a seeded point; the file is checked at every step and the sample mapping after every call and reload.",
    note="Oracle is the list of versions handed to save; concurrent updates use one manager object, as the attributors do.",
    real=DISK[1:], stub=CORE_STUB, assumptions=[EXPL, PRE, DUR], quick_runs=2500)
add("D13", [("manager", Y.d13_manager, 1), ("attributor", Y.d13_attributor, 2)],
    rule="the k-th allocation (tensor operation, thread start, reading or mapping of a file) fails, in whichever thread it happens, while batches are stored and read or preconditioners, IFVPs and scores computed; the call or the next barrier must raise or the result be complete, everything must terminate, and a run with memory again must be right.",
    note="Allocations are counted at the torch function level and at file mapping and thread creation; in-place operations, views and allocations inside C++ kernels or the interpreter are not failed.",
    real=DISK + ATTR, stub=CORE_STUB, quick_runs=600)
add("R01", [("partition", R.r01_partition, 6), ("nanogpt", R.r01_nanogpt, 1)],
    rule="random partitions of a random LDS run in any order, serially or as interleaved threads, through the function or the command line; files and ground truth compared with the monolithic run, completeness claims checked at every switch; the configurations handed to nanoGPT trainings by any partition of its command line are compared with one run's.",
    note="nanoGPT's training script is a recording stub. Concurrent partitions are threads of one simulated process with private training randomness.",
    real=RET, stub=CORE_STUB + TRAIN, quick_runs=280)
add("R02", [("interrupted", R.r02_interrupted, 1)],
    rule="LDS retraining killed or failed at a seeded file operation, statement or training call, over an empty directory or an earlier run; the directory is checked for false claims, then the rerun is compared with an uninterrupted one.",
    note="With partitions the earlier run may only differ in settings a partition call can see (seed, ratio, totals, runs, data length).",
    real=RET, stub=CORE_STUB + TRAIN, assumptions=[EXPL, PRE, DUR], quick_runs=1200)
add("R03", [("loo", R.r03_loo, 1)],
    rule="LOO retraining split over calls in any order or interleaving with death or failure at a seeded point; metadata, models and ground truth checked against the expected model of every index, then completed by a rerun.",
    note="Oracle is direct training without the removed index.",
    real=RET, stub=CORE_STUB + TRAIN, assumptions=[EXPL, PRE, DUR], quick_runs=480)
add("R04", [("ground-truth", R.r04_ground_truth, 1)],
    rule="ground truth computed from directories that were damaged, listed in seeded order, or read with failing operations or target functions; it must equal the model-by-model oracle or raise.",
    note="An index file cut inside its last number is excluded (undetectable).",
    real=RET, stub=CORE_STUB + TRAIN, quick_runs=1600)
add("R05", [("nanogpt", R.r05_nanogpt, 1)],
    rule="histories of the nanoGPT retraining command whose preparation or trainings fail, are killed or meet failing file operations, then a rerun; every model directory is compared with that of an undisturbed run, and a failed job must fail the command.",
    note="The training script is run by the simulator in the same process instead of an interpreter of its own, with the shipped configuration shrunk to a tiny model.",
    real=["dattri.script.dattri_retrain_nanogpt, dattri/benchmark/models/nanoGPT (train.py, configurator.py, model.py): real code"],
    stub=CORE_STUB + ["subprocess: the simulator runs the training script itself, or lets it fail", "data preparation (B03): its files are laid out beforehand"],
    assumptions=[EXPL, PRE, DUR], quick_runs=300)
add("B01", [("benchmark", N.b01_benchmark, 1)],
    rule="histories of load / redownload calls against a simulated server that may publish a new version, with faults at any request, chunk or file operation and process death; every accepted result compared byte for byte.",
    note="A 404 is a statement that the file is not published, so it is used consistently, not as a transient fault.",
    real=BEN, stub=CORE_STUB + NET, assumptions=[EXPL, PRE, DUR], quick_runs=1000)
add("B02", [("maestro", N.b02_maestro, 1)],
    rule="histories of dataset creation against a simulated server with faults at any request, chunk, file operation or preprocessing step and process death; accepted datasets compared sample by sample with the oracle under seeded listing order and generator state.",
    note="The archive is a small synthetic MAESTRO zip with real MIDI files.",
    real=MAE, stub=CORE_STUB + NET, assumptions=[EXPL, PRE, DUR], quick_runs=1000)
add("B03", [("characters", N.b03_chars, 1)],
    rule="histories of preparation runs against a simulated server with faults at the request, any chunk, file operation or step and process death; the files left by a run that did not fail, and by a faultless rerun, are compared with the encoding of the published text.",
    note="Text and alphabet are drawn; writes of numpy.tofile fail at file creation only (its data goes through C stdio).",
    real=["dattri/benchmark/datasets/shakespeare_char/prepare.py and tinystories/prepare.py: real code, executed as scripts from a scratch directory"], stub=CORE_STUB + NET, assumptions=[EXPL, PRE, DUR], quick_runs=800)
add("B04", [("training", W.b04_training, 1)],
    rule="histories of seeded benchmark trainings and evaluations in one process, with foreign use of the global generators, data sets augmented through them, and operations aborted by failing data accesses, allocations and file reads; every model, sample sequence and loss compared with the same call alone in its own process.",
    note="MNIST LR and MLP, CIFAR ResNet9, ImageNet ResNet18 and MAESTRO Music Transformer on tiny synthetic data; GPT-2 needs downloaded weights. Trainings run one at a time (they use the global generators by design).",
    real=["dattri/benchmark/datasets/*/ training and loss functions, benchmark models: real code"],
    stub=CORE_STUB + ["data sets: tiny synthetic ones that fail or reseed at seeded accesses", "tensor allocations: fail at a seeded operation"],
    quick_runs=160)
add("M01", [("brittleness", T.m01_brittleness, 1)],
    rule="brittleness searches over scripted training and evaluation functions, one after the other or as simulated threads sharing the loaders, with exceptions at seeded callbacks (training, evaluation, data access), foreign use of the global generators and repetition after each failure; training sets and answers compared with a table.",
    note="Scores are distinct and searched k ascend; the training and evaluation functions are stand-ins with a scripted outcome.",
    real=["dattri.metric brittleness search, dattri.benchmark.utils.SubsetSampler, torch data loaders: real code, statement-level preemption of the search"],
    stub=CORE_STUB + TRAIN, quick_runs=3000)
CALL = ["user model, loss / target functions, checkpoint loading, data loaders: small deterministic torch stand-ins that count, fail or disturb at seeded callbacks"]
ALL = ["TracIn, TRAK, IF (explicit, CG, LiSSA, Arnoldi, DataInf, EK-FAC), RPS, block-projected IF / LoGra / FactGraSS attributors, AttributionTask, projections: real code"]
DVE = ["dattri.algorithm.dvemb: real code, real torch optimisers and autograd"]
SER = "Operations of different attributors interleave at operation granularity in one thread (the library makes no claim for concurrent use of one task); disk-offload variants additionally run their threads under the scheduler."
add("P01", [("projections", J.p01_projections, 1)],
    rule="several random and Arnoldi projectors in one process, called in a seeded order with changing ensembles and batches under foreign use of the global generators and failing allocations; every answer is compared with that of a projector made for this call alone in its own process.",
    note="CPU projectors only (the CUDA ones cannot run here); 1e-3 relative to the largest entry.",
    real=["dattri.func.projection (CPU projectors, random_project, arnoldi_project): real code"],
    stub=CORE_STUB[:1] + ["tensor allocations: fail at a seeded operation"],
    assumptions=[EXPL, "Projectors are called from one thread; interleaving is at call granularity."], quick_runs=1500)
add("A01", [("retry", A.a01_retry, 5), ("dvemb", V.a01_dvemb, 1)],
    rule="random attributor family, task and operation program with exceptions (also KeyboardInterrupt-like) raised at seeded callbacks of data loader, loss/target/probability function and checkpoint loader, or with allocations that fail; every repeated operation, and use after a failed cache, compared with a never-aborted run.",
    note="Oracle is the same program on a private task in an undisturbed process; LiSSA is reseeded before each operation, as it samples from the global generator.",
    real=ALL + DVE + DISK, stub=CORE_STUB + CALL, assumptions=[EXPL, SER], quick_runs=340)
add("A02", [("clean", A.a02_clean_model, 4), ("dvemb", V.a02_dvemb, 1)],
    rule="after construction and after every operation that returned or was aborted at a seeded callback or by a failed allocation, the model's hooks, forward methods, outputs, modes, flags and parameters are inspected.",
    note="Training mode is compared where loading a checkpoint is the user's own function (the default one switches to eval mode by design).",
    real=ALL + DVE + DISK, stub=CORE_STUB + CALL, assumptions=[EXPL, SER], quick_runs=520)
add("A03", [("interleaved", A.a03_interleaved, 1)],
    rule="2-3 attributors of random families over one task (or one model with different checkpoint lists), programs interleaved by a seeded operation scheduler; every result compared with the same attributor alone on a private task.",
    note="Oracle is the isolated run of each program in its own process.",
    real=ALL + DISK, stub=CORE_STUB + CALL, assumptions=[EXPL, SER], quick_runs=190)
add("A04", [("attributors", A.a04_attributors, 5), ("projectors", A.a04_projectors, 2), ("retraining", A.a04_retraining, 2), ("dvemb", V.a04_dvemb, 2)],
    rule="a seeded foreign component reseeds and draws from the Python, NumPy and PyTorch global generators at every callback and between calls; results compared with an undisturbed run, and generator states compared before and after undisturbed operations.",
    note="Seeded LDS retraining reseeds the global generators by design and is only checked for immunity.",
    real=ALL + DVE + RET[:1], stub=CORE_STUB + CALL + TRAIN, assumptions=[EXPL, SER], quick_runs=600)
add("A06", [("concurrent", A.a06_concurrent, 1)],
    rule="2-3 attributors of random families over tasks, models and cache directories of their own run in threads that are preempted at any statement of dattri and any callback, some operations aborted by an exception and repeated; every result is compared with the same attributor alone in its own process.",
    note="Preemption between statements of dattri and at user callbacks, locks and file operations, not inside torch.",
    real=ALL + DISK, stub=CORE_STUB + CALL, assumptions=[EXPL], quick_runs=800)
add("A05", [("trajectory", V.a05_trajectory, 1)],
    rule="random trajectory recorded through the context or directly, with steps failing at seeded stages, reused buffers, earlier trajectories, failed embedding passes and a second recorder; parameters compared bit for bit with training without recording, embeddings with the recursion over autograd gradients.",
    note="Without projection the oracle is an independent implementation of the recursion; with projection it is an undisturbed direct recording by the same tree.",
    real=DVE, stub=CORE_STUB[:2] + CALL, assumptions=[EXPL, "Training loops are single-threaded; failures are exceptions at forward, backward, between backward and step, and in the recorder's loss function."], quick_runs=1250)
