"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
P = []
DIO = "dattri/algorithm/block_projected_if/offload/disk_io/"
BP = "dattri/algorithm/block_projected_if/"


def p(id, title, statement, over, text, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=x.strip(), where=files[0]) for x in state.split(',')],
                               observe_at=[observe], hook_needed=hook)))


# ---------------------------------------------------------------- disk offload
p("D01", "Disk offload is transparent: same scores as in-memory under any schedule",
  "For a fixed model, data, seeds and projection, the scores a block-projected influence attributor (including LoGra and FactGraSS) returns from attribute() and compute_self_attribution() with offload='disk' equal those of offload='none' and offload='cpu'. This holds for every chunk size, batch size and number of batches, however the background writer, saver and prefetch threads are scheduled, however slow individual disk operations are, and however the clock jumps.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of caller, write workers, preconditioner saver pool and prefetch threads; all I/O delays and wall-clock jumps; all chunk/batch geometries",
  "No existing test runs offload='disk' at all; a unit test could sample one schedule of ~10 threads on one geometry.",
  [BP + "block_projected_if.py", BP + "offload/disk.py", DIO + "manager.py", DIO + "memory_map.py", DIO + "prefetch_dataset.py"],
  [("async chunk write pipeline", DIO + "manager.py"), ("prefetching chunk loader", DIO + "prefetch_dataset.py"), ("attributor pipeline", BP + "block_projected_if.py")],
  "chunk buffers, write queue, pending set, prefetch cache, chunk files", "return values of attribute() / compute_self_attribution()")
p("D02", "After the write barrier every stored batch is durable, intact, exactly once",
  "Once finish_batch_range_processing() or wait_for_async_operations() returns normally at the end of a batch range, every gradient, IFVP and preconditioner stored through the disk offload is readable bit-for-bit: by direct retrieval, exactly once by the chunk loader, and by a brand-new manager opened on the same directory after the process dies right then. This holds for every thread schedule and for every mix of batch sizes, including chunks that overflow the chunk buffer.",
  ["schedules", "crash_points", "configurations"],
  "all interleavings of writer threads with the caller, all I/O delays, all batch-size sequences including buffer overflow, process death at the instant the barrier returns",
  "Tests never call the barrier on the disk strategy and cannot choose the one interleaving in which an early-returning barrier is visible.",
  [DIO + "manager.py", DIO + "memory_map.py", BP + "offload/disk.py"],
  [("write barrier", DIO + "manager.py"), ("chunk file write", DIO + "memory_map.py")],
  "write queue, pending-write tracking, chunk files", "retrieve_gradients/retrieve_ifvp/retrieve_preconditioner, create_gradient_dataloader, new manager on same cache_dir")
p("D03", "A crash while caching never yields wrong scores after restart",
  "If the process dies at any instant during cache(), compute_preconditioners(), compute_ifvp() or attribute() with offload='disk', a new process on the same cache_dir never gets wrong data back: each batch it reads is either exactly one that was stored or is reported absent or as an error. Running cache() and attribute() again on that directory returns the same scores as on an empty directory.",
  ["crash_points", "schedules", "histories"],
  "process death at every file-system step (file created but not filled, half-written, data without metadata, metadata half-written), any thread schedule, up to several successive crashes",
  "Unit tests cannot kill the process between two file operations of a background thread and restart on the leftovers.",
  [DIO + "memory_map.py", DIO + "manager.py", BP + "core/metadata.py", BP + "block_projected_if.py"],
  [("chunk data + metadata files", DIO + "memory_map.py"), ("batch metadata file", BP + "core/metadata.py")],
  "chunk_*.mmap, chunk_*_metadata.json, batch_metadata.json, layer_*.pt", "reads and scores of a restarted attributor")
p("D04", "Scores never depend on what earlier runs left in the cache directory",
  "attribute() and compute_self_attribution() with any offload mode return the same scores whether the cache directory (or, when none is given, the working directory) is empty or holds leftovers of any earlier completed, failed or crashed run. Earlier runs may have used another dataset, number of samples, batch size, chunk size, model, projection dimension or Hessian option.",
  ["histories", "configurations", "crash_points"],
  "all sequences of earlier runs with different configurations on the same directory, each completed, failed or killed at an arbitrary point",
  "Tests run each configuration once from a clean state; the failure needs two runs whose chunk or batch geometry differs.",
  [BP + "block_projected_if.py", BP + "core/metadata.py", DIO + "manager.py", DIO + "prefetch_dataset.py"],
  [("re-initialisation of the cache", BP + "block_projected_if.py"), ("metadata reuse", BP + "core/metadata.py")],
  "files left in cache_dir", "scores of the later run")
p("D05", "A failed disk write is reported and never hangs or corrupts scores",
  "If any file write or file creation under the cache directory fails (disk full, I/O error, too many open files, short write), the call in progress or the next barrier raises an error, or else the result is nevertheless complete and correct; no call silently returns incomplete or wrong scores. Every call terminates within bounded time, whichever write fails and whichever thread performs it, and after the fault clears a new cache() returns correct scores.",
  ["fault_sequences", "schedules"],
  "any subset of write-side file operations failing with any errno, on any thread, under any schedule",
  "Tests inject no I/O errors; a background thread's exception is invisible to the foreground call they assert on.",
  [DIO + "manager.py", DIO + "memory_map.py", BP + "offload/disk.py", BP + "block_projected_if.py", BP + "core/metadata.py"],
  [("write worker error handling", DIO + "manager.py"), ("preconditioner saver futures", DIO + "manager.py")],
  "pending-write tracking, futures", "exceptions from / scores of cache() and attribute()")
p("D06", "A failed or corrupt disk read is reported, never silently dropped",
  "If reading cached gradients, IFVPs, preconditioners or their metadata fails or finds a missing or truncated file, the consuming call (compute_preconditioners, compute_ifvp, attribute, compute_self_attribution or iteration of a chunk loader) raises, or retries and delivers the true data. It never treats unreadable data as empty, zero or absent and returns scores without it.",
  ["fault_sequences", "schedules"],
  "any read-side file operation failing or file damaged at any point of the pipeline, seen first by the prefetch thread or by the consumer",
  "Tests inject no read errors, and the handling path lives partly in a background thread.",
  [DIO + "prefetch_dataset.py", DIO + "memory_map.py", DIO + "manager.py", BP + "block_projected_if.py"],
  [("prefetch error handling", DIO + "prefetch_dataset.py"), ("chunk discovery", DIO + "prefetch_dataset.py")],
  "prefetch cache, chunk files", "exceptions from / results of the consuming call")
p("D07", "Concurrent callers of one disk offload never mix, lose or duplicate batches",
  "When several caller threads store distinct batches and retrieve batches through one disk offload concurrently, every store either succeeds or raises, no call deadlocks, and at the barrier each successfully stored batch is present exactly once with its own values. A retrieve running concurrently with stores returns either exactly the batch that was stored or reports it as not (yet) available, never another batch's rows or a mixture.",
  ["schedules", "histories"],
  "all interleavings, at statement granularity, of caller threads, write workers and readers over shared buffers, pools and caches; more live chunks than pooled buffers",
  "Tests are single-threaded; races on the shared buffers need a specific statement interleaving.",
  [DIO + "manager.py"],
  [("buffer pool", DIO + "manager.py"), ("per-chunk locking", DIO + "manager.py"), ("read cache", DIO + "manager.py")],
  "buffer pools, chunk buffers, read cache", "history of store/retrieve calls and final contents")
p("D08", "The prefetching loader delivers each requested batch exactly once, unaltered",
  "Iterating a chunk loader created on a quiescent cache yields every stored batch of the requested range exactly once and nothing else, with row mappings that select exactly that batch's rows, for every prefetch-thread schedule, prefetch depth, loader batch size, batch range and read delay. Two loaders over gradients and IFVPs of the same batches, stored in batch order and iterated in lock-step, cover the same batches at each step; early abandonment, repeated iteration or random access do not change what is delivered, and the number of chunks held in memory by the prefetcher stays bounded regardless of the number of chunks.",
  ["schedules", "configurations", "histories"],
  "all interleavings of the prefetch thread with the consumer, any slow read, any loader geometry including more chunks than the prefetch window",
  "No test builds a chunk loader on disk; a lost or duplicated chunk requires the prefetcher to race ahead of or behind the consumer.",
  [DIO + "prefetch_dataset.py", DIO + "memory_map.py"],
  [("prefetch worker and cache eviction", DIO + "prefetch_dataset.py"), ("range filtering", DIO + "memory_map.py"), ("collation", DIO + "prefetch_dataset.py")],
  "prefetch cache, current index", "sequence of (tensor, mapping) items delivered")
p("D09", "Dropping a disk offload or loader stops its threads and loses no queued write",
  "Once a disk offload manager or a chunk loader is no longer referenced, its background threads stop within bounded time and stop touching the file system, so repeated attribution in one process does not accumulate threads. Writes already handed over before the drop either reach the disk intact or were never acknowledged by a barrier.",
  ["schedules", "histories"],
  "any point of dropping relative to the background threads' progress, any number of repeated attributions",
  "Tests end the process; nobody counts the threads left after an object is dropped.",
  [DIO + "manager.py", DIO + "prefetch_dataset.py"],
  [("worker shutdown", DIO + "manager.py"), ("prefetch thread shutdown", DIO + "prefetch_dataset.py")],
  "daemon threads, executor threads", "live simulated threads and file-system activity after the drop")
p("D10", "All offload strategies behave as one map over any operation history",
  "After any history of store, re-store, retrieve, loader iteration, barrier, clear_cache and restart operations, the 'none', 'cpu' and 'disk' offload strategies answer retrieve, has_ifvp, has_preconditioners and loader queries like one simple map from (kind, batch) to the last stored value. For 'disk', reads follow a write barrier and a re-store repeats a whole batch range with the same batch layout after a barrier. A value stored again replaces the old one in every later read, and after clear_cache() nothing stored before is ever returned.",
  ["histories", "schedules"],
  "all interleaved operation histories, with barriers between conflicting operations for the disk strategy, under any background schedule",
  "Tests only exercise a single store-then-use pass of the in-memory strategies.",
  [BP + "offload/disk.py", BP + "offload/cpu.py", BP + "offload/memory.py", DIO + "manager.py"],
  [("read cache coherence", DIO + "manager.py"), ("clear_cache", BP + "offload/disk.py")],
  "in-memory dictionaries, read cache, chunk files", "answers of the offload interface")
p("D12", "Batch metadata on disk is replaced atomically and always tiles the samples",
  "At every instant and after a crash or failed write at any point, the batch metadata file of a cache directory is absent or a complete earlier or current version, never partial. The mapping from batches to sample ranges that a caller obtains, in the same process or after reloading, covers exactly the samples of the most recently initialised dataset contiguously in batch order, under any interleaving of concurrent updates and saves.",
  ["crash_points", "schedules", "fault_sequences"],
  "process death or I/O error at any file operation of a save; interleaved add/save/reload from several threads; any batch geometry",
  "Tests never interrupt a save nor reload metadata written for another geometry.",
  [BP + "core/metadata.py"],
  [("temp file + rename", BP + "core/metadata.py"), ("dataset initialisation", BP + "core/metadata.py")],
  "batch_metadata.json", "file content at every step and get_batch_to_sample_mapping()")
p("D13", "Running out of memory in the offload machinery is an error, never wrong data",
  "If an allocation fails at any point while gradients, IFVPs or preconditioners are stored, written in the background, read, iterated over or turned into scores, in whichever thread it happens, the call or the next write barrier raises, or the result is complete and exact. No thread hangs or leaves another one waiting for ever. Once memory is available again, repeating the pass (also on the same offload object after clearing it) gives the results of a run that never ran short.",
  ["fault_sequences", "schedules"],
  "any tensor operation, thread start or file mapping as the allocation that fails, one or several, in the calling thread or any background thread, under any schedule",
  "Tests never let an allocation fail, least of all in one chosen background thread.",
  [DIO + "manager.py", DIO + "memory_map.py", DIO + "prefetch_dataset.py", BP + "offload/disk.py", BP + "offload/cpu.py", BP + "block_projected_if.py"],
  [("write workers' error path", DIO + "manager.py"), ("prefetch thread's error path", DIO + "prefetch_dataset.py")],
  "chunk buffers, write queue, chunk files", "errors raised, answers of the offload interface, scores")
# ---------------------------------------------------------------- retraining
p("R01", "Partitioned LDS retraining equals one monolithic run in any order",
  "Splitting LDS retraining into partitions (by start_id / num_subsets / total_num_subsets, or the command line's partition option) and running them in any order, serially or interleaved, produces the same subset indices and model files as a single run with the same seed. When all partitions have finished, the directory's metadata describes all subsets and the ground truth computed from it equals that of the single run; before that, no metadata claims completeness. The nanoGPT retraining command likewise trains the same models with the same settings however its range is partitioned.",
  ["schedules", "configurations", "histories"],
  "all ways to split the subsets into equal partitions, all orders and file-level interleavings of the partitions",
  "The only retraining tests run one unpartitioned call.",
  ["dattri/model_util/retrain.py", "dattri/script/dattri_retrain.py", "dattri/script/dattri_retrain_nanogpt.py", "dattri/metric/ground_truth.py"],
  [("partition bookkeeping", "dattri/model_util/retrain.py"), ("CLI partition arguments", "dattri/script/dattri_retrain.py")],
  "retrain directory", "directory contents and calculate_lds_ground_truth()")
p("R02", "Interrupted LDS retraining never looks complete and a rerun repairs it",
  "If LDS retraining is killed or hits an I/O or training error at any point, the directory never ends up with metadata that claims subsets whose indices or model files are missing, truncated or from another run. Re-running the same call afterwards yields exactly the directory contents an uninterrupted run produces. An earlier run in the same directory may have differed in seed, ratio, number of subsets or runs, or data length.",
  ["crash_points", "fault_sequences"],
  "process death or error at every file operation and training call, in fresh directories and over an earlier completed run, with or without partitions",
  "Tests never interrupt retraining.",
  ["dattri/model_util/retrain.py", "dattri/metric/ground_truth.py"],
  [("write order of models, indices and metadata", "dattri/model_util/retrain.py")],
  "retrain directory", "calculate_lds_ground_truth() on the directory after the fault and after the rerun")
p("R03", "LOO retraining directories are complete, loadable and safe to interrupt",
  "After leave-one-out retraining of a set of indices, in one call or split over several calls in any order or interleaving, each removed index has exactly the model trained without it, the metadata is loadable with a safe YAML loader and lists every index retrained in that directory. A run that was killed or failed at any point leaves no index that metadata or ground-truth computation treats as finished while its model file is missing or truncated, and a rerun completes it.",
  ["crash_points", "schedules", "configurations", "fault_sequences"],
  "all splits of the indices over calls, all orders and interleavings, death or I/O error at every file operation",
  "retrain_loo has no test at all.",
  ["dattri/model_util/retrain.py", "dattri/metric/ground_truth.py"],
  [("LOO metadata", "dattri/model_util/retrain.py"), ("directory scan", "dattri/metric/ground_truth.py")],
  "retrain directory", "metadata.yml via yaml.safe_load and calculate_loo_ground_truth()")
p("R04", "Ground truth from a retrain directory is exact or an error",
  "Computing LDS or LOO ground truth from a retrain directory either returns, row by row, the target values of exactly the models stored there paired with exactly the indices they were trained on, or raises. Missing, truncated or unreadable files, arbitrary directory-listing order, and errors in the target function never lead to a silently zero-filled, misaligned or partially averaged result. (A text index file cut exactly inside its last number is indistinguishable from a shorter number and is excluded.)",
  ["fault_sequences", "configurations", "histories"],
  "any read failing or file missing/truncated at any point, any listing order, any number of subsets, runs and gaps in the index numbering",
  "Tests compute ground truth on one intact directory.",
  ["dattri/metric/ground_truth.py"],
  [("row/index pairing", "dattri/metric/ground_truth.py")],
  "retrain directory", "return value of calculate_lds_ground_truth / calculate_loo_ground_truth")
# ---------------------------------------------------------------- benchmark
p("R05", "nanoGPT retraining reports failures and can be rerun over what they left",
  "When the nanoGPT retraining command ends normally, each model directory of its partition holds the checkpoint of the finished training and a list of exactly the data blocks that training drew, both determined by seed, settings and data and equal to those of a run in an empty directory. If the data preparation or a training fails or is killed, or a file operation fails, at any point, the command fails instead of going on to the next model. Rerunning it over whatever earlier, failed or killed runs (also with other settings) left behind gives what an uninterrupted run gives.",
  ["fault_sequences", "crash_points", "histories"],
  "any preparation or training that fails or dies, any failing file operation, death at any operation, in any sequence of runs over one directory",
  "Tests never run the command.",
  ["dattri/script/dattri_retrain_nanogpt.py", "dattri/benchmark/models/nanoGPT/train.py"],
  [("configuration and start of trainings", "dattri/script/dattri_retrain_nanogpt.py"), ("sample indices, checkpoints", "dattri/benchmark/models/nanoGPT/train.py")],
  "model directories, temporary configurations", "ckpt.pt and indices.txt after the command, its exit")
p("B01", "Benchmark download is all-or-nothing and retryable",
  "Loading a benchmark over an unreliable network and disk (refused connection, HTTP error, truncated body, disk full, process death at any point) either returns the complete and intact benchmark or raises. A later plain call, once the fault is gone, returns the complete benchmark byte-for-byte as the server published it, without needing redownload; a failed redownload never leaves a mix of old and new files that a later call accepts.",
  ["fault_sequences", "crash_points", "histories"],
  "faults at every request, every received chunk and every file operation, in any sequence of load / redownload calls",
  "Tests never call the downloader (it needs the network).",
  ["dattri/benchmark/load.py"],
  [("download and completeness check", "dattri/benchmark/load.py")],
  "download directory", "return value of load_benchmark() and files it points to")
p("B02", "A broken MAESTRO download or preprocessing is never taken for the data set",
  "Creating the MAESTRO datasets over an unreliable network and disk (refused connection, HTTP error, truncated archive or record, disk full, process death at any point of download, unpacking or preprocessing) either returns the complete train/validation/test data or raises. A damaged archive or record raises instead of being skipped; a later faultless call returns the complete data. The samples are the same in every process, for every directory-listing order and state of the global random generators.",
  ["fault_sequences", "crash_points", "histories"],
  "faults at every request, received chunk, file operation and preprocessing step, in any sequence of calls, any listing order and ambient random state",
  "Tests never download or preprocess MAESTRO (it needs the network).",
  ["dattri/benchmark/datasets/maestro/data.py", "dattri/benchmark/models/MusicTransformer/dataset/e_piano.py"],
  [("download, unpack, preprocess", "dattri/benchmark/datasets/maestro/data.py")],
  "dataset directory", "returned datasets and their samples")
p("B03", "Prepared character data encodes the whole published text or is an error",
  "Preparing the Shakespeare or TinyStories character data (over an unreliable network and disk: refused connection, HTTP error, truncated body, disk full, process death at any point) either leaves training, validation and vocabulary files that together encode exactly the whole source text, or fails. Repeating the preparation once the fault is gone leaves the exact files, whatever an earlier failed or killed run left behind.",
  ["fault_sequences", "crash_points", "histories"],
  "faults at the request, any received chunk, file operation or statement, in any sequence of runs",
  "Tests never run the preparation scripts (they need the network).",
  ["dattri/benchmark/datasets/shakespeare_char/prepare.py", "dattri/benchmark/datasets/tinystories/prepare.py"],
  [("download, encode, export", "dattri/benchmark/datasets/shakespeare_char/prepare.py")],
  "input.txt and exported files", "train.bin, val.bin, meta.pkl after the script ended")
p("B04", "Seeded benchmark training and evaluation repeat exactly, whatever ran before",
  "A seeded benchmark training function (MNIST logistic regression and MLP, CIFAR ResNet9, ImageNet ResNet18, MAESTRO Music Transformer) given the same data and seed visits the same samples in the same order, with the same augmentations from any global generator, and returns the same model, whatever state the global random generators are in when it is called, whichever trainings and evaluations ran before in the process, and whether those were aborted by an error. Evaluating saved weights gives the same losses whatever the generators do meanwhile, also from several threads, and leaves the file unchanged. A failing data access or an unreadable weights file is raised, never skipped, and leaves nothing behind that changes a later call.",
  ["histories", "fault_sequences", "schedules"],
  "any history of trainings and evaluations, any foreign use of the global generators, any data access, allocation or file read that fails",
  "Tests train once in a fresh process, on one seed and undisturbed.",
  ["dattri/benchmark/datasets/mnist/mnist_lr.py", "dattri/benchmark/datasets/mnist/mnist_mlp.py", "dattri/benchmark/datasets/cifar/cifar_resnet9.py", "dattri/benchmark/datasets/imagenet/imagenet_resnet18.py", "dattri/benchmark/datasets/maestro/maestro_musictransformer.py"],
  [("seeding, training loop, loss loop", "dattri/benchmark/datasets/mnist/mnist_lr.py")],
  "global random generators, gradient mode, model mode, weights file", "returned models and losses")
p("M01", "The brittleness search removes exactly the top-k samples and never guesses",
  "For each searched k in order the brittleness search trains on exactly the training subset without its k highest-scored samples, each once, evaluates that model in evaluation mode, and returns the first k whose prediction flips, or None. A training, evaluation or data-access call that fails at any step is reported, never taken for flipped or not flipped; loaders and scores are left unchanged, so that repeating the search, or running several over the same loaders, also concurrently and under foreign use of the global random generators, gives the same answer.",
  ["fault_sequences", "schedules", "histories"],
  "any callback at which an exception strikes, any interleaving of searches sharing the loaders, any foreign use of the generators",
  "Tests never run the search.",
  ["dattri/metric/britteness.py"],
  [("top-k removal and flip test", "dattri/metric/britteness.py")],
  "sampler indices of the shared training loader", "return value and the training sets seen by the training function")
# ---------------------------------------------------------------- projections
p("P01", "A random projection depends only on its settings, ensemble id and input",
  "What a CPU random projection returns for a feature batch depends only on its seed, type, dimensions, the ensemble id of the call and the features: not on earlier calls, other ensemble ids or batches used in between, other projectors in the process, foreign use of the global random generators, or an earlier call that failed for lack of memory. Different ensemble ids draw different randomness, and each row is projected independently of the other rows of its batch; the same holds, where it applies, for the Arnoldi projection. Inputs and the results of earlier calls are left unchanged.",
  ["histories", "schedules", "fault_sequences"],
  "any interleaving of calls to any number of projectors with any ensemble ids and batches, any foreign draws from the global generators in between, any allocation that fails within a call",
  "Tests call a fresh projector once or twice with one ensemble id.",
  ["dattri/func/projection.py"],
  [("randomness of an ensemble id", "dattri/func/projection.py")],
  "generator states, projection matrix or mask, sketch buffer", "returned projections")
# ---------------------------------------------------------------- attributors
p("A01", "An operation aborted by a fault can be retried with a clean result",
  "If cache(), attribute() or self-attribution of any attributor is aborted at any point by an exception from the data loader, the user's loss, target or distance function, checkpoint loading, or a failed memory allocation, then repeating the operation on the same attributor and task gives exactly the result of a never-aborted attributor. A later attribute() call issued without repeating a failed cache() raises or returns that same result, never scores built from the partial cache.",
  ["fault_sequences", "histories"],
  "any callback invocation at which the exception strikes, any number of failures, for every attributor family and mode",
  "Tests only run the happy path; the state left by an exception at the k-th batch is never exercised.",
  ["dattri/algorithm/base.py", "dattri/algorithm/tracin.py", "dattri/algorithm/trak.py", "dattri/algorithm/influence_function.py", "dattri/algorithm/dvemb.py", "dattri/algorithm/rps.py", "dattri/algorithm/data_shapley.py", BP + "block_projected_if.py", "dattri/task.py"],
  [("cached state of attributors", "dattri/algorithm/"), ("checkpoint bookkeeping", "dattri/task.py")],
  "full_train_dataloader and cached statistics, current checkpoint", "results of later calls vs. a fresh attributor")
p("A02", "Attributors leave the user's model unhooked and unaltered, even on failure",
  "After any attributor operation returns or is aborted by an exception at any point, the task's model has no leftover forward/backward hooks or patched forward methods, computes the same outputs for the same parameters, and has the same training mode and requires_grad flags as before (or as loading a checkpoint leaves them). Its parameters are those of one of the task's checkpoints (or, for training-time recording, exactly what the user's training step made them).",
  ["fault_sequences", "histories"],
  "any callback invocation at which an exception strikes, any order of operations, every attributor that instruments the model",
  "Tests discard the model after a successful run.",
  [BP + "core/hook.py", BP + "block_projected_if.py", "dattri/algorithm/dvemb.py", "dattri/algorithm/influence_function.py", "dattri/func/fisher.py", "dattri/task.py"],
  [("hook registration and removal", BP + "core/hook.py"), ("factor hooks", "dattri/algorithm/dvemb.py")],
  "module hooks, patched forwards", "model inspection and forward outputs")
p("A03", "Interleaved use of attributors sharing a task equals isolated use",
  "When several post-training attributors share one attribution task (or one model) and their cache, attribute and self-attribute operations are interleaved in any order and repeated any number of times, each result equals that of the same attributor used alone on a private task. No operation depends on which checkpoint, gradient function or layer selection another attributor used last.",
  ["schedules", "histories", "configurations"],
  "all interleavings of operations of two or more attributors over shared mutable task state, with differing checkpoints, layer selections, loss and target functions",
  "Tests give each attributor its own task and call it once.",
  ["dattri/task.py", "dattri/algorithm/base.py", "dattri/algorithm/tracin.py", "dattri/algorithm/trak.py", "dattri/algorithm/influence_function.py", "dattri/algorithm/rps.py", BP + "block_projected_if.py"],
  [("checkpoint switching", "dattri/task.py"), ("gradient-function memo", "dattri/task.py")],
  "current checkpoint index, memoised gradient functions", "results vs. isolated runs")
p("A04", "Seeded projections are immune to and harmless for ambient randomness",
  "With a fixed projection seed, the scores of every projection-based attributor (TracIn, TRAK, block-projected IF, LoGra, FactGraSS, DVEmb) and random_project itself are the same whatever state the global random generators are in and whatever other components draw from them between its steps, and using them leaves those generators' states as they were. The same immunity holds for the subsets and models of seeded LDS retraining.",
  ["schedules", "histories"],
  "any interleaving of foreign draws from and reseedings of the global Python, NumPy and PyTorch generators between any two callbacks",
  "Tests run with one fresh generator state and no foreign draws.",
  ["dattri/func/projection.py", BP + "core/compressor.py", "dattri/algorithm/dvemb.py", "dattri/algorithm/trak.py", "dattri/algorithm/tracin.py", "dattri/model_util/retrain.py"],
  [("projection generators", "dattri/func/projection.py"), ("sparsifier masks", BP + "core/compressor.py")],
  "global RNG state", "scores under perturbed generators")
p("A05", "Recording gradients during training (DVEmb) neither disturbs nor misses a step",
  "Recording a training trajectory for data-value embedding through the recording context gives the same embeddings and scores as recording the same steps directly, and the trained parameters are the same as training without recording. A step that fails inside the context, also for lack of memory, raises its own error, records nothing, leaves the model usable, and re-running the step continues as if it had never failed, at any step of any epoch. The embeddings are those of the steps since the record was last cleared, also after an earlier trajectory, a failed embedding pass, or when the loop reuses its batch buffers.",
  ["fault_sequences", "histories"],
  "any step at which forward, loss or backward fails, any number of failures, any epoch/step layout and factorisation mode",
  "Tests run an unbroken short trajectory and do not compare training with and without recording.",
  ["dattri/algorithm/dvemb.py"],
  [("recording context", "dattri/algorithm/dvemb.py")],
  "recorded gradients, learning rates, indices, hooks", "embeddings/scores and model parameters")
p("A06", "Attributors over separate tasks can run in several threads at once",
  "When attributors whose tasks, models, data loaders and cache directories are separate (TracIn, TRAK, RPS, KNN Shapley, DataInf, EK-FAC, or block-projected influence incl. LoGra and FactGraSS with any offload strategy) run operations in different threads of one process at the same time, each result equals that of the same attributor used alone, whichever thread is preempted where. The same holds when operations in one thread are aborted by an exception and repeated. No thread blocks another for ever.",
  ["schedules", "fault_sequences", "histories"],
  "any preemption of any thread at any line, two or three attributors of any families and settings (also twins that differ in parameters, data and loss), any aborted operation",
  "Tests run one attributor at a time; process-wide state shared by mistake shows only when two threads interleave inside an operation.",
  ["dattri/task.py", "dattri/algorithm/tracin.py", "dattri/algorithm/trak.py", "dattri/algorithm/block_projected_if/core/hook.py", "dattri/func/projection.py", "dattri/func/utils.py"],
  [("hook manager registry", "dattri/algorithm/block_projected_if/core/hook.py"), ("per-task memos of gradient functions", "dattri/task.py"), ("per-projector generators", "dattri/func/projection.py")],
  "module-level state, memos, hooks", "scores")
# ---------------------------------------------------------------- pure functions (not applicable)
pure_over = ["inputs", "configurations"]
def pure(id, title, statement, text, files, mech, why):
    p(id, title, statement, pure_over, text, why, files, mech, "none (pure function of its inputs)", "return value")
pure("N01", "Inverse-Hessian-vector products satisfy their linear systems",
     "Explicit, CG, LiSSA, DataInf, EK-FAC and Arnoldi IHVP/IFVP results approximate (H + damping I)^-1 v within the method's stated accuracy for every loss, parameter layout and vector, and collapse to the exact solution where the method is exact.",
     "all losses, parameters, vectors, dampings", ["dattri/func/hessian.py", "dattri/func/fisher.py"], [("solvers", "dattri/func/hessian.py")],
     "Tests check a few fixed matrices.")
pure("N02", "Random projections preserve inner products in expectation and shape contracts",
     "Every projector maps (n, d) features to (n, proj_dim), is linear, and preserves inner products within Johnson-Lindenstrauss bounds for every dimension, dtype and projection type.",
     "all shapes, dtypes, projection types", ["dattri/func/projection.py"], [("projectors", "dattri/func/projection.py")],
     "Tests check a few shapes.")
pure("N03", "Evaluation metrics compute the published formulas",
     "LOO correlation, LDS, mislabel-detection AUC and brittleness equal their mathematical definitions for every score matrix and ground truth, including ties and constant columns.",
     "all score / ground-truth matrices", ["dattri/metric/metrics.py", "dattri/metric/britteness.py"], [("metrics", "dattri/metric/metrics.py")],
     "Tests check hand-picked matrices.")
pure("N04", "KNN-Shapley values satisfy the Shapley axioms",
     "For every dataset, k and distance, KNN-Shapley values sum to the utility of the full set, are symmetric for identical points and zero for null players.",
     "all datasets, k, distances", ["dattri/algorithm/data_shapley.py"], [("recursion", "dattri/algorithm/data_shapley.py")],
     "One test on one dataset.")
pure("N05", "Attribution scores do not depend on data-loader batch sizes",
     "For every attributor, the score of a (train, test) pair is the same for every train and test batch size and is placed at the pair's position in the output, including self-attribution.",
     "all batch sizes and dataset sizes", ["dattri/algorithm/base.py", "dattri/algorithm/tracin.py", "dattri/algorithm/trak.py"], [("batch slicing", "dattri/algorithm/base.py")],
     "Tests use one or two batch sizes.")
pure("N06", "Hook-captured per-sample gradients equal true per-sample gradients",
     "Per-sample (compressed) gradients captured by layer hooks equal the projection of per-sample autograd gradients for every supported layer type, input rank and bias setting.",
     "all layers, shapes, inputs", [BP + "core/hook.py", BP + "core/compressor.py"], [("gradient capture", BP + "core/hook.py")],
     "Tests compare a few layers.")
pure("N07", "Parameter flattening and partial-parameter selection round-trip",
     "flatten/unflatten of parameters and partial-parameter selection are exact inverses and preserve order for every model.",
     "all models and layer selections", ["dattri/func/utils.py"], [("flatten", "dattri/func/utils.py")],
     "Tests use one model.")
pure("N08", "TracIn, TRAK, RPS and DVEmb scores equal their published estimators",
     "For every model, checkpoint set and dataset, each attributor's scores equal the estimator defined in its paper (checkpoint weights, learning rates, normalisation and signs included).",
     "all models, checkpoints, weights, data", ["dattri/algorithm/tracin.py", "dattri/algorithm/trak.py", "dattri/algorithm/rps.py", "dattri/algorithm/dvemb.py"], [("estimators", "dattri/algorithm/")],
     "Tests compare a few toy cases.")
with open(pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl", "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
print(len(P))
