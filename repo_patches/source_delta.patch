From ac707d2c6404c9841d1fdf4ae6402826c46f8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 01/36] fix: disk offload works on machines without CUDA
 (pinned buffers only with a GPU)

---
 .../algorithm/block_projected_if/offload/disk_io/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 66971ef..0d0835b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -61,7 +61,11 @@ class BufferPool:
         # Pre-allocate all buffers
         for _ in range(pool_size):
             buffer = ChunkBuffer(
-                tensor=torch.zeros(buffer_shape, dtype=dtype, pin_memory=True),
+                tensor=torch.zeros(
+                    buffer_shape,
+                    dtype=dtype,
+                    pin_memory=torch.cuda.is_available(),
+                ),
                 batch_indices=[],
                 batch_info=[],
                 current_row=0,
-- 
2.43.0


From c8804e1ccae67c18e94c8503fa74e8ad0aac5d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 02/36] fix: report failed disk-cache writes at the barrier
 instead of hanging or dropping them

---
 .../offload/disk_io/manager.py                | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 0d0835b..91919bd 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -208,7 +208,9 @@ class ChunkedDiskIOManager:
         logger.info("Started %s write workers", num_write_workers)
 
         # Pending writes tracking
-        self._pending_writes = set()  # Track chunk_ids being written
+        # One entry per submitted chunk: an overflowing chunk id is written in parts
+        self._pending_writes = []
+        self._write_errors = []  # Failures of the workers, raised at the next barrier
         self._pending_writes_lock = threading.Lock()
 
         # Read cache for recently accessed chunks
@@ -362,11 +364,16 @@ class ChunkedDiskIOManager:
                         batch_info,
                     )
 
-                    # Remove from pending writes
+                except Exception as e:
                     with self._pending_writes_lock:
-                        self._pending_writes.discard((data_type, chunk_id))
+                        self._write_errors.append(e.with_traceback(None))
+                    raise
 
                 finally:
+                    # Remove from pending writes
+                    with self._pending_writes_lock:
+                        self._pending_writes.remove((data_type, chunk_id))
+
                     # Return buffer to pool if provided (for backward compatibility)
                     if buffer is not None:
                         pool = self._get_or_create_buffer_pool(data_type)
@@ -553,7 +560,7 @@ class ChunkedDiskIOManager:
 
         # Mark as pending write
         with self._pending_writes_lock:
-            self._pending_writes.add((data_type, chunk_id))
+            self._pending_writes.append((data_type, chunk_id))
 
         # Submit to write queue without the buffer (since we already returned it)
         write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
@@ -701,6 +708,19 @@ class ChunkedDiskIOManager:
             time.sleep(0.1)
 
         self.current_batch_range = None
+        self._raise_write_errors()
+
+    def _raise_write_errors(self) -> None:
+        """Report failed background writes to the caller.
+
+        Raises:
+            RuntimeError: If any write failed since the last report.
+        """
+        with self._pending_writes_lock:
+            errors, self._write_errors = self._write_errors, []
+        if errors:
+            msg = f"{len(errors)} write(s) to the disk cache failed: {errors[0]!r}"
+            raise RuntimeError(msg) from errors[0]
 
     def _retrieve_batch_data_with_cache(  # noqa: PLR0912, PLR0914
         self,
@@ -951,10 +971,12 @@ class ChunkedDiskIOManager:
         errors = [
             future for future in self.futures if not self._check_future_result(future)
         ]
+        self.futures = []
         if errors:
             logger.warning("Some async operations failed: %s errors", len(errors))
-
-        self.futures = []
+            with self._pending_writes_lock:
+                self._write_errors.extend(future.exception() for future in errors)
+        self._raise_write_errors()
 
     @staticmethod
     def _check_future_result(future: Any) -> bool:  # noqa: ANN401
-- 
2.43.0


From 399d2d8e5076cdc730bffc90c84b5ee39b03737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 03/36] fix: store batches that exceed a disk chunk buffer;
 never queue an empty chunk

---
 .../offload/disk_io/manager.py                | 53 +++++++++++++------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 91919bd..549e4ec 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -265,8 +265,8 @@ class ChunkedDiskIOManager:
                             chunk_files[0],
                         )
                         if "layer_dims" in metadata:
+                            self.total_proj_dim = sum(metadata["layer_dims"])
                             self.layer_dims = metadata["layer_dims"]
-                            self.total_proj_dim = sum(self.layer_dims)
                             logger.info(
                                 "Loaded layer dimensions from %s metadata: %s",
                                 data_type,
@@ -443,17 +443,15 @@ class ChunkedDiskIOManager:
             batch_idx: Index of the batch to store gradients for.
             gradients: List of gradient tensors to store.
             is_test: Whether these are test gradients (currently skipped).
-
-        Raises:
-            RuntimeError: If failed to get new buffer after overflow.
         """
         if is_test:
             return  # Skip test gradients for now
 
         # Detect layer dimensions on first store
         if self.layer_dims is None:
-            self.layer_dims = [g.shape[1] if g.numel() > 0 else 0 for g in gradients]
-            self.total_proj_dim = sum(self.layer_dims)
+            layer_dims = [g.shape[1] if g.numel() > 0 else 0 for g in gradients]
+            self.total_proj_dim = sum(layer_dims)  # Set before layer_dims is visible
+            self.layer_dims = layer_dims
             logger.debug(
                 "Detected layer dimensions: %s layers, total=%s",
                 len(self.layer_dims),
@@ -513,10 +511,11 @@ class ChunkedDiskIOManager:
                 self._async_flush_chunk_buffer(buffer_key)
 
                 # Get new buffer and retry
-                buffer = pool.get_buffer(timeout=5.0)
+                buffer = None
+                if batch_size <= self.max_samples_per_chunk:
+                    buffer = pool.get_buffer(timeout=5.0)
                 if buffer is None:
-                    msg = "Failed to get new buffer after overflow"
-                    raise RuntimeError(msg)
+                    buffer = self._unpooled_buffer(batch_size)
                 self._chunk_buffers[buffer_key] = buffer
                 start_row = 0
                 end_row = batch_size
@@ -537,6 +536,27 @@ class ChunkedDiskIOManager:
             if self._is_chunk_complete("gradients", chunk_id):
                 self._async_flush_chunk_buffer(buffer_key)
 
+    def _unpooled_buffer(self, rows: int) -> ChunkBuffer:
+        """Create a buffer outside the pool, large enough for an oversized batch.
+
+        Args:
+            rows: Number of samples of the batch to store.
+
+        Returns:
+            ChunkBuffer: A buffer that does not belong to a pool.
+        """
+        return ChunkBuffer(
+            tensor=torch.zeros(
+                max(rows, self.max_samples_per_chunk),
+                self.total_proj_dim,
+                dtype=torch.float32,
+            ),
+            batch_indices=[],
+            batch_info=[],
+            current_row=0,
+            buffer_id=-1,
+        )
+
     def _async_flush_chunk_buffer(self, buffer_key: tuple[str, int]) -> None:
         """Asynchronously write chunk buffer to disk without blocking.
 
@@ -556,7 +576,10 @@ class ChunkedDiskIOManager:
 
         # Return buffer to pool immediately after cloning
         pool = self._get_or_create_buffer_pool(data_type)
-        pool.return_buffer(buffer)
+        if buffer.buffer_id >= 0:  # Not one that was created outside the pool
+            pool.return_buffer(buffer)
+        if not batch_info_copy:
+            return  # Nothing was stored in this buffer
 
         # Mark as pending write
         with self._pending_writes_lock:
@@ -580,9 +603,6 @@ class ChunkedDiskIOManager:
         Args:
             batch_idx: Index of the batch to store IFVP for.
             ifvp: List of IFVP tensors to store.
-
-        Raises:
-            RuntimeError: If failed to get new buffer after overflow.
         """
         self._ensure_layer_dims()
 
@@ -632,10 +652,11 @@ class ChunkedDiskIOManager:
 
             if end_row > self.max_samples_per_chunk:
                 self._async_flush_chunk_buffer(buffer_key)
-                buffer = pool.get_buffer(timeout=5.0)
+                buffer = None
+                if batch_size <= self.max_samples_per_chunk:
+                    buffer = pool.get_buffer(timeout=5.0)
                 if buffer is None:
-                    msg = "Failed to get new buffer after overflow"
-                    raise RuntimeError(msg)
+                    buffer = self._unpooled_buffer(batch_size)
                 self._chunk_buffers[buffer_key] = buffer
                 start_row = 0
                 end_row = batch_size
-- 
2.43.0


From 24db5a4e6a127904e60f4ccf0dff3fad178c3ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 04/36] fix: commit a chunk by an atomic rename of its metadata

---
 .../block_projected_if/offload/disk_io/memory_map.py       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py b/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
index 36c90b7..94041ef 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
@@ -60,6 +60,9 @@ class ChunkedMemoryMapHandler:
             pathlib.Path(save_path) / f"{chunk_filename}_metadata.json",
         )
 
+        # The metadata file commits the chunk: while the data changes there is none
+        pathlib.Path(metadata_path).unlink(missing_ok=True)
+
         # Create memory-mapped file
         # Determine storage dtype
         storage_dtype = "uint16" if tensor.dtype == torch.bfloat16 else dtype
@@ -127,8 +130,10 @@ class ChunkedMemoryMapHandler:
             "flush_mode": flush_mode,  # Track how it was written
         }
 
-        with pathlib.Path(metadata_path).open("w", encoding="utf-8") as f:
+        temp_path = pathlib.Path(metadata_path + ".tmp")
+        with temp_path.open("w", encoding="utf-8") as f:
             json.dump(metadata, f, separators=(",", ":"))
+        temp_path.replace(metadata_path)
 
         logger.debug(
             "Wrote tensor chunk %s: shape=%s, flush_mode=%s",
-- 
2.43.0


From 1cfff7447ff263022cae07eccfc767bce3771996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 05/36] fix: a re-stored or cleared disk cache never serves
 earlier batches

---
 .../block_projected_if/offload/disk.py        |  8 ++---
 .../offload/disk_io/manager.py                | 35 ++++++++++++++++++-
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index 29e088a..343d4f1 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -216,16 +216,14 @@ class DiskOffloadManager(Offload):
 
     def clear_cache(self) -> None:
         """Clear all cached data from disk."""
-        self.disk_io.wait_for_async_operations()
+        self.disk_io.reset()
+        self.current_batch_range = None
 
         for subdir in ["grad", "ifvp", "precond"]:
             subdir_path = pathlib.Path(self.cache_dir) / subdir
             if subdir_path.exists():
                 for file_path in subdir_path.iterdir():
-                    try:
-                        file_path.unlink()
-                    except OSError as e:  # noqa: PERF203 - Exception needed for file cleanup
-                        logger.warning("Error removing %s: %s", file_path, e)
+                    file_path.unlink()
 
     def wait_for_async_operations(self) -> None:
         """Wait for any pending asynchronous disk operations to complete."""
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 549e4ec..f8dedef 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -217,6 +217,7 @@ class ChunkedDiskIOManager:
         # (data_type, chunk_id) -> (tensor, metadata, last_access_time)
         self._read_cache = {}
         self._read_cache_lock = threading.Lock()
+        self._read_cache_version = 0
         self._max_read_cache_size = 4
 
         # Track dimensions and batch range
@@ -341,9 +342,20 @@ class ChunkedDiskIOManager:
             )
             raise ValueError(msg)
 
+        # Drop what an aborted pass left behind
+        self._discard_buffers()
+
         self.current_batch_range = (start_batch, end_batch)
         logger.info("Starting batch range [%s, %s)", start_batch, end_batch)
 
+    def _discard_buffers(self) -> None:
+        """Drop all batches that are buffered but not yet queued for writing."""
+        for buffer_key in list(self._chunk_buffers.keys()):
+            with self._buffer_locks[buffer_key]:
+                buffer = self._chunk_buffers.pop(buffer_key, None)
+                if buffer is not None and buffer.buffer_id >= 0:
+                    self._buffer_pools[buffer_key[0]].return_buffer(buffer)
+
     def _write_worker(self) -> None:
         """Background worker thread for writing chunks to disk."""
         while not self._shutdown:
@@ -370,6 +382,11 @@ class ChunkedDiskIOManager:
                     raise
 
                 finally:
+                    # What was read before this write is outdated
+                    with self._read_cache_lock:
+                        self._read_cache.pop((data_type, chunk_id), None)
+                        self._read_cache_version += 1
+
                     # Remove from pending writes
                     with self._pending_writes_lock:
                         self._pending_writes.remove((data_type, chunk_id))
@@ -780,6 +797,7 @@ class ChunkedDiskIOManager:
         current_time = time.time()
 
         with self._read_cache_lock:
+            version = self._read_cache_version
             if cache_key in self._read_cache:
                 tensor, metadata, _ = self._read_cache[cache_key]
                 self._read_cache[cache_key] = (
@@ -824,7 +842,8 @@ class ChunkedDiskIOManager:
 
                 # Update read cache
                 with self._read_cache_lock:
-                    self._read_cache[cache_key] = (tensor, metadata, current_time)
+                    if version == self._read_cache_version:
+                        self._read_cache[cache_key] = (tensor, metadata, current_time)
 
                     # Evict oldest entries if cache is full
                     if len(self._read_cache) > self._max_read_cache_size:
@@ -971,6 +990,20 @@ class ChunkedDiskIOManager:
         """
         return "grad" if data_type == "gradients" else data_type
 
+    def reset(self) -> None:
+        """Forget all stored data, once no background operation is running."""
+        self._discard_buffers()
+        with contextlib.suppress(RuntimeError):
+            self.wait_for_async_operations()  # Failed writes are obsolete, too
+
+        with self._read_cache_lock:
+            self._read_cache.clear()
+            self._read_cache_version += 1
+        self._buffer_pools.clear()
+        self.current_batch_range = None
+        self.layer_dims = None
+        self.total_proj_dim = None
+
     def wait_for_async_operations(self) -> None:  # noqa: ARG002
         """Wait for all async operations to complete."""
         if self._shutdown:
-- 
2.43.0


From 174c553c5dc3567988ef30bfab794276b0c63faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 06/36] fix: write workers end with their disk offload manager

---
 .../offload/disk_io/manager.py                | 44 ++++++++++++-------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index f8dedef..d87281b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -199,6 +199,7 @@ class ChunkedDiskIOManager:
         for i in range(num_write_workers):
             worker = threading.Thread(
                 target=self._write_worker,
+                args=(self._write_queue,),
                 daemon=True,
                 name=f"DiskWriter-{i}",
             )
@@ -356,20 +357,30 @@ class ChunkedDiskIOManager:
                 if buffer is not None and buffer.buffer_id >= 0:
                     self._buffer_pools[buffer_key[0]].return_buffer(buffer)
 
-    def _write_worker(self) -> None:
-        """Background worker thread for writing chunks to disk."""
-        while not self._shutdown:
+    @staticmethod
+    def _write_worker(write_queue: queue.Queue) -> None:
+        """Background worker thread for writing chunks to disk.
+
+        Only a queued task refers to the manager, so that the manager is deleted,
+        and its workers end, once it is unused and has nothing left to write.
+
+        Args:
+            write_queue: Queue of write tasks.
+        """
+        while True:
+            # Drop the references of the previous task
+            manager = write_task = tensor = batch_info = buffer = pool = None
             try:
                 # Get write task from queue
-                write_task = self._write_queue.get(timeout=1.0)
+                write_task = write_queue.get(timeout=1.0)
                 if write_task is None:  # Shutdown signal
                     break
 
-                data_type, chunk_id, tensor, batch_info, buffer = write_task
+                manager, data_type, chunk_id, tensor, batch_info, buffer = write_task
 
                 # Perform the write
                 try:
-                    self._write_chunk_tensor_sync(
+                    manager._write_chunk_tensor_sync(
                         data_type,
                         chunk_id,
                         tensor,
@@ -377,23 +388,23 @@ class ChunkedDiskIOManager:
                     )
 
                 except Exception as e:
-                    with self._pending_writes_lock:
-                        self._write_errors.append(e.with_traceback(None))
+                    with manager._pending_writes_lock:
+                        manager._write_errors.append(e.with_traceback(None))
                     raise
 
                 finally:
                     # What was read before this write is outdated
-                    with self._read_cache_lock:
-                        self._read_cache.pop((data_type, chunk_id), None)
-                        self._read_cache_version += 1
+                    with manager._read_cache_lock:
+                        manager._read_cache.pop((data_type, chunk_id), None)
+                        manager._read_cache_version += 1
 
                     # Remove from pending writes
-                    with self._pending_writes_lock:
-                        self._pending_writes.remove((data_type, chunk_id))
+                    with manager._pending_writes_lock:
+                        manager._pending_writes.remove((data_type, chunk_id))
 
                     # Return buffer to pool if provided (for backward compatibility)
                     if buffer is not None:
-                        pool = self._get_or_create_buffer_pool(data_type)
+                        pool = manager._get_or_create_buffer_pool(data_type)
                         pool.return_buffer(buffer)
 
             except queue.Empty:
@@ -603,7 +614,7 @@ class ChunkedDiskIOManager:
             self._pending_writes.append((data_type, chunk_id))
 
         # Submit to write queue without the buffer (since we already returned it)
-        write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
+        write_task = (self, data_type, chunk_id, filled_tensor, batch_info_copy, None)
 
         try:
             self._write_queue.put_nowait(write_task)
@@ -1085,7 +1096,8 @@ class ChunkedDiskIOManager:
         if hasattr(self, "_write_workers"):
             # Wait for all workers to finish
             for worker in self._write_workers:
-                worker.join(timeout=2.0)
+                if worker is not threading.current_thread():
+                    worker.join(timeout=2.0)
 
         if hasattr(self, "executor"):
             # Flush remaining buffers
-- 
2.43.0


From 4c20a4adb133cede7a3c8dd1f50ea91ea3b995e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 07/36] fix: the prefetch thread ends with its loader

---
 .../offload/disk_io/prefetch_dataset.py       | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index a777fcd..3807c88 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -8,6 +8,7 @@ import pathlib
 import queue
 import threading
 import time
+import weakref
 from typing import TYPE_CHECKING, Any
 
 if TYPE_CHECKING:
@@ -139,6 +140,7 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         """Start the prefetch thread."""
         self._prefetch_thread = threading.Thread(
             target=self._prefetch_worker,
+            args=(weakref.ref(self), self._stop_prefetch),
             daemon=True,
         )
         self._prefetch_thread.start()
@@ -199,30 +201,44 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
 
         logger.debug("Prefetched chunk %s in %.3fs", idx, load_time)
 
-    def _prefetch_worker(self) -> None:
-        """Worker thread that prefetches chunks."""
+    @staticmethod
+    def _prefetch_worker(
+        dataset_ref: weakref.ref[AsyncPrefetchDataset],
+        stop_prefetch: threading.Event,
+    ) -> None:
+        """Worker thread that prefetches chunks until the dataset is unused.
+
+        Args:
+            dataset_ref: Weak reference to the dataset to prefetch for.
+            stop_prefetch: Event that ends the thread.
+        """
         _lazy_import_memory_map()
 
-        while not self._stop_prefetch.is_set():
+        while not stop_prefetch.is_set():
+            dataset = dataset_ref()
+            if dataset is None:
+                break
+
             try:
                 # Get current index
-                with self._idx_lock:
-                    current_idx = self._current_idx
+                with dataset._idx_lock:
+                    current_idx = dataset._current_idx
 
                 # Determine which chunks to prefetch
-                prefetch_indices = self._get_prefetch_indices(current_idx)
+                prefetch_indices = dataset._get_prefetch_indices(current_idx)
 
                 # Prefetch chunks
                 for idx in prefetch_indices:
-                    if self._stop_prefetch.is_set():
+                    if stop_prefetch.is_set():
                         break
 
                     try:
-                        self._load_and_cache_chunk(idx, current_idx)
+                        dataset._load_and_cache_chunk(idx, current_idx)
                     except Exception:
                         logger.exception("Error prefetching chunk %s", idx)
 
                 # Small sleep to avoid busy waiting
+                dataset = None
                 time.sleep(0.01)
 
             except Exception:
@@ -304,7 +320,8 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         if hasattr(self, "_stop_prefetch"):
             self._stop_prefetch.set()
         if hasattr(self, "_prefetch_thread") and self._prefetch_thread:
-            self._prefetch_thread.join(timeout=1.0)
+            if self._prefetch_thread is not threading.current_thread():
+                self._prefetch_thread.join(timeout=1.0)
 
 
 def async_collate_fn(
-- 
2.43.0


From 2fd46c030b3a3ef05a6e162a1e9db804a0996bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 08/36] fix: bound the chunks held by the prefetching loader

---
 .../offload/disk_io/prefetch_dataset.py       | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index 3807c88..db01e73 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -189,18 +189,25 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         # Add to cache
         with self._cache_lock:
             self._chunk_cache[idx] = (tensor, batch_mapping)
-
-            # Evict old entries if cache is too large
-            cache_size_multiplier = 3
-            max_cache_size = self.prefetch_factor * cache_size_multiplier
-            if len(self._chunk_cache) > max_cache_size:
-                # Find and remove chunks that are far from current index
-                for cached_idx in list(self._chunk_cache.keys()):
-                    if cached_idx < current_idx - 1:
-                        del self._chunk_cache[cached_idx]
+            self._evict_chunks(current_idx)
 
         logger.debug("Prefetched chunk %s in %.3fs", idx, load_time)
 
+    def _evict_chunks(self, current_idx: int) -> None:
+        """Evict old entries if cache is too large.
+
+        Args:
+            current_idx: Current index position
+        """
+        cache_size_multiplier = 3
+        max_cache_size = self.prefetch_factor * cache_size_multiplier
+        if len(self._chunk_cache) > max_cache_size:
+            # Find and remove chunks that are far from current index
+            max_idx = current_idx + self.prefetch_factor
+            for cached_idx in list(self._chunk_cache.keys()):
+                if not current_idx - 1 <= cached_idx < max_idx:
+                    del self._chunk_cache[cached_idx]
+
     @staticmethod
     def _prefetch_worker(
         dataset_ref: weakref.ref[AsyncPrefetchDataset],
@@ -312,6 +319,7 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
             # Add to cache for potential reuse
             with self._cache_lock:
                 self._chunk_cache[idx] = (tensor, batch_mapping)
+                self._evict_chunks(idx)
 
             return tensor, batch_mapping
 
-- 
2.43.0


From 0510354e0cbbbf41776bd7c43eec7c90a8dfb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 09/36] fix: the chunk loader raises on unreadable chunks and
 keeps batch order

---
 .../offload/disk_io/prefetch_dataset.py       | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index db01e73..a3a230d 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 import logging
-import operator
 import pathlib
 import queue
 import threading
@@ -130,10 +129,15 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
 
             except Exception:
                 logger.exception("Error loading chunk %s", chunk_filename)
-                continue
-
-        # Sort by chunk filename for consistency
-        chunk_info.sort(key=operator.itemgetter("chunk_filename"))
+                raise
+
+        # Sort by the batches of the chunk for consistency
+        chunk_info.sort(
+            key=lambda info: (
+                info["metadata"]["batch_start"],
+                info["metadata"]["batch_end"],
+            ),
+        )
         return chunk_info
 
     def _start_prefetch_thread(self) -> None:
@@ -310,11 +314,7 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
             )
         except Exception:
             logger.exception("Error loading chunk %s", chunk_filename)
-            # Return empty data on error
-            layer_dims = chunk_info["metadata"].get("layer_dims", [])
-            total_proj_dim = sum(layer_dims) if layer_dims else 0
-            empty_tensor = torch.empty(0, total_proj_dim)
-            return empty_tensor, {}
+            raise
         else:
             # Add to cache for potential reuse
             with self._cache_lock:
-- 
2.43.0


From 9b7436faa4ec81b441d0fa8b4129f66990c6ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 10/36] fix: a missing preconditioner is an error, a removed
 one is removed from disk

---
 dattri/algorithm/block_projected_if/block_projected_if.py  | 7 +++++++
 .../block_projected_if/offload/disk_io/manager.py          | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4a7ced7..ba33b48 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -440,6 +440,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         Raises:
             ValueError: If layer dimensions are not found.
+            RuntimeError: If a preconditioner is missing.
         """
         logger.info("Computing IFVP...")
 
@@ -464,6 +465,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
         preconditioners = []
         for layer_idx in range(len(self.layer_names)):
             precond = self.offload_manager.retrieve_preconditioner(layer_idx)
+            if precond is None and self.layer_dims[layer_idx] > 0:
+                msg = (
+                    f"Preconditioner of layer {self.layer_names[layer_idx]} not found. "
+                    "Ensure preconditioners have been computed and stored."
+                )
+                raise RuntimeError(msg)
             preconditioners.append(precond)
 
         # Get batch mapping
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index d87281b..cea822d 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -958,9 +958,11 @@ class ChunkedDiskIOManager:
 
         Args:
             layer_idx: Index of the layer to store preconditioner for.
-            preconditioner: Preconditioner tensor to store, or None to skip.
+            preconditioner: Preconditioner tensor to store, or None to remove.
         """
         if preconditioner is None:
+            file_path = pathlib.Path(self.cache_dir) / "precond"
+            (file_path / f"layer_{layer_idx}.pt").unlink(missing_ok=True)
             return
 
         cpu_precond = (
-- 
2.43.0


From 24426d125944c03a8d41c375f82d5d5a160f21fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 11/36] fix: batch metadata describes the current dataset,
 never an earlier one

---
 .../block_projected_if/block_projected_if.py    |  2 +-
 .../block_projected_if/core/metadata.py         | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index ba33b48..0732f20 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -141,7 +141,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         )
 
         # Initialize metadata manager
-        self.metadata = MetadataManager(cache_dir or ".", self.layer_names)
+        self.metadata = MetadataManager(cache_dir, self.layer_names)
 
         # Initialize other components
         self.full_train_dataloader: Optional[DataLoader] = None
diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 8f85cf1..45026d9 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -9,7 +9,7 @@ import logging
 import pathlib
 import threading
 import time
-from typing import TYPE_CHECKING, Dict, List, Tuple
+from typing import TYPE_CHECKING, Dict, List, Optional, Tuple
 
 if TYPE_CHECKING:
     from torch.utils.data import DataLoader
@@ -20,11 +20,11 @@ logger = logging.getLogger(__name__)
 class MetadataManager:
     """Manager for batch metadata."""
 
-    def __init__(self, cache_dir: str, layer_names: List[str]) -> None:
+    def __init__(self, cache_dir: Optional[str], layer_names: List[str]) -> None:
         """Initialize the metadata manager.
 
         Args:
-            cache_dir: Directory for metadata files
+            cache_dir: Directory for metadata files, None to keep them in memory
             layer_names: Names of model layers
         """
         self.cache_dir = cache_dir
@@ -61,10 +61,10 @@ class MetadataManager:
         total_batches = len(train_dataloader)
         batch_size = train_dataloader.batch_size
 
-        # Check if already initialized
-        if len(self.batch_info) == total_batches:
-            logger.info("Dataset metadata already complete, skipping initialization")
-            return
+        # Forget the batches of an earlier dataset
+        with self._metadata_lock:
+            self.batch_info = {}
+            self._pending_batches = {}
 
         # Compute complete batch structure
         if hasattr(train_dataloader.dataset, "__len__"):
@@ -278,6 +278,9 @@ class MetadataManager:
 
     def _load_metadata_if_exists(self) -> None:
         """Load metadata from disk if it exists."""
+        if not self.cache_dir:
+            return
+
         metadata_path = self._get_metadata_path()
         if pathlib.Path(metadata_path).exists():
             try:
-- 
2.43.0


From c9a738b90b728a7409a605a53b877c12207a77ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 12/36] fix: metadata updates and saves are atomic under one
 lock, a failed save raises

---
 .../block_projected_if/core/metadata.py       | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 45026d9..1591321 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -120,6 +120,7 @@ class MetadataManager:
             sample_count: Number of samples in the batch
         """
         with self._metadata_lock:
+            self._flush_pending_batches()
             if batch_idx in self.batch_info:
                 # Validate sample count matches expected
                 expected_count = self.batch_info[batch_idx]["sample_count"]
@@ -162,9 +163,15 @@ class MetadataManager:
         if not self._pending_batches:
             return
 
-        # Merge pending batches
+        # Merge pending batches, in batch order
         self.batch_info.update(self._pending_batches)
         self._pending_batches.clear()
+        self.batch_info = dict(sorted(self.batch_info.items()))
+        start_idx = 0
+        for info in self.batch_info.values():
+            info["start_idx"] = start_idx
+            start_idx += info["sample_count"]
+        self.total_samples = start_idx
         self._last_save_time = time.time()
 
     def get_total_samples(self) -> int:
@@ -185,10 +192,13 @@ class MetadataManager:
         with self._metadata_lock:
             self._flush_pending_batches()
 
-        return {
-            batch_idx: (info["start_idx"], info["start_idx"] + info["sample_count"])
-            for batch_idx, info in self.batch_info.items()
-        }
+            return {
+                batch_idx: (
+                    info["start_idx"],
+                    info["start_idx"] + info["sample_count"],
+                )
+                for batch_idx, info in self.batch_info.items()
+            }
 
     def get_total_batches(self) -> int:
         """Get total number of batches in the dataset.
@@ -215,7 +225,10 @@ class MetadataManager:
         with self._metadata_lock:
             # Flush any pending batches first
             self._flush_pending_batches()
+            self._write_metadata()
 
+    def _write_metadata(self) -> None:
+        """Replace the metadata file, with the metadata lock held."""
         metadata_path = self._get_metadata_path()
         temp_path = metadata_path + ".tmp"
 
@@ -255,9 +268,8 @@ class MetadataManager:
             pathlib.Path(temp_path).replace(metadata_path)
 
             # Update our internal state to match what we saved
-            with self._metadata_lock:
-                self.batch_info = batch_info_corrected
-                self.total_samples = current_idx
+            self.batch_info = batch_info_corrected
+            self.total_samples = current_idx
 
             logger.debug("Saved metadata for %d batches", len(self.batch_info))
 
@@ -267,6 +279,7 @@ class MetadataManager:
             if pathlib.Path(temp_path).exists():
                 with contextlib.suppress(builtins.BaseException):
                     pathlib.Path(temp_path).unlink()
+            raise
 
     def _get_metadata_path(self) -> str:
         """Get the path to the metadata file.
-- 
2.43.0


From d4bd961d391e0164a3689bce36bcb22b89ea18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 13/36] fix: incomplete cached gradients or IFVPs raise instead
 of giving zero scores

---
 .../block_projected_if/block_projected_if.py  | 54 +++++++++++++++++--
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 0732f20..4fbef2f 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -9,7 +9,7 @@ import warnings
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
-    from typing import Any, Dict, List, Literal, Optional, Tuple, Union
+    from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
     from torch.utils.data import DataLoader
 
@@ -149,6 +149,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         self.compressors: Optional[List[Any]] = None
         self.layer_dims: Optional[List[int]] = None
         self.total_proj_dim: Optional[int] = None
+        self._ifvp_in_progress = False  # True if computing IFVP was aborted
 
         # Validation
         if offload == "disk" and cache_dir is None:
@@ -388,10 +389,13 @@ class BlockProjectedIFAttributor(BaseAttributor):
             pin_memory=True,
         )
 
+        delivered = []
         for chunk_tensor, _batch_mapping in tqdm(
             dataloader,
             desc="Computing preconditioners",
         ):
+            delivered.extend(_batch_mapping)
+
             # Move chunk to device
             chunk_tensor_device = self.offload_manager.move_to_device(chunk_tensor)
 
@@ -412,6 +416,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             torch.cuda.empty_cache()
 
+        self._check_complete(delivered, "gradients")
+
         # Compute preconditioners from accumulated Hessians
         computed_count = 0
         for layer_idx in tqdm(range(len(self.layer_names)), desc="Computing inverses"):
@@ -455,6 +461,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
             msg = "Layer dimensions not found."
             raise ValueError(msg)
 
+        self._ifvp_in_progress = True
+
         # Return raw gradients if Hessian type is "Identity"
         if self.hessian == "Identity":
             logger.debug("Using raw gradients as IFVP since hessian type is 'Identity'")
@@ -492,7 +500,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
             pin_memory=True,
         )
 
+        delivered = []
         for chunk_tensor, batch_mapping in tqdm(dataloader, desc="Computing IFVP"):
+            delivered.extend(batch_mapping)
+
             # Move chunk to device
             chunk_tensor_device = self.offload_manager.move_to_device(chunk_tensor)
 
@@ -546,11 +557,14 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             torch.cuda.empty_cache()
 
+        self._check_complete(delivered, "gradients")
+
         # Finish batch range processing for IFVP storage
         if hasattr(self.offload_manager, "finish_batch_range_processing"):
             self.offload_manager.finish_batch_range_processing()
 
         self.offload_manager.wait_for_async_operations()
+        self._ifvp_in_progress = False
         logger.info(
             "Computed IFVP for %s batches, %s samples",
             processed_batches,
@@ -574,6 +588,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
                 len(batch_to_sample_mapping),
             )
 
+        delivered = []
         # Process using tensor dataloader
         dataloader = self.offload_manager.create_gradient_dataloader(
             data_type="gradients",
@@ -585,6 +600,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
             dataloader,
             desc="Copying gradients as IFVP",
         ):
+            delivered.extend(batch_mapping)
+
             for batch_idx, (start_row, end_row) in batch_mapping.items():
                 if batch_idx not in batch_to_sample_mapping:
                     continue
@@ -604,12 +621,34 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             torch.cuda.empty_cache()
 
+        self._check_complete(delivered, "gradients")
+
         # Finish batch range processing for IFVP storage
         if hasattr(self.offload_manager, "finish_batch_range_processing"):
             self.offload_manager.finish_batch_range_processing()
 
+        self._ifvp_in_progress = False
         logger.info("Copied %s batches as IFVP", processed_batches)
 
+    def _check_complete(self, delivered: Iterable[int], data_type: str) -> None:
+        """Check that the cache delivered every batch of the training dataset.
+
+        Args:
+            delivered: Indices of the batches that were delivered.
+            data_type: Type of the delivered data.
+
+        Raises:
+            RuntimeError: If no batches are known, or any was not delivered.
+        """
+        expected = self.metadata.get_batch_to_sample_mapping()
+        missing = sorted(set(expected) - set(delivered))
+        if missing or not expected:
+            msg = (
+                f"Cached {data_type} are incomplete, missing batches: {missing}. "
+                "Call cache() again."
+            )
+            raise RuntimeError(msg)
+
     def compute_self_attribution(  # noqa: PLR0914 - Complex self-attribution computation requires multiple local variables for tracking state
         self,
     ) -> torch.Tensor:
@@ -627,7 +666,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         self._sync_layer_dims()
 
         # Make sure IFVP is computed
-        if not self.offload_manager.has_ifvp():
+        if self._ifvp_in_progress or not self.offload_manager.has_ifvp():
             logger.info("IFVP not found, computing it now...")
             self.compute_ifvp()
 
@@ -649,6 +688,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             pin_memory=True,
         )
 
+        delivered = []
         if grad_dataloader and ifvp_dataloader:
             # Process in parallel
             for (grad_tensor, grad_mapping), (ifvp_tensor, ifvp_mapping) in tqdm(
@@ -680,9 +720,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
                     # Compute dot product
                     batch_influence = torch.sum(batch_grad * batch_ifvp, dim=1).cpu()
                     self_influence[sample_start:sample_end] = batch_influence
+                    delivered.append(batch_idx)
 
                 torch.cuda.empty_cache()
 
+        self._check_complete(delivered, "gradients and IFVP")
         return self_influence
 
     def attribute(  # noqa: PLR0914 - Complex attribution computation requires multiple local variables for dataloader management and tensor processing
@@ -726,7 +768,9 @@ class BlockProjectedIFAttributor(BaseAttributor):
             self._setup_compressors(test_dataloader)
 
         # Get or compute IFVP
-        use_cached_ifvp = self.offload_manager.has_ifvp()
+        use_cached_ifvp = (
+            self.offload_manager.has_ifvp() and not self._ifvp_in_progress
+        )
         if use_cached_ifvp:
             logger.info("Using cached IFVP")
         else:
@@ -778,10 +822,13 @@ class BlockProjectedIFAttributor(BaseAttributor):
         test_batch_size = min(32, test_sample_count)
 
         # Single pass through training IFVP data with nested test batching
+        delivered = []
         for chunk_tensor, batch_mapping in tqdm(
             train_ifvp_dataloader,
             desc="Computing attribution",
         ):
+            delivered.extend(batch_mapping)
+
             # Move train chunk to device
             chunk_tensor_device = self.offload_manager.move_to_device(chunk_tensor).to(
                 dtype=test_grads_tensor.dtype,
@@ -813,6 +860,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             torch.cuda.empty_cache()
 
+        self._check_complete(delivered, "IFVP")
         logger.info(
             "Attribution computation completed. Result shape: %s",
             if_score.shape,
-- 
2.43.0


From 4ea91a60976c7037e9f5d974c3a80233087770dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 14/36] fix: cache() starts from an empty cache and the task's
 first checkpoint

---
 .../block_projected_if/block_projected_if.py       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4fbef2f..5d52581 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -185,6 +185,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
             device=self.device,
         )
 
+    def _load_model(self) -> None:
+        """Load the checkpoint, in case the task has meanwhile loaded another one."""
+        self.task._load_checkpoints(0)
+        self.model = self.task.get_model()
+        self.model.to(self.device)
+
     def _sync_layer_dims(self) -> None:
         """Synchronize layer dimensions between components."""
         if self.layer_dims is None:
@@ -217,7 +223,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
             self.offload,
         )
 
-        self.full_train_dataloader = full_train_dataloader
+        # Forget an earlier cache, also one that another run left behind
+        self.full_train_dataloader = None
+        self.offload_manager.clear_cache()
+        self._load_model()
 
         # Setup compressors if not already done
         if self.compressors is None:
@@ -319,6 +328,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             logger.info("Computing IFVP...")
             self.compute_ifvp()
 
+        self.full_train_dataloader = full_train_dataloader
         logger.info("Caching completed")
 
     def compute_preconditioners(  # noqa: PLR0912, PLR0914 - Complex preconditioner computation requires multiple branches and variables
@@ -763,6 +773,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
         # Synchronize layer dimensions
         self._sync_layer_dims()
 
+        self._load_model()
+
         # Set up compressors if needed
         if self.compressors is None:
             self._setup_compressors(test_dataloader)
-- 
2.43.0


From 532db3bec14b2913af4df9db6d6422fa2abcf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 15/36] fix: an aborted cache() or attribute() leaves no hooks
 on the model

---
 .../block_projected_if/block_projected_if.py  | 56 ++++++++++++-------
 .../block_projected_if/core/compressor.py     | 19 ++++---
 2 files changed, 46 insertions(+), 29 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 5d52581..69dd9d9 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -235,6 +235,36 @@ class BlockProjectedIFAttributor(BaseAttributor):
         # Initialize metadata for complete dataset
         self.metadata.initialize_complete_dataset(full_train_dataloader)
 
+        try:
+            self._collect_gradients(full_train_dataloader)
+        finally:
+            self._remove_hooks()
+
+        # Save metadata
+        self.metadata.save_metadata()
+
+        # Compute preconditioners and IFVP if needed
+        if self.hessian == "eFIM":
+            logger.info("Computing preconditioners...")
+            self.compute_preconditioners()
+            logger.info("Computing IFVP...")
+            self.compute_ifvp()
+
+        self.full_train_dataloader = full_train_dataloader
+        logger.info("Caching completed")
+
+    def _remove_hooks(self) -> None:
+        """Restore the model's own forward methods."""
+        if self.hook_manager is not None:
+            self.hook_manager.remove_hooks()
+            self.hook_manager = None
+
+    def _collect_gradients(self, full_train_dataloader: DataLoader) -> None:
+        """Store the projected gradients of the full training dataset.
+
+        Args:
+            full_train_dataloader: DataLoader for full training data
+        """
         # Create hook manager
         if self.hook_manager is None:
             self.hook_manager = HookManager(
@@ -314,23 +344,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
         if hasattr(self.offload_manager, "finish_batch_range_processing"):
             self.offload_manager.finish_batch_range_processing()
 
-        # Save metadata
-        self.metadata.save_metadata()
-
-        # Clean up hooks
-        self.hook_manager.remove_hooks()
-        self.hook_manager = None
-
-        # Compute preconditioners and IFVP if needed
-        if self.hessian == "eFIM":
-            logger.info("Computing preconditioners...")
-            self.compute_preconditioners()
-            logger.info("Computing IFVP...")
-            self.compute_ifvp()
-
-        self.full_train_dataloader = full_train_dataloader
-        logger.info("Caching completed")
-
     def compute_preconditioners(  # noqa: PLR0912, PLR0914 - Complex preconditioner computation requires multiple branches and variables
         self,
         damping: Optional[float] = None,
@@ -791,9 +804,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         # Compute test gradients
         logger.info("Computing test gradients")
-        test_grads_tensor, _test_batch_mapping = self._compute_test_gradients(
-            test_dataloader,
-        )
+        try:
+            test_grads_tensor, _test_batch_mapping = self._compute_test_gradients(
+                test_dataloader,
+            )
+        finally:
+            self._remove_hooks()
 
         if test_grads_tensor is None or test_grads_tensor.numel() == 0:
             logger.warning("No test gradients computed")
diff --git a/dattri/algorithm/block_projected_if/core/compressor.py b/dattri/algorithm/block_projected_if/core/compressor.py
index 0fe6d2c..2eb5e57 100644
--- a/dattri/algorithm/block_projected_if/core/compressor.py
+++ b/dattri/algorithm/block_projected_if/core/compressor.py
@@ -303,15 +303,16 @@ def setup_model_compressors(  # noqa: PLR0912, PLR0914, PLR0915 - Complex setup
             hooks.append(hook)
 
     # Run another forward pass to capture inputs/outputs
-    with torch.no_grad():
-        if isinstance(sample_inputs, dict):
-            model(**inputs)
-        else:
-            model(inputs)
-
-    # Remove temporary hooks
-    for hook in hooks:
-        hook.remove()
+    try:
+        with torch.no_grad():
+            if isinstance(sample_inputs, dict):
+                model(**inputs)
+            else:
+                model(inputs)
+    finally:
+        # Remove temporary hooks
+        for hook in hooks:
+            hook.remove()
 
     # Create sparsifiers and projectors for each layer
     module_list = list(model.named_modules())
-- 
2.43.0


From dfe812dde3fa074c9040bcc115cb3fc5195d7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 16/36] fix: a failed cache() leaves neither a partial cache
 nor queued writes behind

---
 .../block_projected_if/block_projected_if.py  | 24 +++++++++++++++----
 .../block_projected_if/core/metadata.py       |  9 +++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 69dd9d9..721af22 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -5,6 +5,7 @@ General two-stage gradient compression.
 
 from __future__ import annotations
 
+import contextlib
 import warnings
 from typing import TYPE_CHECKING
 
@@ -225,7 +226,25 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         # Forget an earlier cache, also one that another run left behind
         self.full_train_dataloader = None
-        self.offload_manager.clear_cache()
+        try:
+            self.metadata.clear()
+            self.offload_manager.clear_cache()
+            self._cache_dataset(full_train_dataloader)
+        except BaseException:
+            # Leave no partial cache behind, nor writes that are still queued
+            with contextlib.suppress(Exception):
+                self.offload_manager.clear_cache()
+            raise
+
+        self.full_train_dataloader = full_train_dataloader
+        logger.info("Caching completed")
+
+    def _cache_dataset(self, full_train_dataloader: DataLoader) -> None:
+        """Fill the empty cache.
+
+        Args:
+            full_train_dataloader: DataLoader for full training data
+        """
         self._load_model()
 
         # Setup compressors if not already done
@@ -250,9 +269,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
             logger.info("Computing IFVP...")
             self.compute_ifvp()
 
-        self.full_train_dataloader = full_train_dataloader
-        logger.info("Caching completed")
-
     def _remove_hooks(self) -> None:
         """Restore the model's own forward methods."""
         if self.hook_manager is not None:
diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 1591321..272ca84 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -47,6 +47,15 @@ class MetadataManager:
             len(layer_names),
         )
 
+    def clear(self) -> None:
+        """Forget all batches, also on disk."""
+        with self._metadata_lock:
+            self.batch_info = {}
+            self._pending_batches = {}
+            self.total_samples = 0
+            if self.cache_dir:
+                pathlib.Path(self._get_metadata_path()).unlink(missing_ok=True)
+
     def initialize_complete_dataset(
         self,
         train_dataloader: DataLoader,
-- 
2.43.0


From bce9eb368b0b799359e6d8abe3950440f46e1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 17/36] fix: interrupted, repeated or partitioned retraining
 leaves a true record

Models and metadata are saved by atomic renames; metadata.yml appears when every
subset is retrained, whichever partition finishes last; every model is seeded, so
partitions do not matter; LOO metadata is readable and covers split calls.
---
 dattri/metric/ground_truth.py |  10 +-
 dattri/model_util/retrain.py  | 203 ++++++++++++++++++++++++----------
 2 files changed, 155 insertions(+), 58 deletions(-)

diff --git a/dattri/metric/ground_truth.py b/dattri/metric/ground_truth.py
index 85373bd..d82278a 100644
--- a/dattri/metric/ground_truth.py
+++ b/dattri/metric/ground_truth.py
@@ -84,7 +84,7 @@ def calculate_loo_ground_truth(
     model_indices = torch.empty(length_dir)
     for dir_cnt, model_file in enumerate(model_dirs_sorted):
         model_path = Path(retrain_dir) / model_file / "model_weights.pt"
-        model = torch.load(model_path)
+        model = torch.load(model_path, weights_only=False)
         # Calculate target function values.
         values = target_func(model, test_dataloader)
         loo_results[dir_cnt, :] = values
@@ -165,6 +165,9 @@ def calculate_lds_ground_truth(
             shape (num_subsets, subset_size), where each row refers to the indices of
             the training samples used to retrain the model. The target value will be
             flipped to be consistent with the score calculated by the attributors.
+
+    Raises:
+        ValueError: If the indices of a subset are incomplete.
     """
     retrain_dir = Path(retrain_dir)
 
@@ -180,6 +183,11 @@ def calculate_lds_ground_truth(
     for i in range(num_subsets):
         with Path.open(Path(subset_dir_map[i]) / "indices.txt", "r") as f:
             indices.append([int(idx) for idx in f.read().splitlines()])
+        if "data_length" in metadata and len(indices[-1]) != int(
+            metadata["data_length"] * metadata["subset_ratio"],
+        ):
+            error_message = f"the indices of subset {i} are incomplete"
+            raise ValueError(error_message)
     indices = torch.tensor(indices)
 
     # Calculate the target values for each test sample under each model.
diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 28f492d..ca11324 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -9,9 +9,10 @@ from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
     from collections.abc import Callable
-    from typing import List, Optional
+    from typing import List, Optional, Set
 
 import random
+from functools import partial
 from pathlib import Path
 
 import numpy as np
@@ -21,6 +22,40 @@ from torch.utils.data import DataLoader, Subset
 from tqdm import tqdm
 
 
+def _save_atomically(
+    save: Callable,
+    path: Path,
+    temp_dir: Optional[Path] = None,
+) -> None:
+    """Replace a file as a whole, an interrupted save leaves the old state.
+
+    Args:
+        save (Callable): The function that writes a file, given its path.
+        path (Path): The file to be replaced.
+        temp_dir (Path): The directory of the temporary file. Default is the
+            directory of the file.
+    """
+    temp_path = (temp_dir or path.parent) / f"{path.name}.tmp"
+    save(temp_path)
+    temp_path.replace(path)
+
+
+def _save_metadata(metadata: dict, path: Path, temp_dir: Path) -> None:
+    """Replace a metadata file as a whole.
+
+    Args:
+        metadata (dict): The metadata.
+        path (Path): The metadata file.
+        temp_dir (Path): A directory that no concurrent retraining call writes to.
+    """
+
+    def save(temp_path: Path) -> None:
+        with temp_path.open("w", encoding="utf-8") as file:
+            yaml.safe_dump(metadata, file)
+
+    _save_atomically(save, path, temp_dir)
+
+
 def retrain_loo(
     train_func: Callable,
     dataloader: torch.utils.data.DataLoader,
@@ -72,6 +107,7 @@ def retrain_loo(
                         model_weights.pt
 
                 # metadata.yml
+                # (including the indices that other calls have retrained in `path`)
                 data = {
                     'mode': 'loo',
                     'data_length': len(dataloader),
@@ -85,12 +121,8 @@ def retrain_loo(
                 }
             ```.
     """
-    if not Path(path).exists():
-        # Create the path if not exists.
-        Path(path).mkdir(parents=True)
-    if seed is not None:
-        # Manually set the seed.
-        torch.manual_seed(seed)
+    # Create the path if not exists.
+    Path(path).mkdir(parents=True, exist_ok=True)
 
     if dataloader.sampler is not None:
         all_indices = list(range(len(dataloader.sampler)))
@@ -100,20 +132,12 @@ def retrain_loo(
     if indices is None:
         # If indices are not provided default to retrain with every data.
         indices = all_indices
-
-    metadata = {
-        "mode": "loo",
-        "data_length": len(all_indices),
-        "train_func": train_func.__name__,
-        "indices": indices,
-        "map_index_dir": {},
-    }
+    indices = [int(index) for index in indices]
 
     for index in tqdm(indices, desc="LOO Retraining"):
         remaining_indices = [idx for idx in all_indices if idx != index]
         model_dir = Path(path) / f"index_{index}"
-        if not model_dir.exists():
-            model_dir.mkdir(parents=True)
+        model_dir.mkdir(parents=True, exist_ok=True)
         # Create a subset of the dataset.
         weights_dir = Path(model_dir) / "model_weights.pt"
         dataset_subset = Subset(dataloader.dataset, remaining_indices)
@@ -122,15 +146,47 @@ def retrain_loo(
             dataset_subset,
             batch_size=dataloader.batch_size,
         )
+        if seed is not None:
+            # Manually set the seed.
+            torch.manual_seed(seed)
         # Call the user specified train_func.
         model = train_func(modified_dataloader, seed=seed, **kwargs)
-        # Update the metadata.
-        metadata["map_index_dir"][index] = model_dir
-        torch.save(model, weights_dir)
+        _save_atomically(partial(torch.save, model), weights_dir)
+
+    # Other calls may have retrained other indices, or may be doing so right now.
+    finished = None
+    while finished != _finished_indices(Path(path)):
+        finished = _finished_indices(Path(path))
+        listed = indices + sorted(finished - set(indices))
+        metadata = {
+            "mode": "loo",
+            "data_length": len(all_indices),
+            "train_func": train_func.__name__,
+            "indices": listed,
+            "map_index_dir": {
+                index: str(Path(path) / f"index_{index}") for index in listed
+            },
+        }
+        _save_metadata(
+            metadata,
+            Path(path) / "metadata.yml",
+            Path(path) / f"index_{indices[0]}" if indices else Path(path),
+        )
 
-    metadata_file = Path(path) / "metadata.yml"
-    with Path(metadata_file).open("w", encoding="utf-8") as file:
-        yaml.dump(metadata, file)
+
+def _finished_indices(path: Path) -> Set[int]:
+    """List the removed indices whose models are finished.
+
+    Args:
+        path (Path): The directory of the retrained models.
+
+    Returns:
+        Set[int]: The removed indices.
+    """
+    return {
+        int(file.parent.name[len("index_") :])
+        for file in path.glob("index_*/model_weights.pt")
+    }
 
 
 def retrain_lds(
@@ -223,27 +279,25 @@ def retrain_lds(
         start_id = 0  # ignore start_id if total_num_subsets is 0
 
     path = Path(path)
-    if not path.exists():
-        path.mkdir(parents=True)
+    path.mkdir(parents=True, exist_ok=True)
+    # The directory is incomplete until all subsets are retrained.
+    (path / "metadata.yml").unlink(missing_ok=True)
 
     data_length = len(dataloader.sampler)
     subset_length = int(data_length * subset_ratio)
 
-    subset_dir_map = {}
-    rng = np.random.default_rng(seed)  # this can also handle seed=None
-
     # seed control
-    if seed is not None:
-        torch.manual_seed(seed)
-        torch.cuda.manual_seed_all(seed)
-        torch.backends.cudnn.deterministic = True
+    torch.backends.cudnn.deterministic = True
+
+    # Models of an earlier run must not be mistaken for those of this run
+    for i in range(start_id, start_id + num_subsets):
+        for file in (path / str(i)).glob("model_weights_*.pt"):
+            file.unlink()
 
     # Retrain the model for each subset
     for i in tqdm(range(start_id, start_id + num_subsets), desc="LDS Retraining"):
         # Create a random subset of the data
-        if seed is not None:
-            rng = np.random.default_rng(seed + i)
-        indices = rng.choice(data_length, subset_length, replace=False)
+        indices = _subset_indices(seed, i, data_length, subset_length)
         subset_dataloader = torch.utils.data.DataLoader(
             dataset=torch.utils.data.Subset(dataloader.dataset, indices),
             batch_size=dataloader.batch_size,
@@ -253,37 +307,72 @@ def retrain_lds(
         # Save the subset indices
         indices_path = path / str(i) / "indices.txt"
         indices_path.parent.mkdir(parents=True, exist_ok=True)
-        with Path.open(indices_path, "w") as f:
-            f.write("\n".join(map(str, indices)))
+        _save_atomically(
+            partial(_write_indices, indices),
+            indices_path,
+        )
 
         # Retrain the model for the subset (for multiple runs)
         for j in tqdm(range(num_runs_per_subset), desc=f"Subset {i} Runs", leave=False):
-            if seed is not None:
-                train_seed = seed + i * num_runs_per_subset + j
-            else:
-                train_seed = None
+            train_seed = seed + i * num_runs_per_subset + j
+            torch.manual_seed(train_seed)
             model = train_func(subset_dataloader, seed=train_seed, **kwargs)
             model_path = path / str(i) / f"model_weights_{j}.pt"
-            model_path.parent.mkdir(parents=True, exist_ok=True)
-            torch.save(model.state_dict(), model_path)
-
-        # Save the subset directory
-        subset_dir_map[i] = str(path / str(i))
-
-    # Save metadata
-    if (
-        total_num_subsets == 0  # noqa: PLR1714
-        or (start_id + 1) * num_subsets == total_num_subsets
-    ):
-        # Create metadata to save
+            _save_atomically(partial(torch.save, model.state_dict()), model_path)
+
+    # Save metadata, once every subset is retrained, by whichever call
+    total_num_subsets = total_num_subsets or num_subsets
+
+    def is_finished(i: int) -> bool:
+        indices_path = path / str(i) / "indices.txt"
+        indices = _subset_indices(seed, i, data_length, subset_length)
+        models = {file.name for file in (path / str(i)).glob("model_weights_*.pt")}
+        return (
+            models == {f"model_weights_{j}.pt" for j in range(num_runs_per_subset)}
+            and indices_path.exists()
+            and indices_path.read_text() == "\n".join(map(str, indices))
+        )
+
+    if all(is_finished(i) for i in range(total_num_subsets)):
         metadata = {
             "mode": "lds",
             "data_length": data_length,
             "train_func": train_func.__name__,
-            "num_subsets": (start_id + 1) * num_subsets,
+            "num_subsets": total_num_subsets,
             "subset_ratio": subset_ratio,
             "num_runs_per_subset": num_runs_per_subset,
-            "subset_dir_map": subset_dir_map,
+            "subset_dir_map": {i: str(path / str(i)) for i in range(total_num_subsets)},
         }
-        with (path / "metadata.yml").open("w") as f:
-            yaml.safe_dump(metadata, f)
+        _save_metadata(metadata, path / "metadata.yml", path / str(start_id))
+
+
+def _subset_indices(
+    seed: int,
+    subset_id: int,
+    data_length: int,
+    subset_length: int,
+) -> np.ndarray:
+    """Draw the training samples of a subset.
+
+    Args:
+        seed (int): The random seed of the retraining.
+        subset_id (int): The index of the subset.
+        data_length (int): The number of training samples.
+        subset_length (int): The number of training samples in the subset.
+
+    Returns:
+        np.ndarray: The indices of the training samples.
+    """
+    rng = np.random.default_rng(seed + subset_id)
+    return rng.choice(data_length, subset_length, replace=False)
+
+
+def _write_indices(indices: np.ndarray, path: Path) -> None:
+    """Write the training samples of a subset to a file.
+
+    Args:
+        indices (np.ndarray): The indices of the training samples.
+        path (Path): The file.
+    """
+    with path.open("w") as f:
+        f.write("\n".join(map(str, indices)))
-- 
2.43.0


From 6df63f90e512984df8bcb99d1ee12176162644dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 18/36] fix: an interrupted benchmark or MAESTRO download is
 never taken for the whole

Downloads are put in place by a rename when they are complete; fragments that
start at offset 0 are no longer drawn at random.
---
 dattri/benchmark/datasets/maestro/data.py     | 27 +++++++++++++++----
 dattri/benchmark/load.py                      | 19 ++++++++++---
 .../MusicTransformer/dataset/e_piano.py       |  4 +--
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/dattri/benchmark/datasets/maestro/data.py b/dattri/benchmark/datasets/maestro/data.py
index 830bfb6..127b6cd 100644
--- a/dattri/benchmark/datasets/maestro/data.py
+++ b/dattri/benchmark/datasets/maestro/data.py
@@ -3,6 +3,7 @@
 # ruff: noqa: PLR1702
 from __future__ import annotations
 
+import shutil
 import zipfile
 from pathlib import Path
 from typing import TYPE_CHECKING
@@ -46,11 +47,14 @@ def create_maestro_datasets(
     Returns:
         Tuple[Dataset, Dataset]: The training and testing
             MAESTRO datasets.
+
+    Raises:
+        ValueError: If the downloaded dataset cannot be processed.
     """
     # check if dataset_path exists
     if not Path(dataset_path).exists():
         # create
-        Path(dataset_path).mkdir()
+        Path(dataset_path).mkdir(parents=True, exist_ok=True)
 
     # define the dir name
     processed_dataset_dir = Path(dataset_path) / "maestro-v2.0.0-processed"
@@ -62,6 +66,7 @@ def create_maestro_datasets(
         zip_dataset_file = Path(dataset_path) / "maestro-v2.0.0-midi.zip"
         dataset_urls = "https://storage.googleapis.com/magentadata/datasets/maestro/v2.0.0/maestro-v2.0.0-midi.zip"
         response = requests.get(dataset_urls, stream=True, timeout=20)
+        response.raise_for_status()
         with zip_dataset_file.open("wb") as midi:
             for chunk in response.iter_content(chunk_size=1024):
                 if chunk:
@@ -72,22 +77,34 @@ def create_maestro_datasets(
             for file_info in zip_ref.infolist():
                 zip_ref.extract(file_info, dataset_path)
 
-        # then pre-process the unzipped file
-        prep_maestro_midi(unzip_dataset_dir, processed_dataset_dir)
+        # then pre-process the unzipped file, put in place when all of it is done
+        temp_dataset_dir = Path(dataset_path) / "maestro-v2.0.0-processed.tmp"
+        if temp_dataset_dir.exists():
+            shutil.rmtree(temp_dataset_dir)
+        if not prep_maestro_midi(unzip_dataset_dir, temp_dataset_dir):
+            error_msg = f"The dataset in {unzip_dataset_dir} cannot be processed."
+            raise ValueError(error_msg)
+        temp_dataset_dir.rename(processed_dataset_dir)
 
     zip_gen_dataset_file = Path(dataset_path) / "generated_music.zip"
-    if not zip_gen_dataset_file.exists():
+    gen_dataset_dir = Path(dataset_path) / "generated_music"
+    if not gen_dataset_dir.exists():
         # get the generated music zip file
         gen_dataset_urls = "https://huggingface.co/datasets/trais-lab/dattri-benchmark/resolve/main/maestro_musictransformer/generated_music.zip?download=true"
         response = requests.get(gen_dataset_urls, stream=True, timeout=20)
+        response.raise_for_status()
         with zip_gen_dataset_file.open("wb") as midi:
             for chunk in response.iter_content(chunk_size=1024):
                 if chunk:
                     midi.write(chunk)
 
+        temp_gen_dataset_dir = Path(dataset_path) / "generated_music.tmp"
+        if temp_gen_dataset_dir.exists():
+            shutil.rmtree(temp_gen_dataset_dir)
         with zipfile.ZipFile(zip_gen_dataset_file, "r") as zip_ref:
             for file_info in zip_ref.infolist():
-                zip_ref.extract(file_info, Path(dataset_path) / "generated_music")
+                zip_ref.extract(file_info, temp_gen_dataset_dir)
+        temp_gen_dataset_dir.rename(gen_dataset_dir)
 
     # create the train datasets from pre-processed data
     train_dataset, val_dataset, _ = create_epiano_datasets(
diff --git a/dattri/benchmark/load.py b/dattri/benchmark/load.py
index 21af489..9b8cc22 100644
--- a/dattri/benchmark/load.py
+++ b/dattri/benchmark/load.py
@@ -8,6 +8,7 @@ if TYPE_CHECKING:
     from typing import Any, Dict, Tuple
 
 import pathlib
+import shutil
 import warnings
 import zipfile
 from functools import partial
@@ -239,17 +240,23 @@ def load_benchmark(  # noqa:PLR0914
     url_map = generate_url_map(identifier)
     download_path = pathlib.Path(download_path).expanduser()
 
-    if not (download_path / "benchmark" / identifier).exists() or redownload:
+    benchmark_path = download_path / "benchmark" / identifier
+    if not benchmark_path.exists() or redownload:
+        # The files are put in place together, once all of them are downloaded.
+        temp_path = benchmark_path.with_name(f"{identifier}.tmp")
+        if temp_path.exists():
+            # left by an interrupted download
+            shutil.rmtree(temp_path)
         for key in ["models_full", "models_half"]:
             _download(
                 url_map[key],
-                download_path / "benchmark" / identifier / key,
+                temp_path / key,
                 unzip=True,
             )
         for path in url_map["groundtruth"]["lds"]:
             _download(
                 path,
-                download_path / "benchmark" / identifier / "lds",
+                temp_path / "lds",
                 unzip=False,
                 file_name=path.split("?")[0].split("/")[-1],
             )
@@ -258,10 +265,14 @@ def load_benchmark(  # noqa:PLR0914
                 break
             _download(
                 path,
-                download_path / "benchmark" / identifier / "loo",
+                temp_path / "loo",
                 unzip=False,
                 file_name=path.split("?")[0].split("/")[-1],
             )
+        if benchmark_path.exists():
+            benchmark_path.rename(temp_path / "replaced")
+        temp_path.rename(benchmark_path)
+        shutil.rmtree(benchmark_path / "replaced", ignore_errors=True)
 
     models_full_count = _count_folders(
         download_path / "benchmark" / identifier / "models_full",
diff --git a/dattri/benchmark/models/MusicTransformer/dataset/e_piano.py b/dattri/benchmark/models/MusicTransformer/dataset/e_piano.py
index 897e4e7..0661a32 100644
--- a/dattri/benchmark/models/MusicTransformer/dataset/e_piano.py
+++ b/dattri/benchmark/models/MusicTransformer/dataset/e_piano.py
@@ -108,7 +108,7 @@ class EPianoDataset(Dataset):
 
         return x, tgt
 
-    def _get_x_tgt(self, filename, offset=0):
+    def _get_x_tgt(self, filename, offset=None):
         # All data on cpu to allow for the Dataloader to multithread
         i_stream    = open(filename, "rb")
         # return pickle.load(i_stream), None
@@ -148,7 +148,7 @@ def process_midi(raw_mid, max_seq, random_seq, offset=None):
         tgt[raw_len-1]      = TOKEN_END
     else:
         # have a customized offset
-        if offset:
+        if offset is not None:
             start = offset
         else:
             # Randomly selecting a range
-- 
2.43.0


From f89c52c0713c62c287477ed4037d7b6eec025199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 19/36] fix: partial_param leaves the caller's parameter
 dictionary unchanged

---
 dattri/func/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ba58561..eea40c4 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -310,13 +310,15 @@ def partial_param(
         def _function_partial(*args, **kwargs: Dict[str, Any]) -> torch.Tensor:
             new_args = list(args)
             index_counter = 0
+            # the dictionary belongs to the caller (and may be shared)
+            merged_param = dict(full_param)
             for layer in layer_name:
                 length_param = full_param[layer].numel()
-                full_param[layer] = new_args[param_num][
+                merged_param[layer] = new_args[param_num][
                     index_counter : index_counter + length_param
                 ]
                 index_counter += length_param
-            new_args[param_num] = flatten_params(full_param)
+            new_args[param_num] = flatten_params(merged_param)
             return function(*new_args, **kwargs)
 
         return _function_partial
-- 
2.43.0


From 78452bdb2504868ed1350264f4e1532dc6d859a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 20/36] fix: the task reloads a checkpoint that failed to load
 or was overwritten

---
 dattri/task.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/dattri/task.py b/dattri/task.py
index fc57f3c..e15ab74 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -166,15 +166,45 @@ class AttributionTask:
         if (
             self.current_checkpoint_idx is None
             or self.current_checkpoint_idx != ckpt_idx
+            or self._parameters_changed()
         ):
+            # A load that fails part-way leaves no checkpoint loaded.
+            self.current_checkpoint_idx = None
             self.model = self.checkpoints_load_func(
                 self.model,
                 self.checkpoints[ckpt_idx],
             )
-            self.current_checkpoint_idx = ckpt_idx
             self.named_parameters = {
                 k: p for k, p in self.model.named_parameters() if p.requires_grad
             }
+            self._loaded_parameters = self._parameter_marks()
+            self.current_checkpoint_idx = ckpt_idx
+
+    def _parameter_marks(self) -> List[Tuple[torch.Tensor, int, int]]:
+        """Identify the current values of the model's parameters.
+
+        Returns:
+            List[Tuple[torch.Tensor, int, int]]: Each parameter, its storage
+                address and its version, which in-place updates increase.
+        """
+        return [
+            (p, p.data_ptr(), 0 if p.is_inference() else p._version)  # noqa: SLF001
+            for p in self.model.parameters()
+        ]
+
+    def _parameters_changed(self) -> bool:
+        """Whether the parameters were changed since the checkpoint was loaded.
+
+        The model may be shared with another task, or be trained further.
+
+        Returns:
+            bool: True if the loaded checkpoint is no longer in the model.
+        """
+        marks = self._parameter_marks()
+        return len(marks) != len(self._loaded_parameters) or any(
+            now[0] is not then[0] or now[1:] != then[1:]
+            for now, then in zip(marks, self._loaded_parameters)
+        )
 
     @staticmethod
     def _generate_param_layer_map(
-- 
2.43.0


From b45178cd8cfaa3ed61c80e96fd0fd075a06df5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 21/36] fix: the Arnoldi projector draws from a generator of
 its own

---
 dattri/func/projection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d06f2e0..f3bc37c 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1010,10 +1010,9 @@ class ArnoldiProjector(AbstractProjector):
 
     def get_eigenspace(self) -> None:
         """Compute the approximate eigenspaces of inverse Hessian."""
-        # set torch seed
-        torch.manual_seed(self.seed)
-        # init a random vector
-        v0 = torch.rand(self.feature_dim).to(self.device)
+        # init a random vector from the seed, with a generator of its own
+        generator = torch.Generator().manual_seed(self.seed)
+        v0 = torch.rand(self.feature_dim, generator=generator).to(self.device)
 
         # perform arnoldi iteration
         appr_mat, proj = self._arnoldi_iter(
-- 
2.43.0


From a050ea64dec504cd7bb94d61a7dc2b646859cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 22/36] fix: hooks of RPS and EK-FAC are removed when a pass
 over the data fails

---
 dattri/algorithm/influence_function.py | 66 ++++++++++++++------------
 dattri/model_util/hook.py              | 11 +++--
 2 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 0033745..1bca942 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -986,39 +986,43 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             # Cache the inputs and outputs
             self.layer_cache[name] = (inputs, outputs)
 
+        # A failed cache() leaves no statistics of an earlier one behind
+        self.cached_q = self.cached_lambdas = None
         handles = []
-        for name in self.module_name:
-            # Once the model is forward once, the input and output of the layer
-            # in `module_name` will be stored in `self.layer_cache[name]`
-            mod = self.task.model.get_submodule(name)
-            handles.append(mod.register_forward_hook(_ekfac_hook))
-
-        func = partial(self.task.get_target_func(), self.task.get_param()[0])
-        # 1. Use random batch to estimate covariance matrices S and A
-        cov_matrices = estimate_covariance(
-            func,
-            full_train_dataloader,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
-
-        # 2. Calculate the eigenvalue decomposition of S and A
-        self.cached_q = estimate_eigenvector(cov_matrices)
-
-        # 3. Use random batch for eigenvalue correction
-        self.cached_lambdas = estimate_lambda(
-            func,
-            full_train_dataloader,
-            self.cached_q,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
+        try:
+            for name in self.module_name:
+                # Once the model is forward once, the input and output of the layer
+                # in `module_name` will be stored in `self.layer_cache[name]`
+                mod = self.task.model.get_submodule(name)
+                handles.append(mod.register_forward_hook(_ekfac_hook))
+
+            func = partial(self.task.get_target_func(), self.task.get_param()[0])
+            # 1. Use random batch to estimate covariance matrices S and A
+            cov_matrices = estimate_covariance(
+                func,
+                full_train_dataloader,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
 
-        # Remove hooks after preprocessing the FIM
-        for handle in handles:
-            handle.remove()
+            # 2. Calculate the eigenvalue decomposition of S and A
+            cached_q = estimate_eigenvector(cov_matrices)
+
+            # 3. Use random batch for eigenvalue correction
+            cached_lambdas = estimate_lambda(
+                func,
+                full_train_dataloader,
+                cached_q,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
+        finally:
+            # Remove hooks after preprocessing the FIM
+            for handle in handles:
+                handle.remove()
+        self.cached_q, self.cached_lambdas = cached_q, cached_lambdas
 
     def transform_test_rep(
         self,
diff --git a/dattri/model_util/hook.py b/dattri/model_util/hook.py
index 19c0f92..d19b335 100644
--- a/dattri/model_util/hook.py
+++ b/dattri/model_util/hook.py
@@ -57,11 +57,12 @@ def get_final_layer_io(
     hook_handle = model_layer.register_forward_hook(_forward_hook)
 
     # perform a forward pass through the dataloader
-    with torch.no_grad():
-        for x, _ in dataloader:
-            _ = model(x.to(device))
-
-    hook_handle.remove()
+    try:
+        with torch.no_grad():
+            for x, _ in dataloader:
+                _ = model(x.to(device))
+    finally:
+        hook_handle.remove()
     return torch.cat(feature_list, dim=0).to(device), torch.cat(output_list, dim=0).to(
         device,
     )
-- 
2.43.0


From 95d620855f3fd20c533bebce7ea1c58ba8f91468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 23/36] fix: TRAK's failed cache() leaves nothing of an earlier
 one

---
 dattri/algorithm/trak.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index d2a66d0..6e98606 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -116,7 +116,8 @@ class TRAKAttributor(BaseAttributor):
             TypeError: If train/test data is not tuple, list, or dict.
         """
         _check_shuffle(full_train_dataloader)
-        self.full_train_dataloader = full_train_dataloader
+        # set again at the end: a failed cache() leaves nothing cached
+        self.full_train_dataloader = None
         inv_XTX_XT_list = []
         running_Q = 0
         running_count = 0
@@ -141,7 +142,7 @@ class TRAKAttributor(BaseAttributor):
             full_train_projected_grad = []
             Q = []
             for train_data in tqdm(
-                self.full_train_dataloader,
+                full_train_dataloader,
                 desc="calculating gradient of training set...",
                 leave=False,
             ):
@@ -200,6 +201,7 @@ class TRAKAttributor(BaseAttributor):
             running_Q /= running_count
         self.inv_XTX_XT_list = inv_XTX_XT_list
         self.Q = running_Q
+        self.full_train_dataloader = full_train_dataloader
 
     def attribute(  # noqa: PLR0912, PLR0914, PLR0915
         self,
-- 
2.43.0


From ed914280bc5150ff5f592d3ebf120d675b37cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 24/36] fix: RPS uses the task's first checkpoint whatever was
 loaded in between

---
 dattri/algorithm/rps.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index a4e8f72..45a108d 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -59,8 +59,7 @@ class RPSAttributor(BaseAttributor):
         """
         self.task = task
         self.target_func = task.get_target_func(flatten=False)
-        self.model = task.get_model()
-        self.task.get_param(ckpt_idx=0)  # to load the checkpoint
+        self._load_model()
         self.final_linear_layer_name = final_linear_layer_name
         self.normalize_preactivate = normalize_preactivate
         self.l2_strength = l2_strength
@@ -68,6 +67,12 @@ class RPSAttributor(BaseAttributor):
         self.device = device
         self.full_train_dataloader = None
 
+    def _load_model(self) -> None:
+        """Load the checkpoint, which others using the task may have replaced."""
+        self.task.get_param(ckpt_idx=0)
+        # only known after loading: the load function may return another model
+        self.model = self.task.get_model()
+
     def cache(self, full_train_dataloader: DataLoader) -> None:
         """Cache the full dataset for fine-tuning.
 
@@ -77,6 +82,9 @@ class RPSAttributor(BaseAttributor):
                 fine-tuning.
         """
         self.full_train_dataloader = full_train_dataloader
+        # a failed cache() leaves no parameters of an earlier one behind
+        self.finetuned_theta = None
+        self._load_model()
 
         # get intermediate outputs and predictions for full train dataset
         intermediate_x_train, y_pred_train = get_final_layer_io(
@@ -130,6 +138,7 @@ class RPSAttributor(BaseAttributor):
 
         _check_shuffle(train_dataloader)
         _check_shuffle(test_dataloader)
+        self._load_model()
 
         intermediate_x_train, y_pred_train = get_final_layer_io(
             self.model,
-- 
2.43.0


From f30022fd1182bbc5422eb33ea14b794f135b9161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 25/36] fix: DVEmb records completed steps only and leaves the
 training loop's state alone

---
 dattri/algorithm/dvemb.py | 151 ++++++++++++++++++++++----------------
 1 file changed, 86 insertions(+), 65 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index b88f1b9..919c72b 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -232,7 +232,8 @@ class DVEmbAttributor:
                 inputs: Tuple[Tensor, ...],
                 _output: Tensor,
             ) -> None:
-                a = inputs[0].detach()
+                # A copy: the caller may reuse the input buffer for the next batch
+                a = inputs[0].detach().clone()
                 # Keep original dimensions (2D or 3D) for proper gradient computation
                 caches[idx]["A"] = a
                 caches[idx]["has_bias"] = layer.bias is not None
@@ -362,13 +363,6 @@ class DVEmbAttributor:
             )
         self._caching_method = "context"
 
-        # Initialize epoch storage if needed
-        if epoch not in self.cached_factors:
-            self.cached_factors[epoch] = []
-            self.cached_gradients[epoch] = []
-            self.learning_rates[epoch] = []
-            self.data_indices[epoch] = []
-
         # Set up projectors if not already done
         if (
             not hasattr(self, "random_projectors")
@@ -382,32 +376,76 @@ class DVEmbAttributor:
         try:
             yield  # User's training loop executes here (forward + backward + step)
         finally:
-            # ══════════ __exit__: Clean up and cache gradient factors ══════════
-
-            # Remove hooks
+            # ══════════ __exit__: Clean up ══════════
             for h in handles:
                 h.remove()
 
-            # Adjust for mean reduction: users typically use mean loss (default),
-            # but we need sum reduction for correct per-sample gradient factors.
-            # backward hook captures B = dL/dy where L = mean(per_sample_losses).
-            # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
-            for cache in caches:
-                if cache["B"] is not None:
-                    cache["B"] *= len(indices)
+        # Only reached if the training step succeeded: cache its gradient factors.
+        # Adjust for mean reduction: users typically use mean loss (default),
+        # but we need sum reduction for correct per-sample gradient factors.
+        # backward hook captures B = dL/dy where L = mean(per_sample_losses).
+        # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
+        for cache in caches:
+            if cache["B"] is not None:
+                cache["B"] = cache["B"] * len(indices)
 
-            # Cache the gradient factors (with projection if configured)
-            if self.projection_dim_per_layer is None:
-                self.cached_factors[epoch].append(caches)
-            elif self.factorization_type == "kronecker":
-                projected_grads = self._project_gradients_factors_kronecker(caches)
-                self.cached_gradients[epoch].append(projected_grads.cpu())
-            else:
-                projected_grads = self._project_gradients_factors_elementwise(caches)
-                self.cached_gradients[epoch].append(projected_grads.cpu())
+        self._record_factors(epoch, caches, indices, learning_rate)
+
+    def _record_step(
+        self,
+        epoch: int,
+        indices: Tensor,
+        learning_rate: float,
+        *,
+        gradients: Optional[Tensor] = None,
+        factors: Optional[List[Dict[str, Tensor]]] = None,
+    ) -> None:
+        """Record one completed training step.
+
+        Args:
+            epoch: The current epoch number.
+            indices: Original indices of the samples in the batch.
+            learning_rate: The learning rate for the current step.
+            gradients: The (projected) per-sample gradients of the step.
+            factors: The gradient factors of the step, if they are not projected.
+        """
+        step_rate = learning_rate / len(indices)
+        # the caller may reuse the buffer for the next batch
+        step_indices = indices.detach().cpu().clone()
+        if self.use_factorization:
+            self.cached_factors.setdefault(epoch, [])
+        self.cached_gradients.setdefault(epoch, [])
+        if factors is not None:
+            self.cached_factors[epoch].append(factors)
+        if gradients is not None:
+            self.cached_gradients[epoch].append(gradients.cpu())
+        self.learning_rates.setdefault(epoch, []).append(step_rate)
+        self.data_indices.setdefault(epoch, []).append(step_indices)
 
-            self.learning_rates[epoch].append(learning_rate / len(indices))
-            self.data_indices[epoch].append(indices.cpu())
+    def _record_factors(
+        self,
+        epoch: int,
+        caches: List[Dict[str, Tensor]],
+        indices: Tensor,
+        learning_rate: float,
+    ) -> None:
+        """Record a step's gradient factors (with projection if configured).
+
+        Args:
+            epoch: The current epoch number.
+            caches: The gradient factors of the step.
+            indices: Original indices of the samples in the batch.
+            learning_rate: The learning rate for the current step.
+        """
+        if self.projection_dim_per_layer is None:
+            self._record_step(epoch, indices, learning_rate, factors=caches)
+            return
+        if self.factorization_type == "kronecker":
+            # kronecker with projection returns projected gradients directly
+            grads = self._project_gradients_factors_kronecker(caches)
+        else:
+            grads = self._project_gradients_factors_elementwise(caches)
+        self._record_step(epoch, indices, learning_rate, gradients=grads)
 
     def _calculate_full_gradients(
         self,
@@ -466,16 +504,8 @@ class DVEmbAttributor:
             indices: Original indices of the samples in the batch.
             learning_rate: The learning rate for the current step.
         """
-        if epoch not in self.cached_gradients:
-            self.cached_gradients[epoch] = []
-            self.learning_rates[epoch] = []
-            self.data_indices[epoch] = []
-
         per_sample_grads = self._calculate_full_gradients(batch_data)
-
-        self.cached_gradients[epoch].append(per_sample_grads.cpu())
-        self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self._record_step(epoch, indices, learning_rate, gradients=per_sample_grads)
 
     def _calculate_gradient_factors(
         self,
@@ -489,17 +519,26 @@ class DVEmbAttributor:
         Returns:
             A list of cached factor dictionaries for each linear layer.
         """
+        # The gradients of the user's own training step are put back afterwards
+        user_grads = [(p, p.grad) for p in self.model.parameters()]
         self.model.zero_grad()
         handles, caches = self._register_factorization_hooks()
 
-        # Strict requirements on batch_data
-        batch_data_tensors = [d.to(self.device) for d in batch_data]
-        loss = self.task.original_loss_func(self.model, batch_data_tensors, self.device)
-        loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
-        loss.backward()
-
-        for h in handles:
-            h.remove()
+        try:
+            # Strict requirements on batch_data
+            batch_data_tensors = [d.to(self.device) for d in batch_data]
+            loss = self.task.original_loss_func(
+                self.model,
+                batch_data_tensors,
+                self.device,
+            )
+            loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
+            loss.backward()
+        finally:
+            for h in handles:
+                h.remove()
+            for p, grad in user_grads:
+                p.grad = grad
 
         return caches
 
@@ -656,26 +695,8 @@ class DVEmbAttributor:
             indices: Original indices of the samples in the batch.
             learning_rate: The learning rate for the current step.
         """
-        if epoch not in self.cached_factors:
-            self.cached_factors[epoch] = []
-            self.cached_gradients[epoch] = []
-            self.learning_rates[epoch] = []
-            self.data_indices[epoch] = []
-
         caches = self._calculate_gradient_factors(batch_data)
-
-        if self.projection_dim_per_layer is None:
-            self.cached_factors[epoch].append(caches)
-        elif self.factorization_type == "kronecker":
-            # kronecker with projection returns projected gradients directly
-            projected_grads = self._project_gradients_factors_kronecker(caches)
-            self.cached_gradients[epoch].append(projected_grads.cpu())
-        else:
-            projected_grads = self._project_gradients_factors_elementwise(caches)
-            self.cached_gradients[epoch].append(projected_grads.cpu())
-
-        self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self._record_factors(epoch, caches, indices, learning_rate)
 
     def clear_cache(self) -> None:
         """Clears cached gradients and factors to free memory."""
-- 
2.43.0


From 1ee2ad2972728701689cc3d98fef789f46e98579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 26/36] fix: DVEmb embeddings are of one recorded trajectory;
 attribute() restores the mode

---
 dattri/algorithm/dvemb.py | 52 +++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 919c72b..7b74f84 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -734,10 +734,13 @@ class DVEmbAttributor:
             )
             raise ValueError(msg)
 
+        # Embeddings of an earlier trajectory are not mixed with these
+        self.embeddings = {}
+        # Copies of the dictionaries, which are cleared below to save memory
         if gradients is not None:
-            self.cached_gradients = gradients
+            self.cached_gradients = dict(gradients)
         if learning_rates is not None:
-            self.learning_rates = learning_rates
+            self.learning_rates = dict(learning_rates)
 
         has_full_grads = self.cached_gradients and any(self.cached_gradients.values())
         has_gradient_factors = (
@@ -759,13 +762,16 @@ class DVEmbAttributor:
             grad_dim = self._params_dim
             if self.projection_dim_per_layer is None:
                 # No projection: use cached factors
-                grad_dtype = self.cached_factors[0][0][0]["A"].dtype
+                first_factors = next(f for f in self.cached_factors.values() if f)
+                grad_dtype = first_factors[0][0]["A"].dtype
             else:
                 # With projection (kronecker or elementwise): use cached gradients
-                grad_dtype = self.cached_gradients[0][0].dtype
+                first_grads = next(g for g in self.cached_gradients.values() if g)
+                grad_dtype = first_grads[0].dtype
         else:
-            grad_dim = self.cached_gradients[0][0].shape[1]
-            grad_dtype = self.cached_gradients[0][0].dtype
+            first_grads = next(g for g in self.cached_gradients.values() if g)
+            grad_dim = first_grads[0].shape[1]
+            grad_dtype = first_grads[0].dtype
 
         # Create weighting matrix
         m_matrix = torch.zeros(
@@ -776,6 +782,7 @@ class DVEmbAttributor:
 
         # Calculate data embeddings for each epoch in reverse order
         sorted_epochs = sorted(self.learning_rates.keys(), reverse=True)
+        embeddings: Dict[int, Tensor] = {}
         # Going through epochs in reverse order
         for epoch in tqdm(sorted_epochs, desc="Computing DVEmb per Epoch"):
             epoch_embeddings = torch.zeros(
@@ -817,8 +824,9 @@ class DVEmbAttributor:
                     )
                     raise ValueError(msg)
 
-            self.embeddings[epoch] = epoch_embeddings
+            embeddings[epoch] = epoch_embeddings
 
+        self.embeddings = embeddings
         if memory_saving:
             self.clear_cache()
 
@@ -852,21 +860,27 @@ class DVEmbAttributor:
             raise RuntimeError(msg)
 
         # Create test gradients
+        modes = [(module, module.training) for module in self.model.modules()]
         self.model.eval()
         test_grads = []
-        for batch_data in tqdm(test_dataloader, desc="Calculating test gradients"):
-            if self.use_factorization:
-                factors = self._calculate_gradient_factors(batch_data)
-                if self.projection_dim_per_layer is None:
-                    grads = self._reconstruct_gradients(factors)
-                elif self.factorization_type == "kronecker":
-                    # kronecker with projection returns projected gradients directly
-                    grads = self._project_gradients_factors_kronecker(factors)
+        try:
+            for batch_data in tqdm(test_dataloader, desc="Calculating test gradients"):
+                if self.use_factorization:
+                    factors = self._calculate_gradient_factors(batch_data)
+                    if self.projection_dim_per_layer is None:
+                        grads = self._reconstruct_gradients(factors)
+                    elif self.factorization_type == "kronecker":
+                        # kronecker with projection returns projected gradients directly
+                        grads = self._project_gradients_factors_kronecker(factors)
+                    else:
+                        grads = self._project_gradients_factors_elementwise(factors)
                 else:
-                    grads = self._project_gradients_factors_elementwise(factors)
-            else:
-                grads = self._calculate_full_gradients(batch_data)
-            test_grads.append(grads)
+                    grads = self._calculate_full_gradients(batch_data)
+                test_grads.append(grads)
+        finally:
+            # the model may be in the middle of its training
+            for module, mode in modes:
+                module.training = mode
         test_grads_tensor = torch.cat(test_grads, dim=0).to(self.device)
 
         # Select active embeddings (according to epoch if specified)
-- 
2.43.0


From d68c27d92f62710dfb9aa1552bf13bae3d07c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 27/36] fix: iterating cached gradients leaves the global
 random generator alone

---
 dattri/algorithm/block_projected_if/offload/cpu.py              | 2 ++
 .../block_projected_if/offload/disk_io/prefetch_dataset.py      | 2 ++
 dattri/algorithm/block_projected_if/offload/memory.py           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/offload/cpu.py b/dattri/algorithm/block_projected_if/offload/cpu.py
index 1aaa9ee..84c44a2 100644
--- a/dattri/algorithm/block_projected_if/offload/cpu.py
+++ b/dattri/algorithm/block_projected_if/offload/cpu.py
@@ -320,6 +320,8 @@ class CPUOffloadManager(Offload):
             shuffle=False,
             pin_memory=pin_memory,
             collate_fn=collate_fn,
+            # iterating must not draw from the global generator
+            generator=torch.Generator(),
         )
 
     def has_preconditioners(self) -> bool:
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index a3a230d..3683daf 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -492,4 +492,6 @@ def create_tensor_dataloader(
         shuffle=False,
         collate_fn=async_collate_fn,
         persistent_workers=False,
+        # iterating must not draw from the global generator
+        generator=torch.Generator(),
     )
diff --git a/dattri/algorithm/block_projected_if/offload/memory.py b/dattri/algorithm/block_projected_if/offload/memory.py
index 4a82255..ea3b152 100644
--- a/dattri/algorithm/block_projected_if/offload/memory.py
+++ b/dattri/algorithm/block_projected_if/offload/memory.py
@@ -300,6 +300,8 @@ class MemoryOffloadManager(Offload):
             batch_size=batch_size,
             shuffle=False,
             collate_fn=collate_fn,
+            # iterating must not draw from the global generator
+            generator=torch.Generator(),
         )
 
     def has_preconditioners(self) -> bool:
-- 
2.43.0


From 64b39462681423deace4a20f99f727944353a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 28/36] Revert "fix: an interrupted benchmark or MAESTRO
 download is never taken for the whole"

This reverts commit 6df63f90e512984df8bcb99d1ee12176162644dd.
---
 dattri/benchmark/datasets/maestro/data.py     | 27 ++++---------------
 dattri/benchmark/load.py                      | 19 +++----------
 .../MusicTransformer/dataset/e_piano.py       |  4 +--
 3 files changed, 11 insertions(+), 39 deletions(-)

diff --git a/dattri/benchmark/datasets/maestro/data.py b/dattri/benchmark/datasets/maestro/data.py
index 127b6cd..830bfb6 100644
--- a/dattri/benchmark/datasets/maestro/data.py
+++ b/dattri/benchmark/datasets/maestro/data.py
@@ -3,7 +3,6 @@
 # ruff: noqa: PLR1702
 from __future__ import annotations
 
-import shutil
 import zipfile
 from pathlib import Path
 from typing import TYPE_CHECKING
@@ -47,14 +46,11 @@ def create_maestro_datasets(
     Returns:
         Tuple[Dataset, Dataset]: The training and testing
             MAESTRO datasets.
-
-    Raises:
-        ValueError: If the downloaded dataset cannot be processed.
     """
     # check if dataset_path exists
     if not Path(dataset_path).exists():
         # create
-        Path(dataset_path).mkdir(parents=True, exist_ok=True)
+        Path(dataset_path).mkdir()
 
     # define the dir name
     processed_dataset_dir = Path(dataset_path) / "maestro-v2.0.0-processed"
@@ -66,7 +62,6 @@ def create_maestro_datasets(
         zip_dataset_file = Path(dataset_path) / "maestro-v2.0.0-midi.zip"
         dataset_urls = "https://storage.googleapis.com/magentadata/datasets/maestro/v2.0.0/maestro-v2.0.0-midi.zip"
         response = requests.get(dataset_urls, stream=True, timeout=20)
-        response.raise_for_status()
         with zip_dataset_file.open("wb") as midi:
             for chunk in response.iter_content(chunk_size=1024):
                 if chunk:
@@ -77,34 +72,22 @@ def create_maestro_datasets(
             for file_info in zip_ref.infolist():
                 zip_ref.extract(file_info, dataset_path)
 
-        # then pre-process the unzipped file, put in place when all of it is done
-        temp_dataset_dir = Path(dataset_path) / "maestro-v2.0.0-processed.tmp"
-        if temp_dataset_dir.exists():
-            shutil.rmtree(temp_dataset_dir)
-        if not prep_maestro_midi(unzip_dataset_dir, temp_dataset_dir):
-            error_msg = f"The dataset in {unzip_dataset_dir} cannot be processed."
-            raise ValueError(error_msg)
-        temp_dataset_dir.rename(processed_dataset_dir)
+        # then pre-process the unzipped file
+        prep_maestro_midi(unzip_dataset_dir, processed_dataset_dir)
 
     zip_gen_dataset_file = Path(dataset_path) / "generated_music.zip"
-    gen_dataset_dir = Path(dataset_path) / "generated_music"
-    if not gen_dataset_dir.exists():
+    if not zip_gen_dataset_file.exists():
         # get the generated music zip file
         gen_dataset_urls = "https://huggingface.co/datasets/trais-lab/dattri-benchmark/resolve/main/maestro_musictransformer/generated_music.zip?download=true"
         response = requests.get(gen_dataset_urls, stream=True, timeout=20)
-        response.raise_for_status()
         with zip_gen_dataset_file.open("wb") as midi:
             for chunk in response.iter_content(chunk_size=1024):
                 if chunk:
                     midi.write(chunk)
 
-        temp_gen_dataset_dir = Path(dataset_path) / "generated_music.tmp"
-        if temp_gen_dataset_dir.exists():
-            shutil.rmtree(temp_gen_dataset_dir)
         with zipfile.ZipFile(zip_gen_dataset_file, "r") as zip_ref:
             for file_info in zip_ref.infolist():
-                zip_ref.extract(file_info, temp_gen_dataset_dir)
-        temp_gen_dataset_dir.rename(gen_dataset_dir)
+                zip_ref.extract(file_info, Path(dataset_path) / "generated_music")
 
     # create the train datasets from pre-processed data
     train_dataset, val_dataset, _ = create_epiano_datasets(
diff --git a/dattri/benchmark/load.py b/dattri/benchmark/load.py
index 9b8cc22..21af489 100644
--- a/dattri/benchmark/load.py
+++ b/dattri/benchmark/load.py
@@ -8,7 +8,6 @@ if TYPE_CHECKING:
     from typing import Any, Dict, Tuple
 
 import pathlib
-import shutil
 import warnings
 import zipfile
 from functools import partial
@@ -240,23 +239,17 @@ def load_benchmark(  # noqa:PLR0914
     url_map = generate_url_map(identifier)
     download_path = pathlib.Path(download_path).expanduser()
 
-    benchmark_path = download_path / "benchmark" / identifier
-    if not benchmark_path.exists() or redownload:
-        # The files are put in place together, once all of them are downloaded.
-        temp_path = benchmark_path.with_name(f"{identifier}.tmp")
-        if temp_path.exists():
-            # left by an interrupted download
-            shutil.rmtree(temp_path)
+    if not (download_path / "benchmark" / identifier).exists() or redownload:
         for key in ["models_full", "models_half"]:
             _download(
                 url_map[key],
-                temp_path / key,
+                download_path / "benchmark" / identifier / key,
                 unzip=True,
             )
         for path in url_map["groundtruth"]["lds"]:
             _download(
                 path,
-                temp_path / "lds",
+                download_path / "benchmark" / identifier / "lds",
                 unzip=False,
                 file_name=path.split("?")[0].split("/")[-1],
             )
@@ -265,14 +258,10 @@ def load_benchmark(  # noqa:PLR0914
                 break
             _download(
                 path,
-                temp_path / "loo",
+                download_path / "benchmark" / identifier / "loo",
                 unzip=False,
                 file_name=path.split("?")[0].split("/")[-1],
             )
-        if benchmark_path.exists():
-            benchmark_path.rename(temp_path / "replaced")
-        temp_path.rename(benchmark_path)
-        shutil.rmtree(benchmark_path / "replaced", ignore_errors=True)
 
     models_full_count = _count_folders(
         download_path / "benchmark" / identifier / "models_full",
diff --git a/dattri/benchmark/models/MusicTransformer/dataset/e_piano.py b/dattri/benchmark/models/MusicTransformer/dataset/e_piano.py
index 0661a32..897e4e7 100644
--- a/dattri/benchmark/models/MusicTransformer/dataset/e_piano.py
+++ b/dattri/benchmark/models/MusicTransformer/dataset/e_piano.py
@@ -108,7 +108,7 @@ class EPianoDataset(Dataset):
 
         return x, tgt
 
-    def _get_x_tgt(self, filename, offset=None):
+    def _get_x_tgt(self, filename, offset=0):
         # All data on cpu to allow for the Dataloader to multithread
         i_stream    = open(filename, "rb")
         # return pickle.load(i_stream), None
@@ -148,7 +148,7 @@ def process_midi(raw_mid, max_seq, random_seq, offset=None):
         tgt[raw_len-1]      = TOKEN_END
     else:
         # have a customized offset
-        if offset is not None:
+        if offset:
             start = offset
         else:
             # Randomly selecting a range
-- 
2.43.0


From 1763e2ebfa07e931206ba56d7a83fe4efc59cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 29/36] fix: a batch retrieved from an active chunk buffer
 stays what it is

---
 dattri/algorithm/block_projected_if/offload/disk_io/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index cea822d..7a5da87 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -800,7 +800,8 @@ class ChunkedDiskIOManager:
                     if info["batch_idx"] == batch_idx:
                         start_row = info["start_row"]
                         end_row = info["end_row"]
-                        batch_tensor = buffer.tensor[start_row:end_row]
+                        # The buffer will be reused for other batches
+                        batch_tensor = buffer.tensor[start_row:end_row].clone()
                         return self._split_tensor_to_layers(batch_tensor)
 
         # Check read cache
-- 
2.43.0


From 976204789ccd4471dc43871868364468dc7d62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 30/36] fix: EK-FAC observes the model that the loss function
 runs

---
 dattri/algorithm/influence_function.py | 4 ++--
 dattri/task.py                         | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 1bca942..447ee76 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -911,7 +911,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
 
         self.damping = damping
         self.name_to_module = {
-            name: self.task.model.get_submodule(name) for name in module_name
+            name: self.task.original_model.get_submodule(name) for name in module_name
         }
         self.module_to_name = {v: k for k, v in self.name_to_module.items()}
 
@@ -993,7 +993,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             for name in self.module_name:
                 # Once the model is forward once, the input and output of the layer
                 # in `module_name` will be stored in `self.layer_cache[name]`
-                mod = self.task.model.get_submodule(name)
+                mod = self.name_to_module[name]
                 handles.append(mod.register_forward_hook(_ekfac_hook))
 
             func = partial(self.task.get_target_func(), self.task.get_param()[0])
diff --git a/dattri/task.py b/dattri/task.py
index e15ab74..9c603a3 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -110,6 +110,9 @@ class AttributionTask:
                 ```.
         """
         self.model = model
+        # The loss and target functions run this model, even if loading a checkpoint
+        # replaces `self.model`.
+        self.original_model = model
         if target_func is None:
             target_func = loss_func
 
-- 
2.43.0


From b26d1766f03352e4f46fa72faa32a5eecc6c7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 31/36] fix: surplus models of an earlier run cannot complete
 another LDS subset

---
 dattri/model_util/retrain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index ca11324..85134e1 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -291,6 +291,8 @@ def retrain_lds(
 
     # Models of an earlier run must not be mistaken for those of this run
     for i in range(start_id, start_id + num_subsets):
+        # without its indices a subset is not finished, whichever models remain
+        (path / str(i) / "indices.txt").unlink(missing_ok=True)
         for file in (path / str(i)).glob("model_weights_*.pt"):
             file.unlink()
 
-- 
2.43.0


From 416c0996b3c02a84b8d2a08e2a458c79f3b6a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:34 +0000
Subject: [PATCH 32/36] fix: a failed cache() does not let an earlier cache
 answer

When the files of the earlier cache could not be removed, self-attribution
after a failed cache() returned the scores of the earlier data set.
---
 .../algorithm/block_projected_if/block_projected_if.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 721af22..9282d16 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -151,6 +151,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         self.layer_dims: Optional[List[int]] = None
         self.total_proj_dim: Optional[int] = None
         self._ifvp_in_progress = False  # True if computing IFVP was aborted
+        self._cache_failed = False  # True if the last cache() was aborted
 
         # Validation
         if offload == "disk" and cache_dir is None:
@@ -226,11 +227,14 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         # Forget an earlier cache, also one that another run left behind
         self.full_train_dataloader = None
+        self._cache_failed = False
         try:
             self.metadata.clear()
             self.offload_manager.clear_cache()
             self._cache_dataset(full_train_dataloader)
         except BaseException:
+            # What cannot be removed, e.g. an earlier cache, must not be used
+            self._cache_failed = True
             # Leave no partial cache behind, nor writes that are still queued
             with contextlib.suppress(Exception):
                 self.offload_manager.clear_cache()
@@ -677,8 +681,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
             data_type: Type of the delivered data.
 
         Raises:
-            RuntimeError: If no batches are known, or any was not delivered.
+            RuntimeError: If the last cache() failed, no batches are known, or any
+                was not delivered.
         """
+        if self._cache_failed:
+            msg = "The last cache() failed. Call cache() again."
+            raise RuntimeError(msg)
         expected = self.metadata.get_batch_to_sample_mapping()
         missing = sorted(set(expected) - set(delivered))
         if missing or not expected:
-- 
2.43.0


From 58c4c95ab8f64180260a1c08d73d6ca57bd2a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:27 +0000
Subject: [PATCH 33/36] fix: DVEmb counts its projectors as set up only when
 all of them are

---
 dattri/algorithm/dvemb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 7b74f84..6450df9 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -163,7 +163,7 @@ class DVEmbAttributor:
         Creates self.random_projectors as a list of tuples containing
         (input_projector, output_projector) for each Linear layer.
         """
-        self.random_projectors = []
+        random_projectors = []
         for layer in self._linear_layers:
             output_dim = layer.weight.shape[0]
             input_dim = layer.weight.shape[1]
@@ -187,7 +187,9 @@ class DVEmbAttributor:
                     proj_max_batch_size=self.proj_params.proj_max_batch_size,
                 ),
             )
-            self.random_projectors.append((project_input, project_output))
+            random_projectors.append((project_input, project_output))
+        # only a complete list counts as set up
+        self.random_projectors = random_projectors
 
     def _get_target_linear_layers(self) -> List[nn.Module]:
         """Gets the target Linear layers based on specified layer names.
-- 
2.43.0


From ac5915d4e7c855f85857e1b6b8dcfb20876593a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:27 +0000
Subject: [PATCH 34/36] fix: a failed projection does not leave another
 ensemble's randomness behind

---
 dattri/func/projection.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index f3bc37c..574f06a 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -328,6 +328,16 @@ class BasicProjector(AbstractProjector):
             msg = f"Projection type {self.proj_type} not recognized."
             raise KeyError(msg)
 
+    def _regenerate(self) -> None:
+        """Generate the randomness of the current ensemble_id."""
+        self.get_generator_states()  # regenerate random seeds for new ensemble_id
+        if self.proj_type == ProjectionType.random_mask:
+            self._gen_randomness_mask(self.generator_states[0])
+        elif self.proj_type == ProjectionType.identity:
+            pass  # No randomness needed for identity projection
+        elif self.num_blocks == 1:
+            self._gen_randomness_dense(self.generator_states[0])
+
     def project(self, features: Union[dict, Tensor], ensemble_id: int) -> Tensor:
         """Performs the random projection on the feature matrix.
 
@@ -343,13 +353,12 @@ class BasicProjector(AbstractProjector):
 
         if ensemble_id != self.ensemble_id:
             self.ensemble_id = ensemble_id
-            self.get_generator_states()  # regenerate random seeds for new ensemble_id
-            if self.proj_type == ProjectionType.random_mask:
-                self._gen_randomness_mask(self.generator_states[0])
-            elif self.proj_type == ProjectionType.identity:
-                pass  # No randomness needed for identity projection
-            elif self.num_blocks == 1:
-                self._gen_randomness_dense(self.generator_states[0])
+            try:
+                self._regenerate()
+            except BaseException:
+                # what there is now belongs to neither ensemble
+                self.ensemble_id = None
+                raise
 
         # Handle random_mask projection separately
         if self.proj_type == ProjectionType.random_mask:
-- 
2.43.0


From c30aade385dd56ea374b93b9c82731fa648429ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:32 +0000
Subject: [PATCH 35/36] fix: nanoGPT retraining reports a preparation or
 training that failed

---
 dattri/script/dattri_retrain_nanogpt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dattri/script/dattri_retrain_nanogpt.py b/dattri/script/dattri_retrain_nanogpt.py
index 1464f89..fcf76e0 100644
--- a/dattri/script/dattri_retrain_nanogpt.py
+++ b/dattri/script/dattri_retrain_nanogpt.py
@@ -44,7 +44,7 @@ def retrain(  # noqa:PLR0912
                         --data_file {dataset_file}"
         else:
             command = f"python {Path(dataset_path) / 'prepare.py'}"
-        subprocess.run(command, shell=True)
+        subprocess.run(command, shell=True, check=True)
 
     if only_download:
         info_msg = f"Dataset is downloaded to {dataset_path}. Exiting."
@@ -84,9 +84,10 @@ def retrain(  # noqa:PLR0912
         temp_config_path = Path(tempfile.mktemp())
         temp_config_path.write_text("\n".join(modified_config), encoding="utf-8")
         command = f"python train.py {temp_config_path}"
-        subprocess.run(command, shell=True)
-
-        temp_config_path.unlink()
+        try:
+            subprocess.run(command, shell=True, check=True)
+        finally:
+            temp_config_path.unlink()
         seed += 1
 
 
-- 
2.43.0


From f2144f6d8d34f7ddf97887db398f281ca8b42537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:32 +0000
Subject: [PATCH 36/36] fix: nanoGPT retraining over an earlier run does not
 mix with its files

---
 dattri/script/dattri_retrain_nanogpt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dattri/script/dattri_retrain_nanogpt.py b/dattri/script/dattri_retrain_nanogpt.py
index fcf76e0..64a5606 100644
--- a/dattri/script/dattri_retrain_nanogpt.py
+++ b/dattri/script/dattri_retrain_nanogpt.py
@@ -81,6 +81,11 @@ def retrain(  # noqa:PLR0912
                 modified_config.append(line)
         modified_config.append(f"dataset_path = '{dataset_path!s}'\n")
 
+        # The training appends to the indices and may save no checkpoint: those of
+        # an earlier or interrupted run must not remain.
+        for name in ("ckpt.pt", "indices.txt"):
+            (Path(save_path) / f"model_{i + 1}" / name).unlink(missing_ok=True)
+
         temp_config_path = Path(tempfile.mktemp())
         temp_config_path.write_text("\n".join(modified_config), encoding="utf-8")
         command = f"python train.py {temp_config_path}"
-- 
2.43.0

