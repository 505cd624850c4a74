"""Writes known_findings.json: fixed defects (suppress nothing) and known ones."""
import json, pathlib, subprocess
ROOT = pathlib.Path(__file__).resolve().parent.parent
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
H = {s: h for h, s in (l.split("\t", 1) for l in log)}
FIXED = [
 ("D01", "fix: disk offload works on machines without CUDA (pinned buffers only with a GPU)", "every use of offload='disk' on a machine without CUDA raised (pinned buffers)"),
 ("D05", "fix: report failed disk-cache writes at the barrier instead of hanging or dropping them", "a failed chunk write was logged and dropped, or the barrier hung for ever"),
 ("D02", "fix: store batches that exceed a disk chunk buffer; never queue an empty chunk", "a batch larger than the chunk buffer, or an empty chunk, was lost or raised in the writer thread"),
 ("D03", "fix: commit a chunk by an atomic rename of its metadata", "a process killed between chunk data and metadata left a chunk that read back as zeros or as another batch"),
 ("D10", "fix: a re-stored or cleared disk cache never serves earlier batches", "after a re-store or clear_cache() the read cache and old chunk files served earlier batches"),
 ("D09", "fix: write workers end with their disk offload manager", "write workers of a dropped manager ran for ever"),
 ("D09", "fix: the prefetch thread ends with its loader", "the prefetch thread of a dropped or abandoned loader ran for ever"),
 ("D08", "fix: bound the chunks held by the prefetching loader", "the prefetcher's memory was not bounded by the prefetch window"),
 ("D06", "fix: the chunk loader raises on unreadable chunks and keeps batch order", "unreadable chunks were skipped silently by the loader"),
 ("D06", "fix: a missing preconditioner is an error, a removed one is removed from disk", "an unreadable preconditioner was treated as identity"),
 ("D04", "fix: batch metadata describes the current dataset, never an earlier one", "a larger earlier dataset in the cache directory shifted or enlarged the scores"),
 ("D12", "fix: metadata updates and saves are atomic under one lock, a failed save raises", "concurrent updates were lost, and a failed save was only logged"),
 ("D06", "fix: incomplete cached gradients or IFVPs raise instead of giving zero scores", "missing batches gave zero scores"),
 ("D04", "fix: cache() starts from an empty cache and the task's first checkpoint", "cache() on a used directory mixed earlier chunks into the scores; it used whichever checkpoint was loaded"),
 ("A02", "fix: an aborted cache() or attribute() leaves no hooks on the model", "an exception inside cache()/attribute() left hooks on the user's model"),
 ("A01", "fix: a failed cache() leaves neither a partial cache nor queued writes behind", "attribute() after a failed cache() used the partial cache"),
 ("R02", "fix: interrupted, repeated or partitioned retraining leaves a true record", "interrupted or partitioned retraining left metadata that claimed missing, stale or foreign models (also R01, R03, R04)"),
 ("R02", "fix: surplus models of an earlier run cannot complete another LDS subset", "a partition stopped while removing an earlier run's models (more runs per subset) left exactly the files another partition takes for the new run's"),
 ("D05", "fix: a failed cache() does not let an earlier cache answer", "self-attribution after a cache() whose removal of the earlier cache failed returned the earlier data set's scores"),
]
KNOWN = []
extra = ROOT / "tools" / "known_extra.json"
if extra.exists():
    e = json.loads(extra.read_text())
    FIXED += [tuple(x) for x in e["fixed"]]
    KNOWN = e["known"]
out = []
for i, (p, s, w) in enumerate(FIXED):
    assert s in H, s
    out.append({"property": p, "id": f"fixed-{i + 1:02d}", "status": "fixed", "commit": H[s], "what": w,
                "entry": f"fixed: property={p} {H[s]} {w}"})
json.dump({"findings": out + KNOWN}, open(ROOT / "known_findings.json", "w"), indent=1)
print(len(out), len(KNOWN))
