"""Seeded search over simulated runs, minimisation, replay, evidence."""

from __future__ import annotations

import collections
import hashlib
import json
import os
import pathlib
import pickle
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import epoch as ep
from . import patches
from .core import Choices, HarnessError, Unusable, Violation

VERIF = pathlib.Path(__file__).resolve().parent.parent
now = patches.real_monotonic if patches.INSTALLED else time.monotonic
SCRATCH_BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"


def rnow():
    return patches.real_monotonic()


class Ctx:
    """One simulated run: its choices, its scratch directory, its history."""

    def __init__(self, choices, scratch, tier="quick", verbose=False):
        self.c = choices
        self.scratch = scratch
        self.tier = tier
        self.story = []
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.sim_time = 0.0
        self.steps = self.lines = self.switches = 0
        self.hash = hashlib.blake2b(digest_size=8)
        self.epochs = 0
        self.policies = collections.Counter()
        self.maxthreads = 0
        self.fsops = collections.Counter()
        self.knowns = collections.Counter()
        self.pid = None
        self._dirs = 0
        self.verbose = verbose

    # ------------------------------------------------------------- choices
    def draw(self, n, s="op"):
        return self.c.draw(s, n)

    def pick(self, seq, weights=None, s="op"):
        return self.c.pick(s, list(seq), weights)

    def between(self, lo, hi, s="op"):
        return self.c.between(s, lo, hi)

    def chance(self, p, s="op"):
        return self.c.chance(s, p)

    def say(self, *what):
        self.story.append(" ".join(str(w) for w in what))
        if self.verbose:
            print("   ", self.story[-1], flush=True)

    def probe(self, name, n=1):
        self.probes[name] += n

    def dir(self, name=None):
        self._dirs += 1
        d = os.path.join(self.scratch, name or f"d{self._dirs}")
        os.makedirs(d, exist_ok=True)
        return d

    def known(self, kid, kind, *detail):
        """A violation whose history the workload has recognised as the listed
        finding `kid`; an unlisted one is a violation like any other."""
        if not any(k["id"] == kid and k["property"] == self.pid and k.get("status") == "known" for k in load_known()):
            raise Violation(kind, " ".join(str(d) for d in detail))
        self.knowns[kid] += 1
        self.say("known finding", kid, kind)

    # -------------------------------------------------------------- epochs
    def epoch(self, fn, args=(), root=None, name=None, hang="violation", **opts):
        """Simulated process.  Returns its Outcome; raises Violation for
        violations and hangs."""
        self.epochs += 1
        name = name or f"p{self.epochs}"
        o = ep.run_epoch(self.c, name, root or self.scratch, fn, args, **opts)
        self._account(name, o)
        if o.kind == "violation":
            raise Violation(o.value, o.detail)
        if o.kind == "abort" and hang == "violation":
            raise Violation("hang", f"{o.value}: {o.detail}")
        return o

    def pure(self, fn, args=()):
        """Run fn(None, *args) in a forked child without the simulator."""
        o = ep.run_epoch(self.c, "pure", None, fn, args, sim=False)
        if o.kind == "violation":
            raise Violation(o.value, o.detail)
        return o

    def value(self, fn, args=()):
        o = self.pure(fn, args)
        if o.kind != "ok":
            if "/dattri/" in o.detail:
                raise Violation("failed-without-faults", f"an undisturbed run failed: {o.value} {o.detail[-1200:]}")
            raise HarnessError(f"reference computation failed: {o.detail}")
        return o.value

    def _account(self, name, o):
        s = o.stats
        if not s:
            return
        self.fired.update(s["fired"])
        self.probes.update(s["probes"])
        self.sim_time += s["sim_time"]
        self.steps += s["steps"]
        self.lines += s["lines"]
        self.switches += s["switches"]
        self.policies[s["policy"]] += 1
        self.maxthreads = max(self.maxthreads, s["threads"])
        self.fsops.update(s["fsops"])
        self.hash.update(b"%d/%s" % (s["hash"], o.kind.encode()))
        self.story.append(
            f"[{name}] {o.kind}"
            + (f" {str(o.value)[:160]}" if o.kind in ("exc", "crashed", "abort", "violation") else "")
            + (f" faults={[p for p, h in s['plans'] if h]}" if any(h for _, h in s["plans"]) else "")
            + (f" thread-errors={s['thread_errors']}" if s["thread_errors"] else "")
        )
        if self.verbose:
            print("   ", self.story[-1], f"steps={s['steps']} lines={s['lines']} t={s['sim_time']:.3f} pol={s['policy']} thr={s['threads']}", flush=True)

    def digest(self):
        h = self.hash.copy()
        h.update(repr(self.story).encode())
        return h.hexdigest()


def run_one(check, seed, scratch, tier, replay=None, verbose=False):
    """Returns a plain result dict."""
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    ctx = Ctx(Choices(seed, replay), scratch, tier, verbose)
    ctx.pid = check.pid
    res = {"violation": None, "harness": None}
    cwd = os.getcwd()
    t = rnow()
    try:
        os.chdir(scratch)
        names = [n for n, _, _ in check.scenarios]
        w = [w for _, _, w in check.scenarios]
        i = ctx.c.take("scenario", len(names),
                       lambda r: r.choices(range(len(names)), weights=w)[0])
        res["scenario"] = names[i]
        check.scenarios[i][1](ctx)
    except Violation as v:
        res["violation"] = (v.kind, v.detail)
    except HarnessError as e:
        res["harness"] = f"{e}"
    except Unusable as e:
        ctx.probe(f"unusable configuration: {e}")
        ctx.story.append(f"unusable configuration: {e}")
    except Exception:  # noqa: BLE001
        tb = traceback.format_exc()
        if "/dattri/" in tb:
            res["violation"] = ("failed-without-faults", tb[-1500:])
        else:
            res["harness"] = tb
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(
        story=ctx.story, fired=dict(ctx.fired), probes=dict(ctx.probes),
        sim_time=ctx.sim_time, steps=ctx.steps, lines=ctx.lines,
        switches=ctx.switches, digest=ctx.digest(), epochs=ctx.epochs,
        policies=dict(ctx.policies), maxthreads=ctx.maxthreads,
        fsops=dict(ctx.fsops), real=rnow() - t, knowns=dict(ctx.knowns),
    )
    if res["violation"] or res["harness"]:
        res["streams"] = ctx.c.dump()
    return res


# --------------------------------------------------------------- parallelism
def _worker(check, base, idxs, tier, w, deadline, tag):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    scratch = os.path.join(SCRATCH_BASE, f"dsim-{tag}-{os.getpid()}")
    try:
        for i in idxs:
            if rnow() > deadline:
                break
            r = run_one(check, f"{base}:{check.pid}:{i}", scratch, tier)
            r["index"] = i
            data = pickle.dumps(r, protocol=5)
            os.write(w, struct.pack("<Q", len(data)))
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        os._exit(3)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)


def search(check, base, n, tier, budget, workers=8, on_result=None, start=0):
    """Run seeds start..start+n-1; returns aggregate.  Stops early on violation."""
    tag = f"{os.getpid()}"
    deadline = rnow() + budget
    fds, pids = {}, []
    for k in range(workers):
        r, w = os.pipe()
        parent = os.getpid()
        pid = os.fork()
        if pid == 0:
            ep.die_with_parent(parent)
            os.close(r)
            for f in fds:
                os.close(f)
            _worker(check, base, range(start + k, start + n, workers), tier, w, deadline, tag)
        os.close(w)
        fds[r] = bytearray()
        pids.append(pid)
    results = []
    stop = False
    while fds and not stop:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for f in rd:
            b = os.read(f, 1 << 20)
            if not b:
                os.close(f)
                del fds[f]
                continue
            buf = fds[f]
            buf += b
            while len(buf) >= 8:
                ln = struct.unpack("<Q", buf[:8])[0]
                if len(buf) < 8 + ln:
                    break
                r = pickle.loads(bytes(buf[8:8 + ln]))
                del buf[:8 + ln]
                results.append(r)
                if on_result and on_result(r):
                    stop = True
    for p in pids:
        if stop:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if os.waitpid(p, 0)[1] and not stop:
            raise HarnessError("a worker process died")
    for f in fds:
        os.close(f)
    if stop:  # killed workers leave their epochs' children and scratch behind
        for d in pathlib.Path(SCRATCH_BASE).glob(f"dsim-{tag}-*"):
            shutil.rmtree(d, ignore_errors=True)
    return results


# ------------------------------------------------------------ minimisation
def _nonzero(streams):
    return [(k, i) for k, v in streams.items() for i, x in enumerate(v) if x]


def minimise(check, streams, kind, tier, budget, scratch):
    """Greedy delta debugging on the choice streams; 0 is the dullest value."""
    best = {k: list(v) for k, v in streams.items()}
    deadline = rnow() + budget
    tried = 0

    def fails(cand):
        nonlocal tried
        if rnow() > deadline:
            return None
        tried += 1
        r = run_one(check, None, scratch, tier, replay=cand)
        if r["violation"] and r["violation"][0] == kind:
            return {k: list(v) for k, v in r["streams"].items()}
        return None

    def attempt(cand):
        nonlocal best
        got = fails(cand)
        if got is not None:
            if len(_nonzero(got)) <= len(_nonzero(best)) or sum(map(len, got.values())) < sum(map(len, best.values())):
                best = got
                return True
        return False

    # whole streams first (schedule, line preemption, io delays, ...)
    for k in sorted(best, key=lambda k: -len(best[k])):
        if k == "scenario" or k not in best:
            continue
        if any(best[k]):
            attempt({**best, k: []})
    # then chunks of non-zero entries
    for rounds in range(3):
        before = len(_nonzero(best))
        for k in sorted(best, key=lambda k: -len(best[k])):
            if k not in best or k == "scenario":
                continue
            nz = [i for i, x in enumerate(best[k]) if x]
            size = max(1, len(nz) // 2)
            while size >= 1 and nz and rnow() < deadline:
                j = 0
                while j < len(nz) and rnow() < deadline:
                    cut = set(nz[j:j + size])
                    cand = {**best, k: [0 if i in cut else x for i, x in enumerate(best[k])]}
                    attempt(cand)
                    j += size
                nz = [i for i, x in enumerate(best.get(k, [])) if x]
                size //= 2
        # lower the operation choices one by one
        for k in list(best):
            if "op" not in k.split(":")[-1] or rnow() > deadline:
                continue
            for i in range(len(best.get(k, []))):
                if k not in best or i >= len(best[k]) or rnow() > deadline:
                    break
                x = best[k][i]
                for y in (x // 2, x - 1):
                    if 0 <= y < x:
                        v = list(best[k])
                        v[i] = y
                        if attempt({**best, k: v}):
                            break
        if len(_nonzero(best)) == before or rnow() > deadline:
            break
    return best, tried


def pack(streams):
    """Sparse, readable form: trailing zeros dropped."""
    out = {}
    for k, v in streams.items():
        v = list(v)
        while v and v[-1] == 0:
            v.pop()
        if v:
            if sum(1 for x in v if x) * 4 < len(v):
                out[k] = {"n": len(v), "set": {str(i): x for i, x in enumerate(v) if x}}
            else:
                out[k] = v
    return out


def unpack(streams):
    out = {}
    for k, v in streams.items():
        if isinstance(v, dict):
            a = [0] * v["n"]
            for i, x in v["set"].items():
                a[int(i)] = x
            out[k] = a
        else:
            out[k] = v
    return out


def load_known():
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return json.loads(f.read_text())["findings"]


def known_for(pid, violation, scenario):
    for k in load_known():
        if k["property"] != pid or k.get("status") != "known" or "kind" not in k.get("match", {}):
            continue
        m = k["match"]
        if m.get("scenario") not in (None, scenario):
            continue
        if m["kind"] != violation[0]:
            continue
        if all(x in violation[1] for x in m.get("contains", [])):
            return k
    return None


def main(check, argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int)
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at violations")
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args(argv)
    print(f"property={check.pid} seed={a.seed} tier={a.tier}", flush=True)
    scratch = os.path.join(SCRATCH_BASE, f"dsim-main-{os.getpid()}")
    try:
        return _main(check, a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(check, a, scratch):
    if a.replay:
        d = json.loads(pathlib.Path(a.replay).read_text())
        r = run_one(check, None, scratch, d["tier"], replay=unpack(d["streams"]), verbose=True)
        print(json.dumps({k: r[k] for k in ("violation", "harness", "digest", "scenario")}, indent=1))
        if r["harness"]:
            return 2
        if r["violation"]:
            same = r["violation"][0] == d["kind"]
            print(f"reproduced: kind={'same' if same else 'different'} digest={'same' if r['digest'] == d['digest'] else 'different'}")
            print(f"VIOLATION property={check.pid} replay={a.replay}")
            return 1
        print("not reproduced: the property held on this replay")
        return 0
    if a.one is not None:
        r = run_one(check, f"{a.seed}:{check.pid}:{a.one}", scratch, a.tier, verbose=True)
        r.pop("streams", None)
        r.pop("story")
        print(json.dumps(r, indent=1))
        return 1 if r["violation"] else 0

    t0 = rnow()
    n = a.runs or (check.quick_runs if a.tier == "quick" else 10**7)
    budget = a.budget or (check.quick_budget if a.tier == "quick" else check.thorough_budget)
    agg = collections.Counter()
    fired, probes, fsops, pol, scen = (collections.Counter() for _ in range(5))
    digests = set()
    seeds_nontrivial = 0
    state = {"viol": None, "harness": [], "simtime": 0.0, "maxthr": 0, "real": 0.0}
    known_hits = {}
    samples = []
    alls = collections.Counter()
    dlist = {}

    def on_result(r):
        nonlocal seeds_nontrivial
        agg["runs"] += 1
        agg["steps"] += r["steps"]
        agg["lines"] += r["lines"]
        agg["switches"] += r["switches"]
        agg["epochs"] += r["epochs"]
        state["simtime"] += r["sim_time"]
        state["real"] += r["real"]
        state["maxthr"] = max(state["maxthr"], r["maxthreads"])
        fired.update(r["fired"])
        probes.update(r["probes"])
        fsops.update(r["fsops"])
        pol.update(r["policies"])
        scen[r.get("scenario")] += 1
        dlist[r["index"]] = r["digest"]
        for k in r["knowns"]:
            known_hits[k] = known_hits.get(k, 0) + 1
        if r["switches"] + sum(r["fired"].values()) > 0 or r["epochs"] > 1:
            digests.add(r["digest"])
        if len(samples) < 3 and r["story"]:
            samples.append({"index": r["index"], "scenario": r.get("scenario"), "story": r["story"][:40]})
        if r["harness"]:
            state["harness"].append((r["index"], r["harness"]))
            return len(state["harness"]) > 5
        if r["violation"]:
            k = known_for(check.pid, r["violation"], r.get("scenario"))
            if k is not None:
                known_hits[k["id"]] = known_hits.get(k["id"], 0) + 1
                return False
            alls[(r.get("scenario"), r["violation"][0], r["violation"][1][:150])] += 1
            if a.all:
                if state["viol"] is None or r["index"] < state["viol"]["index"]:
                    state["viol"] = r
                return False
            state["viol"] = r
            return True
        return False

    search(check, a.seed, n, a.tier, budget, a.workers, on_result, a.start)
    wall = rnow() - t0
    if a.digests:
        for i in sorted(dlist):
            print("digest", i, dlist[i])
    for k in load_known():
        if k["property"] == check.pid and k.get("status") == "known":
            print(f"KNOWN-FINDING: property={check.pid} {k['id']}: {k['what']}"
                  f" (met in {known_hits.get(k['id'], 0)} of {agg['runs']} runs)")
    hours = max(wall, 1e-9) / 3600
    evid = {
        "property": check.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed, "level": check.level,
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(digests),
            "rule": check.rule + " A run counts as distinct and non-trivial if it switched"
                    " threads, fired a fault or spanned several simulated processes, and its"
                    " digest (all scheduling switches with their tags, outcomes and operation"
                    " history) differs from every other run's.",
            "samples": samples,
            "runs_per_hour": round(agg["runs"] / hours), "seeds_per_hour": round(agg["runs"] / hours),
            "simulated_seconds": round(state["simtime"], 3),
            "simulated_processes": agg["epochs"], "scheduling_points": agg["steps"],
            "statements_of_dattri_executed_under_simulation": agg["lines"],
            "thread_switches": agg["switches"], "distinct_interleavings": len(digests),
            "max_threads_in_one_process": state["maxthr"],
            "faults_fired": dict(fired), "probes": dict(probes),
            "file_operations": dict(fsops), "scheduling_policies": dict(pol),
            "scenarios": dict(scen), "known_findings_met": known_hits,
            "components_real": check.real, "components_stub": check.stub,
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2), "violations": 1 if state["viol"] else 0,
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{check.pid}.json").write_text(json.dumps(evid, indent=1, default=str))
    print(f"runs={agg['runs']} distinct={len(digests)} wall={wall:.1f}s cpu={state['real']:.0f}s steps={agg['steps']} sim_time={state['simtime']:.0f}s epochs={agg['epochs']}")
    print("faults:", dict(fired))
    print("probes:", dict(probes))
    if a.all:
        for k, v in alls.most_common(30):
            print(v, k)
    v = state["viol"]
    if v is None:
        if state["harness"]:
            print("HARNESS ERROR", len(state["harness"]))
            for i, h in state["harness"][:3]:
                print(i, h)
            return 2
        if agg["runs"] < min(n, check.min_runs):
            print(f"HARNESS ERROR: only {agg['runs']} runs within the time budget")
            return 2
        missing = [p for p in check.must_probe if not probes.get(p) and not fired.get(p)]
        if missing:
            print("warning: never reached:", missing)
        return 0
    kind, detail = v["violation"]
    print(f"violation in run {v['index']} ({v['scenario']}): {kind}: {detail[:1500]}")
    streams = v["streams"]
    tried = 0
    if not a.no_min:
        streams, tried = minimise(check, streams, kind, a.tier,
                                  float(os.environ.get("SIM_MIN_BUDGET", "45")), scratch)
    r = run_one(check, None, scratch, a.tier, replay=streams)
    if not r["violation"]:
        streams = v["streams"]
        r = run_one(check, None, scratch, a.tier, replay=streams)
    rd = VERIF / "replays"
    rd.mkdir(exist_ok=True)
    path = rd / f"{check.pid}-{a.seed}-{v['index']}.json"
    path.write_text(json.dumps({
        "property": check.pid, "scenario": v["scenario"], "seed": f"{a.seed}:{check.pid}:{v['index']}",
        "tier": a.tier, "kind": (r["violation"] or v["violation"])[0],
        "detail": (r["violation"] or v["violation"])[1], "digest": r["digest"],
        "minimisation_attempts": tried, "nonzero_choices": len(_nonzero(streams)),
        "faults_fired": r["fired"], "story": r["story"], "streams": pack(streams),
    }, indent=1))
    for s in r["story"]:
        print("   ", s)
    print(f"minimised ({tried} attempts, {len(_nonzero(streams))} non-default choices): {(r['violation'] or v['violation'])[0]}: {(r['violation'] or v['violation'])[1][:800]}")
    print(f"replay with: ./check {check.pid} --replay {path}")
    print(f"VIOLATION property={check.pid} replay={path}")
    return 1


class Check:
    level = "exploration"
    rule = ""
    note = ""
    real = []
    stub = []
    assumptions = []
    quick_runs = 400
    quick_budget = 150
    thorough_budget = 780
    min_runs = 20
    must_probe = ()

    def __init__(self, pid, scenarios, **kw):
        self.pid = pid
        self.scenarios = scenarios
        for k, v in kw.items():
            setattr(self, k, v)
