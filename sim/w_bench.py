"""Benchmark and data set downloads over a simulated network (B01, B02, B03)."""

from __future__ import annotations

import io
import json
import os
import pickle
import random
import warnings
import zipfile

import torch

from .core import HarnessError
from .util import crash_opts, fail, read_plan, slow, tree, write_plan


# ------------------------------------------------------------------ network
class Server:
    """Files by URL; the k-th request may meet a fault."""

    def __init__(self, s, files, fault=None, redirect=False):
        self.s, self.files, self.fault, self.redirect = s, files, fault, redirect
        self.n = 0
        self.hits = 0

    def send(self, adapter, request, timeout):
        import requests
        import urllib3

        url = request.url.split("?")[0]
        s = self.s
        s.yield_point("net-request")
        if self.redirect and not url.startswith("https://cdn.test/"):
            return self.respond(adapter, request, 302, b"", {"Location": "https://cdn.test/" + url.replace("://", "/")})
        if url.startswith("https://cdn.test/"):
            url = url[len("https://cdn.test/"):].replace("https/", "https://", 1)
        self.n += 1
        f = self.fault if self.fault and self.fault["at"] == self.n else None
        if f is None and self.fault and self.fault["persist"] and self.n > self.fault["at"]:
            f = self.fault
        if f:
            self.hits += 1
            s.fire("net-" + f["kind"] + (str(f["status"]) if f["kind"] == "status" else ""))
            if f["kind"] == "refused":
                raise requests.exceptions.ConnectionError("connection refused", request=request)
            if f["kind"] == "timeout":
                s.sleep(60 if timeout is None else float(timeout))
                raise requests.exceptions.ReadTimeout("timed out", request=request)
            if f["kind"] == "status":
                return self.respond(adapter, request, f["status"], b"<html>sorry</html>", {})
        body = self.files.get(url)
        if body is None:
            return self.respond(adapter, request, 404, b"<html>no such file</html>", {})
        _ = urllib3
        return self.respond(adapter, request, 200, body, {}, f)

    def respond(self, adapter, request, status, body, headers, f=None):
        import urllib3

        srv = self

        class Body(io.RawIOBase):
            def __init__(self):
                self.at = 0

            def readable(self):
                return True

            def readinto(self, b):
                srv.s.yield_point("net-read")
                end = len(body)
                if f and f["kind"] in ("truncated", "reset"):
                    end = min(end, int(len(body) * f["frac"]))
                if self.at >= end:
                    if f and f["kind"] == "reset" and self.at < len(body):
                        raise ConnectionResetError(104, "connection reset by peer")
                    return 0
                if f and f["kind"] == "stall" and self.at >= int(len(body) * f["frac"]):
                    srv.s.delay(30.0)
                n = min(len(b), end - self.at, 700)
                b[:n] = body[self.at:self.at + n]
                self.at += n
                return n

        raw = urllib3.HTTPResponse(
            body=Body(), status=status, preload_content=False, request_method="GET",
            headers={"Content-Length": str(len(body)), "Content-Type": "application/octet-stream", **headers},
            decode_content=False)
        return adapter.build_response(request, raw)


class online:
    def __init__(self, server):
        self.server = server

    def __enter__(self):
        import requests

        srv = self.server
        self.old = requests.adapters.HTTPAdapter.send

        def send(adapter, request, stream=False, timeout=None, **kw):
            return srv.send(adapter, request, timeout)

        requests.adapters.HTTPAdapter.send = send
        return srv

    def __exit__(self, *a):
        import requests

        requests.adapters.HTTPAdapter.send = self.old


def draw_net(ctx, n):
    if ctx.chance(0.35, s="net"):
        return None
    return {"at": 1 + ctx.draw(n, s="net"), "persist": ctx.chance(0.2, s="net"),
            "kind": ctx.pick(["truncated", "reset", "refused", "status", "timeout", "stall"], [4, 3, 2, 3, 1, 1], s="net"),
            "frac": ctx.pick([0.5, 0.0, 0.9, 0.99, 0.2], s="net"),
            "status": ctx.pick([500, 503, 403, 429, 502], s="net")}


def draw_trouble(ctx, nreq, nops):
    """Simulator options and a network fault for one call."""
    kind = ctx.pick(["net", "none", "crash", "disk", "read", "net+disk"], [5, 2, 4, 3, 1, 1])
    fs = {"slow": slow(ctx, 1), "plans": []}
    step = net = None
    if "net" in kind:
        net = draw_net(ctx, nreq)
    if kind == "crash":
        x, step = crash_opts(ctx, nops)
        fs.update(x)
    if "disk" in kind:
        fs["plans"] = write_plan(ctx, nops // 2)
        fs["short_writes"] = ctx.chance(0.3)
    if kind == "read":
        fs["plans"] = read_plan(ctx, max(4, nops // 4))
    return kind, fs, step, net


# ------------------------------------------------------------------- B01
def t_bytes(t):
    b = io.BytesIO()
    torch.save(t, b)
    return b.getvalue()


def z_bytes(files, dirs=()):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for d in dirs:
            z.writestr(zipfile.ZipInfo(d + "/"), b"")
        for name in sorted(files):
            z.writestr(zipfile.ZipInfo(name), files[name])
    return b.getvalue()


def version(c, v):
    """What the server publishes as version v."""
    g = torch.Generator().manual_seed(c["seed"] * 10 + v)
    full = {f"{i}/model_weights_0.pt": t_bytes({"w": torch.randn(3, generator=g)}) for i in range(c["nfull"][v])}
    half = {f"{i}/model_weights_0.pt": t_bytes({"w": torch.randn(3, generator=g)}) for i in range(c["nhalf"][v])}
    gt = {f"{m}/{k}_{m}.pt": t_bytes(torch.randn(4, generator=g) if k == "target_values" else torch.randperm(6, generator=g))
          for m in ("lds", "loo") for k in ("indices", "target_values")}
    return {"full": full, "half": half, "gt": gt}


def publish(c, ver, dirs):
    from dattri.benchmark.load import REPO_URL

    ident = f"{c['data']}_{c['model']}"
    def zd(files):
        return sorted({x.split("/")[0] for x in files}) if dirs else ()
    out = {f"{REPO_URL}{ident}/{ident}_full.zip": z_bytes(ver["full"], zd(ver["full"])),
           f"{REPO_URL}{ident}/{ident}_half.zip": z_bytes(ver["half"], zd(ver["half"]))}
    for k, v in ver["gt"].items():
        out[f"{REPO_URL}{ident}/{k}"] = v
    if c["unpublished"] == "half":
        del out[f"{REPO_URL}{ident}/{ident}_half.zip"]
    if c["unpublished"] == "loo":
        out = {k: v for k, v in out.items() if "/loo/" not in k}
    return out


def observe(c, r):
    """The benchmark a load returned, with the contents of its files."""
    d, (values, indices) = r
    def files(ps):
        out = {}
        for p in ps:
            p = str(p)
            with open(p, "rb") as f:
                out["/".join(p.split("/")[-2:])] = f.read()
        return out
    return {"full": files(d["models_full"]), "half": files(d["models_half"]),
            "values": values, "indices": indices, "train": d["train_dataset"]}


def snap(d):
    """Files and directories below d, None if there is no d."""
    if not os.path.isdir(d):
        return None
    dirs = {os.path.relpath(os.path.join(b, x), d) for b, ds, _ in os.walk(d) for x in ds}
    return {"files": tree(d), "dirs": dirs}


def layout(c, ver):
    """The directory of a completely downloaded version."""
    files = {k: v for k, v in ver["gt"].items() if not (c["unpublished"] == "loo" and k.startswith("loo/"))}
    for k in ("full", "half"):
        if c["unpublished"] != k:
            files.update({f"models_{k}/{n}": v for n, v in ver[k].items()})
    dirs = {"models_full", "models_half", "lds", "loo"} | {os.path.dirname(f) for f in files}
    return {"files": files, "dirs": dirs}


def seen(at, metric):
    """What loading from the directory contents `at` shows; None if it cannot be loaded."""
    out = {}
    for k in ("full", "half"):
        if f"models_{k}" not in at["dirs"]:
            return None
        n = sum(os.path.dirname(x) == f"models_{k}" for x in at["dirs"])
        try:
            out[k] = {f"{i}/model_weights_0.pt": at["files"][f"models_{k}/{i}/model_weights_0.pt"] for i in range(n)}
        except KeyError:
            return None
    for k, name in (("values", "target_values"), ("indices", "indices")):
        try:
            out[k] = torch.load(io.BytesIO(at["files"][f"{metric}/{name}_{metric}.pt"]))
        except Exception:  # noqa: BLE001
            return None
    return out


def differs(ob, want):
    why = [f"models_{k}: {len(ob[k])} files instead of {len(want[k])}, other contents in "
           f"{[x for x in ob[k] if ob[k][x] != want[k].get(x)][:3]}" for k in ("full", "half") if ob[k] != want[k]]
    return why + [f"{k} differ" for k in ("values", "indices") if not torch.equal(ob[k], want[k])]


def b01_benchmark(ctx):
    c = {"seed": ctx.draw(100), "data": "mnist", "model": ctx.pick(["lr", "mlp"]),
         "nfull": [ctx.between(1, 4) for _ in range(3)], "nhalf": [ctx.between(1, 3) for _ in range(3)],
         "unpublished": ctx.pick(["", "half", "loo"], [5, 1, 1])}
    dirs, redirect = ctx.chance(0.5), ctx.chance(0.3)
    vers = [version(c, v) for v in range(3)]
    d = ctx.dir("dl")
    path = os.path.join(d, "deep") if ctx.chance(0.3) else d
    metric = lambda: "lds" if c["unpublished"] == "loo" else ctx.pick(["lds", "loo"])  # noqa: E731
    nops = ctx.between(1, 4)
    ctx.say("config", c, "redirects", redirect)
    cur = 0
    bench = os.path.join(path, "benchmark", f"{c['data']}_{c['model']}")
    full = [layout(c, v) for v in vers]

    def call(s, cur, met, re, net, step):
        from dattri.benchmark import load as L

        if step:
            s.crash_at_step = s.steps + step
        L.SUPPORTED_DATASETS["mnist"] = lambda p: (str(p), str(p))
        with online(Server(s, publish(c, vers[cur], dirs), net, redirect)) as srv, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = L.load_benchmark(c["model"], c["data"], met, path, redownload=re)
            except Exception as e:  # noqa: BLE001
                return ("error", repr(e)[:200], bool(srv.hits or any(p.hits for p in s.fs.plans)))
        s.quiet += 1
        try:
            return ("ok", observe(c, r), None)
        except OSError as e:
            return ("missing", f"the returned benchmark has a file that cannot be read: {e!r}", None)
        finally:
            s.quiet -= 1

    for i in range(nops + 1):
        last = i == nops
        if not last and i and ctx.chance(0.4):
            cur = min(2, cur + 1)
            ctx.say("the server publishes version", cur)
        re = False if last else ctx.chance(0.45)
        met = metric()
        kind, fs, step, net = ("none", {}, None, None) if last else draw_trouble(ctx, 6, 60)
        ctx.say("redownload" if re else "load", met, "version", cur, kind, net or "")
        before = snap(bench)
        o = ctx.epoch(call, (cur, met, re, net, step), root=d, name=f"load{i}", fsopts=fs, sched="serial" if last else "full")
        if o.kind == "crashed":
            ctx.probe("crashed while loading")
            continue
        if o.kind != "ok":
            if "/dattri/" in o.detail:
                fail("unexpected-failure", o.value, o.detail[-900:])
            raise HarnessError(f"{o.value} {o.detail}")
        res, ob, faulty = o.value
        # a directory that is there is loaded as it is, otherwise the current version
        there = [v for v in range(3) if before is not None and before["files"] == full[v]["files"]]
        legal = [seen(full[v], met) for v in (there if there and not re else [cur])]
        at = before
        if before is None or re:
            at = {k: {**(before or {k: {}})[k], **full[cur][k]} if k == "files" else (before or {k: set()})[k] | full[cur][k]
                  for k in ("files", "dirs")}
        shows = seen(at, met)
        if res == "ok":
            why = [differs(ob, w) for w in legal]
            if not all(why):
                ctx.probe("load exact" + (" after trouble" if i else ""))
                continue
            what = f"{'redownload' if re else 'load'} of {met} returned something else: {why}"
            if shows is not None and not differs(ob, shows) and before is not None:
                if re:
                    ctx.known("B01-merged", "wrong-benchmark", what)
                else:
                    ctx.known("B01-partial", "wrong-benchmark", what)
                continue
            fail("wrong-benchmark", what)
        if res == "error" and faulty:
            ctx.probe("load raised")
            continue
        if before is not None and shows is None:
            ctx.known("B01-partial", "no-recovery" if last else "load-failed", "no fault fired:", ob)
            continue
        fail("no-recovery" if last else "load-failed", "no fault fired:", ob)


# ------------------------------------------------------------------- B02
_midi = {}


def midi_bytes(seed, notes):
    """A small piece, as the bytes of a MIDI file."""
    k = (seed, notes)
    if k not in _midi:
        import pretty_midi

        r = random.Random(f"{seed}")
        pm = pretty_midi.PrettyMIDI()
        ins = pretty_midi.Instrument(program=0)
        t = 0.0
        for _ in range(notes):
            t += r.choice([0.0, 0.05, 0.13, 0.4])
            ins.notes.append(pretty_midi.Note(velocity=r.choice([40, 60, 88]), pitch=r.randint(30, 90), start=t, end=t + r.choice([0.1, 0.25])))
        pm.instruments.append(ins)
        b = io.BytesIO()
        pm.write(b)
        _midi[k] = b.getvalue()
    return _midi[k]


def fragments(tokens, width=256):
    out = []
    for o in range(0, len(tokens) - width, width):
        x = tokens[o:o + width + 1]
        out.append((x[:width], x[1:width + 1]))
    return out


def b02_maestro(ctx):
    seed = ctx.draw(6)
    splits = [ctx.pick(["train", "train", "validation", "test"]) for _ in range(ctx.between(1, 4))]
    sizes = [ctx.pick([90, 200, 40]) for _ in splits]
    ngen = ctx.between(1, 3)
    genmode = ctx.chance(0.6)
    bad = ctx.pick(["", "no-json", "bad-split"], [12, 1, 1])
    redirect = ctx.chance(0.3)
    meta, files = [], {}
    import pretty_midi  # noqa: F401

    def oracle(s):
        from dattri.benchmark.models.MusicTransformer.midi_processor.processor import encode_midi

        out = []
        for i in range(len(splits)):
            p = os.path.join(ctx.scratch, f"o{i}.mid")
            with open(p, "wb") as f:
                f.write(midi_bytes(seed * 10 + i, sizes[i]))
            out.append(encode_midi(p))
            os.unlink(p)
        return out

    toks = ctx.value(oracle)
    order = []
    for i, sp in enumerate(splits):
        name = f"20{i:02d}/{(i * 7 + seed) % 10}-piece{i}.midi"
        meta.append({"midi_filename": name, "split": sp if not (bad == "bad-split" and i == len(splits) - 1) else "other"})
        files["maestro-v2.0.0/" + name] = midi_bytes(seed * 10 + i, sizes[i])
        order.append((os.path.basename(name) + ".pickle", sp, toks[i]))
    if bad != "no-json":
        files["maestro-v2.0.0/maestro-v2.0.0.json"] = json.dumps(meta).encode()
    gen = {}
    for i in range(ngen):
        g = random.Random(seed * 31 + i)
        t = [g.randrange(300) for _ in range(g.choice([100, 300, 600]))]
        gen[f"{i}.pickle"] = t
    served = {
        "https://storage.googleapis.com/magentadata/datasets/maestro/v2.0.0/maestro-v2.0.0-midi.zip": z_bytes(files),
        "https://huggingface.co/datasets/trais-lab/dattri-benchmark/resolve/main/maestro_musictransformer/generated_music.zip":
            z_bytes({k: pickle.dumps(v) for k, v in gen.items()}),
    }
    d = ctx.dir("dl")
    path = os.path.join(d, "data") if ctx.chance(0.5) else d
    ctx.say("pieces", list(zip(splits, sizes)), "generated", ngen, genmode, "damaged archive" if bad else "", bad)

    def call(s, net, step, amb):
        from dattri.benchmark.datasets.maestro import create_maestro_datasets

        if step:
            s.crash_at_step = s.steps + step
        random.seed(amb)
        torch.manual_seed(amb)
        with online(Server(s, served, net, redirect)) as srv:
            try:
                tr, va = create_maestro_datasets(path, genmode)
            except Exception as e:  # noqa: BLE001
                return ("error", repr(e)[:200], bool(srv.hits or any(p.hits for p in s.fs.plans)))
        s.quiet += 1
        try:
            return ("ok", {"train": [(x.tolist(), y.tolist()) for x, y in (tr[i] for i in range(len(tr)))],
                           "val": [(x.tolist(), y.tolist()) for x, y in (va[i] for i in range(len(va)))]}, None)
        finally:
            s.quiet -= 1

    # what a directory of processed pieces holds, and what data sets it shows
    complete = {f"{ {'train': 'train', 'validation': 'val', 'test': 'test'}[sp]}/{name}": t for name, sp, t in order}
    last_bad = os.path.basename(meta[-1]["midi_filename"]) + ".pickle" if bad == "bad-split" else ""
    processed = {} if bad == "no-json" else {k: t for k, t in complete.items() if os.path.basename(k) != last_bad}

    def load_all(at):
        """Token lists by file, None for one that cannot be read."""
        out = {}
        for k, v in at["files"].items():
            try:
                out[k] = list(map(int, pickle.loads(v)))
            except Exception:  # noqa: BLE001
                out[k] = None
        return out

    def show(toks, sub):
        """Fragments of the files in a directory; None if it cannot be read."""
        out = []
        for k in sorted(toks):
            if os.path.dirname(k) == sub:
                if toks[k] is None:
                    return None
                out += [(toks[k], a, b) for a, b in fragments(toks[k])]
        return out

    def same(got, frs):
        """'' or how the samples differ; 'random' if only by the random first fragments."""
        if len(got) != len(frs):
            return f"{len(got)} samples instead of {len(frs)}"
        rnd = ""
        for j, ((x, y), (t, a, b)) in enumerate(zip(got, frs)):
            if (x, y) == (list(map(int, a)), list(map(int, b))):
                continue
            t = list(map(int, t))
            first = j == 0 or frs[j - 1][0] is not frs[j][0]
            if first and any(x == t[o:o + 256] and y == t[o + 1:o + 257] for o in range(len(t) - 256)):
                rnd = "random"
                continue
            return f"sample {j} differs"
        return rnd

    def judge(got, frs):
        """How got differs from the data sets frs, '' if not; random first fragments are listed."""
        why = [(k, same(got[k], frs[k])) for k in ("train", "val")]
        if any(w not in ("", "random") for _, w in why):
            return str(why)
        if any(w for _, w in why):
            ctx.known("B02-random", "wrong-dataset", why, "(first fragments drawn at random)")
        return ""

    pdir, gdir, gzip = (os.path.join(path, x) for x in ("maestro-v2.0.0-processed", "generated_music", "generated_music.zip"))
    n = ctx.between(0, 3)
    for i in range(n + 1):
        last = i == n
        kind, fs, step, net = ("none", {"slow": 0}, None, None) if last else draw_trouble(ctx, 2, 40)
        ctx.say("call", i, kind, net or "")
        pb, gb, gz = snap(pdir), snap(gdir), os.path.exists(gzip)
        o = ctx.epoch(call, (net, step, ctx.draw(10**6)), root=d, name=f"call{i}", fsopts=fs, sched="serial" if last else "full")
        if o.kind == "crashed":
            ctx.probe("crashed while preparing")
            continue
        if o.kind != "ok":
            if "/dattri/" in o.detail:
                fail("unexpected-failure", o.value, o.detail[-900:])
            raise HarnessError(f"{o.value} {o.detail}")
        res, got, faulty = o.value
        # the right data sets
        right = {"train": show(complete, "train"), "val": show({os.path.basename(k): v for k, v in gen.items()}, "") if genmode else show(complete, "val")}
        if res == "ok" and not bad and judge(got, right) == "":
            ctx.probe("data set exact" + (" after trouble" if i else ""))
            continue
        if res == "error" and (faulty or bad):
            ctx.probe("call raised")
            continue
        # what is known to go wrong: a directory or an archive that is there is taken for
        # the whole, and a failure of the preprocessing is ignored
        ptoks = processed if pb is None else load_all(pb)
        partial = pb is not None and ptoks != complete
        for sub in ("train", "val", "test"):
            partial = partial or (pb is not None and sub not in pb["dirs"])
        gtoks = dict(gen) if gb is None and not gz else load_all(gb) if gb is not None else None
        gpartial = gz and gtoks != dict(gen)
        shows = {"train": show(ptoks, "train"),
                 "val": (show(gtoks, "") if gtoks is not None else None) if genmode else show(ptoks, "val")}
        unreadable = (None in shows.values() or show(ptoks, "val") is None or show(ptoks, "test") is None
                      or (pb is not None and not {"train", "val", "test"} <= pb["dirs"]))
        what = (f"the archive is damaged ({bad}), " if bad else "") + (f"got {[(k, len(v)) for k, v in got.items()]}" if res == "ok" else f"no fault fired: {got}")
        kind = "wrong-dataset" if res == "ok" else "no-recovery" if last else "load-failed"
        if res == "ok" and not unreadable and judge(got, shows) == "":
            if pb is None and bad:
                ctx.known("B02-ignored", kind, what)
                continue
            if partial or (genmode and gpartial):
                ctx.known("B02-partial", kind, what)
                continue
        if res == "error" and unreadable and (partial or (genmode and gpartial)):
            ctx.known("B02-partial", kind, what)
            continue
        fail(kind, what, judge(got, right) if res == "ok" else "")


# ------------------------------------------------------------------- B03
SHAKESPEARE = "https://raw.githubusercontent.com/karpathy/char-rnn/master/data/tinyshakespeare/input.txt"


def char_files(text):
    """What the preparation of a text must leave, as (train ids, val ids, meta)."""
    chars = sorted(set(text))
    stoi = {c: i for i, c in enumerate(chars)}
    n = int(len(text) * 0.9)
    return ([stoi[c] for c in text[:n]], [stoi[c] for c in text[n:]],
            {"vocab_size": len(chars), "itos": dict(enumerate(chars)), "stoi": stoi})


def read_char_files(d):
    import numpy as np

    out = []
    for f in ("train.bin", "val.bin"):
        p = os.path.join(d, f)
        if not os.path.exists(p):
            return None
        with open(p, "rb") as h:
            b = h.read()
        if len(b) % 2:
            return None
        out.append(np.frombuffer(b, dtype=np.uint16).tolist())
    try:
        with open(os.path.join(d, "meta.pkl"), "rb") as h:
            out.append(pickle.load(h))
    except Exception:  # noqa: BLE001
        return None
    return tuple(out)


def b03_chars(ctx):
    """Preparation scripts of the character data sets, called again and again."""
    import contextlib
    import sys

    from .boot import REPO

    story = ctx.chance(0.25)  # TinyStories: the text is a local file
    name = "tinystories" if story else "shakespeare_char"
    src_path = os.path.join(REPO, "dattri", "benchmark", "datasets", name, "prepare.py")
    with open(src_path, encoding="utf-8") as f:
        src = f.read()
    r = random.Random(ctx.draw(10**6))
    alphabet = "abcdefghij \n.,ABC"[:ctx.between(2, 17)]
    text = "".join(r.choice(alphabet) for _ in range(ctx.pick([12, 300, 3000, 30, 9000])))
    d = ctx.dir("pkg")
    script = os.path.join(d, "prepare.py")
    source = os.path.join(d, "stories.txt" if story else "input.txt")
    if story:
        with open(source, "w", encoding="utf-8") as f:
            f.write(text)
    ctx.say(name, len(text), "characters")
    code = compile(src, script, "exec")
    want = char_files(text)

    def call(s, net, step):
        if step:
            s.crash_at_step = s.steps + step
        srv = Server(s, {SHAKESPEARE: text.encode()}, net)
        argv = sys.argv
        sys.argv = [script, "--data_file", source] if story else [script]
        try:
            with online(srv), contextlib.redirect_stdout(io.StringIO()):
                exec(code, {"__name__": "__main__", "__file__": script})  # noqa: S102
            res = "ok"
        except Exception as e:  # noqa: BLE001
            res = f"{type(e).__name__}: {e}"
        finally:
            sys.argv = argv
        hit = sum(p.hits for p in s.fs.plans) + srv.hits
        return res, hit

    n = ctx.between(0, 3)
    for i in range(n + 1):
        last = i == n
        kind, fs, step, net = ("none", {"slow": 0}, None, None) if last else draw_trouble(ctx, 1, 16)
        ctx.say("call", i, kind, net or "")
        before = None
        if os.path.exists(source):
            with open(source, encoding="utf-8", newline="") as f:
                before = f.read()
        o = ctx.epoch(call, (net, step), root=d, name=f"call{i}", fsopts=fs, sched="serial" if last else "full")
        if o.kind == "crashed":
            ctx.probe("crashed while preparing")
            continue
        if o.kind != "ok":
            raise HarnessError(f"{o.value} {o.detail}")
        res, hit = o.value
        got = read_char_files(d) if res == "ok" else None
        if got == want:
            ctx.probe("exact" + (" after trouble" if i else ""))
            continue
        if res != "ok" and hit:
            ctx.probe("call raised")
            continue
        what = f"{name}: " + ("the files do not encode the published text" if res == "ok" else f"no fault fired: {res}")
        if res == "ok" and not story:
            if before is not None and before != text and got == char_files(before):
                ctx.known("B03-partial", "no-recovery" if last else "wrong-dataset", what,
                          f"({len(before)} of {len(text)} characters were left in input.txt by an earlier call)")
                continue
            if before is None and net and net["kind"] == "status" and got == char_files("<html>sorry</html>"):
                ctx.known("B03-status", "wrong-dataset", what, f"(the page of HTTP error {net['status']})")
                continue
        fail("no-recovery" if last else "wrong-dataset", what)
