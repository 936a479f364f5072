"""P14: how a merge is executed does not change what it produces."""

import hashlib
import json
import os
import shutil

import torch
from mergekit.architecture import get_architecture_info
from mergekit.common import ModelReference
from mergekit.config import MergeConfiguration
from mergekit.graph import Executor
from mergekit.io.tasks import LoaderCache
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from mergekit.plan import MergePlanner

from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.methods import EPS
from vk.models import write_ckpt
from vk.recipes import recipe
from vk.simdev import simulated_accelerators


def run(ctx, c, name, devices=0, **opts):
    out = ctx.path(name)
    o = dict(quiet=True, copy_tokenizer=False, write_model_card=False)
    o.update(opts)
    if devices:
        with simulated_accelerators(devices):
            run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(**o))
    else:
        run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(**o))
    return out


def variant(rng):
    """-> (label, devices, options)"""
    kind = rng.choice(["shards", "async", "lazy", "pickled", "low_cpu", "clone", "multi", "multi", "multi", "seed", "mix", "mix"])
    o = {}
    dev = 0
    pick = lambda p: kind != "mix" or rng.random() < p
    if kind in ("shards", "mix", "async") and pick(0.6):
        o["out_shard_size"] = rng.choice([1, 10, 50, 200, 1000])
    if kind in ("async", "mix") and pick(0.5):
        o["async_write"] = True
        o["write_threads"] = rng.choice([1, 2, 4, 8])
    if kind in ("lazy", "mix") and pick(0.5):
        o["lazy_unpickle"] = True
    if kind in ("pickled", "mix") and pick(0.3):
        o["safe_serialization"] = False
    if kind in ("low_cpu", "mix") and pick(0.4):
        o["low_cpu_memory"] = True
    if kind in ("clone", "mix") and pick(0.5):
        o["clone_tensors"] = True
    if kind in ("multi", "mix") and pick(0.5):
        o["multi_gpu"] = True
        dev = rng.choice([1, 2, 3, 4])
        if rng.random() < 0.4:
            o["low_cpu_memory"] = True
        if rng.random() < 0.3:
            o["read_to_gpu"] = True
    if kind in ("seed", "mix") and pick(0.4):
        o["random_seed"] = rng.randrange(1000)
    if kind == "mix" and rng.random() < 0.3:
        o["verbosity"] = 2
    return kind, dev, o


def same(ctx, key, a, b, what):
    ctx.ok(set(a) == set(b), key + "-names", lambda: f"{what}: {sorted(set(a) ^ set(b))[:4]}", stop=True)
    for k in a:
        x, y = a[k], b[k]
        ctx.event("weight-compared")
        if not ctx.ok(x.dtype == y.dtype and x.shape == y.shape, key + "-kind", lambda: f"{what}: {k} is {x.dtype} {tuple(x.shape)} / {y.dtype} {tuple(y.shape)}"):
            continue
        x, y = x.double(), y.double()
        nan = torch.isnan(x) & torch.isnan(y)
        eps = EPS.get(str(a[k].dtype).replace("torch.", ""), 1e-6)
        bad = ~((x - y).abs() <= 8 * eps * (x.abs().max() if x.numel() else 0) + 1e-30) & ~nan & ~(x == y)
        ctx.ok(not bool(bad.any()), key, lambda: f"{what}: {k} differs in {int(bad.sum())} of {bad.numel()} elements, {x[bad][0]:.6g} / {y[bad][0]:.6g}")


def wl_options(ctx, rng):
    c, info = recipe(ctx, rng)
    ctx.describe(dict(config=c))
    ref = run(ctx, c, "ref")
    want = read_checkpoint(ref)[0]
    wcfg = json.load(open(os.path.join(ref, "config.json")))
    ctx.event("method:" + info["method"])
    for k in range(3):
        label, dev, o = variant(rng)
        ctx.describe(dict(config=c, devices=dev, options=o))
        out = run(ctx, c, f"v{k}", dev, **o)
        got = read_checkpoint(out, "safetensors" if o.get("safe_serialization", True) else "bin")[0]
        ctx.event("variant:" + label)
        for x in o:
            ctx.event("option:" + x)
        same(ctx, "weights", want, got, f"{info['method']} {o} on {dev} devices")
        ctx.ok(json.load(open(os.path.join(out, "config.json"))) == wcfg, "config", lambda: f"{o}")
        if info["tok"]:
            for f in ("tokenizer.json",):
                ctx.event("tokenizer-compared")
                ctx.ok(open(os.path.join(ref, f)).read() == open(os.path.join(out, f)).read(), "tokenizer", lambda: f"{o}")
        shutil.rmtree(out)
    ctx.nontrivial(info["method"], info["form"], info["n"], tuple(sorted(o)), dev)


def wl_formats(ctx, rng):
    """The same weights stored differently give the same merge."""
    c, info = recipe(ctx, rng)
    ref = run(ctx, c, "ref")
    want = read_checkpoint(ref)[0]
    for p, t in zip(info["paths"], info["tensors"]):
        keep = {f: open(os.path.join(p, f)).read() for f in ("tokenizer.json", "tokenizer_config.json") if os.path.exists(os.path.join(p, f))}
        shutil.rmtree(p)
        names = list(t)
        rng.shuffle(names)
        write_ckpt(p, info["cfg"], {k: t[k] for k in names}, rng.choice(["st", "bin"]), rng.choice([None, 1, 2, 4, 7]), rng)
        for f, s in keep.items():
            open(os.path.join(p, f), "w").write(s)
    o = dict(lazy_unpickle=rng.random() < 0.5)
    got = read_checkpoint(run(ctx, c, "again", **o))[0]
    ctx.event("rewritten")
    same(ctx, "format", want, got, f"{info['method']} {o}")
    ctx.nontrivial(info["method"], info["form"], info["n"], rng.random())


def wl_memory(ctx, rng):
    """Merging in memory yields the tensors a merge to disk would write."""
    c, info = recipe(ctx, rng)
    ref = run(ctx, c, "ref")
    want = read_checkpoint(ref)[0]
    mc = MergeConfiguration.model_validate(c)
    opts = MergeOptions(quiet=True)
    LoaderCache().setup(opts)
    arch = get_architecture_info(mc, opts)
    from transformers import AutoConfig

    tasks = MergePlanner(mc, arch, opts, AutoConfig.from_pretrained(ref)).plan_in_memory()
    got = {}
    for t, v in Executor(tasks, math_device="cpu", storage_device="cpu").run(quiet=True):
        if v is not None:
            ctx.ok(t.weight_info.name not in got, "memory-twice", lambda: t.weight_info.name)
            got[t.weight_info.name] = v
    ctx.event("in-memory")
    same(ctx, "memory", want, got, info["method"])
    ctx.nontrivial(info["method"], info["form"], info["n"], rng.random())


def wl_history(ctx, rng):
    """What a process merged before has no influence: files are read as they are now."""
    k = rng.choice([2, 3, 4])
    prev = None
    for step in range(k):
        c, info = recipe(ctx, rng, formats=rng.choice([("st",), ("bin",), ("st", "bin")]))
        # same directories, other contents, in the process that already merged them
        ctx.describe(dict(step=step, config=c))
        out = ctx.path("out")
        o = dict(lazy_unpickle=rng.random() < 0.5, out_shard_size=rng.choice([50, 10**9]), clone_tensors=True)
        if os.path.exists(out):
            shutil.rmtree(out)
        run(ctx, c, "out", **o)
        got = read_checkpoint(out)[0]
        # the same recipe in directories nobody has seen
        fresh = ctx.path(f"fresh{step}")
        os.makedirs(fresh)
        txt = json.dumps(c)
        for p in info["paths"]:
            shutil.copytree(p, os.path.join(fresh, os.path.basename(p)))
            txt = txt.replace(json.dumps(p), json.dumps(os.path.join(fresh, os.path.basename(p))))
        want = read_checkpoint(run(ctx, json.loads(txt), f"ref{step}", **o))[0]
        ctx.event(f"step{step}")
        same(ctx, "history", want, got, f"step {step} {info['method']}")
        # chain: the result becomes an input
        if rng.random() < 0.5:
            c2 = dict(merge_method="linear", dtype="float32", models=[dict(model=out, parameters=dict(weight=1.0))])
            chained = read_checkpoint(run(ctx, c2, f"chain{step}"))[0]
            ctx.event("chained")
            same(ctx, "chained", {k: v.float() for k, v in got.items()}, chained, f"step {step} result merged alone")
        for p in info["paths"]:
            shutil.rmtree(p)
        prev = info
    ctx.nontrivial(k, info["method"], rng.random())


CHECK = Check(
    prop="P14",
    level="exploration",
    rule="random recipes (18 deterministic methods, whole models and slices, parameter gradients and filters, tokenizers, mixed dtypes) executed with the "
    "default options and again with others: shard size, asynchronous and multi-threaded writing, lazy unpickling, pickled output, low-memory storage, "
    "cloning, 1-4 simulated devices, seeds, all mixed; the same weights in other file formats; in-memory; after other merges in the same process; "
    "distinct by method, form and option set",
    assumptions=["accelerators are simulated by several CPU devices; randomised methods are compared under P15"],
    workloads=[
        Workload("options", wl_options, 300, 5000, require=["variant:" + k for k in ("shards", "async", "lazy", "pickled", "low_cpu", "clone", "multi", "seed", "mix")]
                 + ["option:read_to_gpu", "tokenizer-compared", "weight-compared"]),
        Workload("formats", wl_formats, 100, 1500, require=["rewritten"]),
        Workload("memory", wl_memory, 100, 1500, require=["in-memory"]),
        Workload("history", wl_history, 60, 900, require=["step1", "chained"]),
    ],
)
