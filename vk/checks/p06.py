"""P06: reading a tensor returns exactly what the checkpoint stores."""

import json
import os
import sys
import threading

import torch
from mergekit.common import ModelReference
from mergekit.io.lazy_tensor_loader import LazyTensorLoader, ShardedTensorIndex
from mergekit.io.tasks import LoaderCache, LoadTensor

from vk.ckpt import bits, gen_tensor
from vk.core import Check, Workload
from vk.models import write_ckpt

PICKLE_DTYPES = [torch.float32, torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.int32, torch.int16,
                 torch.int8, torch.uint8, torch.bool, torch.float64]


def gen_state(rng, fmt, n):
    sd = {}
    stor = []
    for i in range(n):
        dt = rng.choice(PICKLE_DTYPES)
        r = rng.random()
        if fmt == "bin" and r < 0.5:
            # tensors that are views into larger / shared storages
            k = rng.choice(["rows", "transpose", "step", "cols", "expand", "shared", "diag", "offset0d", "narrow3"])
            b = gen_tensor(rng, dtype=dt, shape=(6, 5))
            if k == "rows":
                t = b[rng.randint(1, 3) : 5]
            elif k == "transpose":
                t = b.t()
            elif k == "step":
                t = b[::2]
            elif k == "cols":
                t = b[:, 1:4]
            elif k == "expand":
                t = b[2:3].expand(4, 5)
            elif k == "diag":
                t = torch.diagonal(b)
            elif k == "offset0d":
                t = b[3, 2]
            elif k == "narrow3":
                t = gen_tensor(rng, dtype=dt, shape=(3, 4, 5))[1:, 1:3, ::2].permute(2, 0, 1)
            else:
                if stor and rng.random() < 0.7:
                    t = rng.choice(stor)
                    t = t if rng.random() < 0.5 else t.view(-1)[rng.randint(0, max(0, t.numel() - 1)) :]
                else:
                    t = b
                    stor.append(b)
        else:
            t = gen_tensor(rng, dtype=dt)
        sd[rng.choice(["model.layers.%d.w.weight", "transformer.h.%d", "x%d", "emb ed.%d"]) % i] = t
    return sd


def gen_ckpt(ctx, rng, path):
    fmt = rng.choice(["st", "bin", "bin"])
    n = rng.choice([1, 2, 5, 10, 20])
    sd = gen_state(rng, fmt, n)
    shard = rng.choice([None, None, 2, 3, 5])
    wrapped = False
    if fmt == "bin" and shard is None and rng.random() < 0.2:
        os.makedirs(path)
        torch.save({"state_dict": sd}, os.path.join(path, "pytorch_model.bin"))
        wrapped = True
    else:
        write_ckpt(path, None, sd, fmt, shard, rng)
    lazy = rng.random() < 0.6
    if fmt == "bin" and rng.random() < 0.4:
        # saved under another name first, as by writers that settle names (or numbers of shards) at the end
        for f in sorted(os.listdir(path)):
            if f.endswith(".bin"):
                p = os.path.join(path, f)
                tmp = os.path.join(path, rng.choice(["pytorch_model-1.bin", "tmp", "a.b.bin", "x-00007.pt"]) + "_")
                torch.save(torch.load(p, weights_only=True), tmp)
                os.replace(tmp, p)
        ctx.event("renamed")
    return fmt, sd, shard, lazy, wrapped


def wl_read(ctx, rng):
    path = ctx.path("m")
    fmt, sd, shard, lazy, wrapped = gen_ckpt(ctx, rng, path)
    ctx.describe(dict(fmt=fmt, n=len(sd), shards=shard, lazy=lazy, wrapped=wrapped))
    want = {k: bits(t) for k, t in sd.items()}
    mk = rng.choice(["from_disk", "ref", "from_file"])
    if mk == "from_file" and shard is None:
        fn = "model.safetensors" if fmt == "st" else "pytorch_model.bin"
        ld = LazyTensorLoader(ShardedTensorIndex.from_file(os.path.join(path, fn)), lazy_unpickle=lazy)
    elif mk == "ref":
        ld = ModelReference.parse(path).lazy_loader(lazy_unpickle=lazy)
    else:
        ld = LazyTensorLoader.from_disk(path, lazy_unpickle=lazy)
    ctx.ok(set(ld.index.tensor_paths) == set(want), "listing", lambda: f"{sorted(ld.index.tensor_paths)} vs {sorted(want)}")
    listed = [k for s in ld.index.shards for k in s.contained_keys]
    ctx.ok(sorted(listed) == sorted(want), "shard-listing", lambda: f"{listed}")
    order = list(want) * rng.choice([1, 2])
    rng.shuffle(order)
    for k in order:
        if rng.random() < 0.08:
            ld.flush()
        if rng.random() < 0.08:
            # a shard opened for one device serves others
            ld.get_tensor(k)
            o = ld.get_tensor(k, device="meta")
            ctx.ok(o.device.type == "meta" and o.shape == sd[k].shape and o.dtype == sd[k].dtype, "device", lambda: f"{k}: asked for meta, got {o.device} {o.dtype} {tuple(o.shape)}")
            ctx.event("other-device")
        r = rng.random()
        if r < 0.15:
            # (the first alias there is)
            t = ld.get_tensor("not.there", aliases=["nope", k] + [rng.choice(order) for _ in range(rng.choice([0, 1, 2]))])
            ctx.event("alias-read")
        elif r < 0.22:
            # the primary name wins over aliases
            other = rng.choice(order)
            t = ld.get_tensor(k, aliases=[other, "nope"])
        elif r < 0.3:
            for bad in ("missing.w", k + ".x", ""):
                got = ld.get_tensor(bad, raise_on_missing=False)
                ctx.ok(got is None, "missing-none", lambda: f"{bad} -> {got}")
                try:
                    ld.get_tensor(bad, aliases=["also.missing"])
                    ctx.fail("missing-raises", f"{bad} returned a tensor")
                except KeyError:
                    pass
                ctx.event("missing-read")
            t = ld.get_tensor(k)
        else:
            t = ld.get_tensor(k)
        ctx.event("tensor-read")
        ctx.ok(t is not None and bits(t) == want[k], "exact-value",
               lambda: f"{k} fmt={fmt} lazy={lazy} stride={sd[k].stride()} off={sd[k].storage_offset()}: stored {want[k][:2]}, got {None if t is None else (t.dtype, tuple(t.shape))}")
    if fmt == "bin" and lazy:
        ctx.event("lazy-pickle")
    ctx.nontrivial(fmt, shard, lazy, wrapped, mk, tuple((k, v[:2]) for k, v in want.items()))


def wl_threads(ctx, rng):
    """One loader shared by several threads."""
    path = ctx.path("m")
    fmt, sd, shard, lazy, wrapped = gen_ckpt(ctx, rng, path)
    want = {k: bits(t) for k, t in sd.items()}
    loaders = [LazyTensorLoader.from_disk(path, lazy_unpickle=lazy)]
    if rng.random() < 0.3:
        loaders.append(LazyTensorLoader.from_disk(path, lazy_unpickle=not lazy if fmt == "st" else lazy))
    k = rng.choice([2, 4, 8])
    bad = []
    seeds = [rng.random() for _ in range(k)]
    import random

    def go(seed):
        r = random.Random(seed)
        ks = list(want) * 2
        r.shuffle(ks)
        try:
            for key in ks:
                t = r.choice(loaders).get_tensor(key)
                if bits(t) != want[key]:
                    bad.append((key, "wrong value"))
                if r.random() < 0.05:
                    r.choice(loaders).flush()
        except BaseException as e:
            bad.append((key, repr(e)))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=go, args=(s,)) for s in seeds]
        [t.start() for t in ths]
        [t.join() for t in ths]
    finally:
        sys.setswitchinterval(old)
    ctx.event("concurrent-readers", k)
    ctx.event("tensor-read", 2 * k * len(want))
    ctx.ok(not bad, "exact-under-threads", lambda: f"{fmt} lazy={lazy} shards={shard} threads={k}: {bad[:3]}")
    ctx.nontrivial("thr", fmt, shard, lazy, k, len(want), rng.random())


def wl_load_task(ctx, rng):
    """The tensor-loading task: names, aliases, tied names, dtype casts, optional/required."""
    path = ctx.path("m")
    fmt = rng.choice(["st", "bin"])
    n = rng.choice([2, 4, 8])
    sd = {f"w.{i}": gen_tensor(rng, dtype=rng.choice([torch.float32, torch.float16, torch.bfloat16]), shape=(3, 4), special=False)
          for i in range(n)}
    cfg = dict(architectures=["LlamaForCausalLM"], model_type="llama", hidden_size=4, num_hidden_layers=1, num_attention_heads=1,
               intermediate_size=4, vocab_size=4)
    write_ckpt(path, cfg, sd, fmt, rng.choice([None, 2]), rng)
    LoaderCache().lazy_unpickle = rng.random() < 0.5
    ref = ModelReference.parse(path)
    try:
        for _ in range(12):
            names = list(sd) + ["missing.%d" % j for j in range(4)]
            prim = rng.choice(names)
            al = tuple(rng.sample(names, rng.randint(0, 3))) or None
            ti = tuple(rng.sample(names, rng.randint(0, 2))) or None
            opt = rng.random() < 0.5
            dt = rng.choice([None, "float32", "bfloat16", "float16"])
            want_name = next((x for x in [prim] + list(al or ()) + list(ti or ()) if x in sd), None)
            task = LoadTensor(model=ref, tensor=prim, aliases=al, tied_names=ti, optional=opt, dtype=dt)
            try:
                got = task.execute()
                err = None
            except Exception as e:
                got, err = None, e
            ctx.event("load-task")
            if want_name is None:
                if opt:
                    ctx.ok(err is None and got is None, "optional-missing-none", lambda: f"{prim} {al} {ti}: {err!r} {got}")
                else:
                    ctx.ok(err is not None, "required-missing-raises", lambda: f"{prim} {al} {ti} -> {got}")
                continue
            ctx.ok(err is None, "load-present", lambda: f"{prim} {al} {ti}: {err!r}")
            if err is None:
                w = sd[want_name]
                if dt:
                    w = w.to(getattr(torch, dt))
                ctx.ok(got is not None and bits(got) == bits(w), "load-task-value", lambda: f"{prim} {al} {ti} dt={dt}")
        ctx.nontrivial("task", fmt, n, rng.random())
    finally:
        LoaderCache().loaders.pop(ref, None)


CHECK = Check(
    prop="P06",
    level="exploration",
    rule="generated checkpoints (safetensors / torch zip pickles; single, sharded, state_dict-wrapped; 11 dtypes; 0-d, empty, "
    "strided, expanded, offset and storage-sharing views) read back by name/alias in random order, lazily or eagerly, "
    "serially or from up to 8 threads; compared bit for bit with the tensors that were written; non-trivial = tensors were "
    "read and compared; distinct by layout",
    assumptions=["PyTorch files are zip archives (torch>=1.6 format)", "tensors are plain torch tensors on CPU"],
    workloads=[
        Workload("read", wl_read, 5000, 50000, require=["tensor-read", "alias-read", "missing-read", "other-device", "lazy-pickle", "renamed"]),
        Workload("threads", wl_threads, 1000, 8000, require=["concurrent-readers"]),
        Workload("load_task", wl_load_task, 1000, 8000, require=["load-task"]),
    ],
)
