"""P04: whatever is saved is what the finished checkpoint contains."""

import os
import threading
import time

import safetensors.torch
import torch
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
from mergekit.io.tensor_writer import TensorWriter

from vk.ckpt import DTYPES, bits, gen_tensor, read_checkpoint, read_file, same_bits
from vk.core import Check, Workload


def gen_items(rng, n):
    items = []
    pool = []
    for i in range(n):
        r = rng.random()
        if pool and r < 0.12:
            t = rng.choice(pool)  # same tensor under another name
        elif pool and r < 0.2:
            src = rng.choice(pool)
            t = src[: max(1, src.shape[0] // 2)] if src.dim() and src.shape[0] > 1 else src  # overlapping view
        elif r < 0.3:
            t = gen_tensor(rng, shape=rng.choice([(4, 6), (3, 5), (6, 2)])).t()  # non-contiguous
        elif r < 0.36:
            t = gen_tensor(rng, shape=(1, 5)).expand(3, 5)
        elif r < 0.42:
            t = gen_tensor(rng, shape=(9, 4))[::2, 1:3]
        elif r < 0.46:
            t = torch.nn.Parameter(torch.randn(3, 3))
            t = t.data
        else:
            t = gen_tensor(rng)
        pool.append(t)
        items.append((rng.choice(["model.layers.%d.w", "lm_head.%d", "a b.%d", "ünï.%d"]) % i, t))
    return items


def expect_dir(ctx, path, want, ext, base, limit, stale=()):
    """Offline checker over the finished directory."""
    base_name = base or ("model" if ext == "safetensors" else "pytorch_model")
    try:
        tensors, shards, index = read_checkpoint(path, ext, base)
    except Exception as e:
        ctx.fail("readable", f"finished checkpoint unreadable: {type(e).__name__}: {e}; files {sorted(os.listdir(path))}", stop=True)
    ctx.event("checkpoint-read")
    missing = sorted(set(want) - set(tensors))
    extra = sorted(set(tensors) - set(want))
    ctx.ok(not missing, "nothing-lost", lambda: f"missing {missing[:5]}")
    ctx.ok(not extra, "nothing-invented", lambda: f"unexpected {extra[:5]}")
    for k in want:
        if k in tensors:
            ctx.event("tensor-compared")
            ctx.ok(bits(tensors[k]) == want[k], "bits-preserved",
                   lambda: f"{k}: saved {want[k][:2]} read {tuple(tensors[k].shape)} {tensors[k].dtype}")
    files = [f for f in sorted(os.listdir(path)) if f not in stale]
    wfiles = [f for f in files if f.endswith("." + ext)]
    ctx.ok(set(wfiles) == set(shards), "no-stray-files", lambda: f"{files} vs {sorted(shards)}")
    names = [k for ks in shards.values() for k in ks]
    ctx.ok(len(names) == len(set(names)), "exactly-once", lambda: f"duplicated across shards: {names}")
    if len(shards) > 1:
        ctx.event("sharded-output")
        n = len(shards)
        exp = {f"{base_name}-{i+1:05d}-of-{n:05d}.{ext}" for i in range(n)}
        ctx.ok(set(shards) == exp, "shard-names", lambda: f"{sorted(shards)}")
        ctx.ok(index is not None, "index-present", "no index for several shards", stop=True)
        wm = index["weight_map"]
        real = {k: f for f, ks in shards.items() for k in ks}
        ctx.ok(wm == real, "index-true", lambda: f"index {wm} real {real}")
        tot = sum(len(b[2]) for b in want.values())
        ctx.ok(index["metadata"]["total_size"] == tot, "index-total", lambda: f"{index['metadata']} vs {tot}")
    else:
        ctx.event("single-file-output")
        ctx.ok(list(shards) == [f"{base_name}.{ext}"], "single-name", lambda: f"{sorted(shards)}")
        ctx.ok(index is None, "no-index-for-single", "an index file is left for a single-file checkpoint")
    if limit > 0:
        for f, ks in shards.items():
            sz = sum(len(want[k][2]) for k in ks if k in want)
            ctx.ok(sz <= limit or len(ks) == 1, "shard-limit", lambda: f"{f}: {sz} bytes, {len(ks)} tensors, limit {limit}")
    else:
        ctx.ok(len(shards) == 1, "unlimited-single", lambda: f"{sorted(shards)}")
    if base is None:
        # and mergekit's own reader must see the same checkpoint
        ld = LazyTensorLoader.from_disk(path, lazy_unpickle=False)
        ctx.ok(set(ld.index.tensor_paths) == set(want), "own-reader", lambda: f"{sorted(ld.index.tensor_paths)[:6]} vs {sorted(want)[:6]}")
        for k in sorted(want)[:4]:
            ctx.ok(bits(ld.get_tensor(k)) == want[k], "own-reader-value", k)


def _limit(rng, items):
    sizes = [t.numel() * t.element_size() for _, t in items] or [1]
    return rng.choice([-1, 0, 1, 8, 50, 200, 1000, max(sizes), max(1, max(sizes) - 1), sum(sizes), max(1, sum(sizes) - 1),
                       sum(sizes) // 2 + 1, 5 * 10**9])


class SlowSave:
    """Delay injected in front of the real serialisation calls (schedule diversity)."""

    def __init__(self, rng):
        self.d = [rng.choice([0, 0, 0.001, 0.003]) for _ in range(17)]
        self.n = 0

    def __enter__(self):
        self.st, self.ts = safetensors.torch.save_file, torch.save

        def st(*a, **k):
            self.n += 1
            time.sleep(self.d[self.n % 17])
            return self.st(*a, **k)

        def ts(*a, **k):
            self.n += 1
            time.sleep(self.d[self.n % 17])
            return self.ts(*a, **k)

        safetensors.torch.save_file, torch.save = st, ts
        return self

    def __exit__(self, *a):
        safetensors.torch.save_file, torch.save = self.st, self.ts


def wl_sequence(ctx, rng):
    n = rng.choice([1, 1, 2, 3, 5, 9, 20, 40])
    items = gen_items(rng, n)
    st = rng.random() < 0.6
    ext = "safetensors" if st else "bin"
    base = rng.choice([None, None, None, "adapter_model", "foo"])
    use_async = rng.random() < 0.6
    limit = _limit(rng, items)
    clone = rng.random() < 0.4
    thr = rng.choice([1, 1, 2, 4])
    want = {}
    path = ctx.path("out", "deep") if rng.random() < 0.3 else ctx.path("out")
    ctx.describe(dict(n=n, ext=ext, base=base, limit=limit, use_async=use_async, threads=thr, clone=clone))
    with SlowSave(rng):
        w = TensorWriter(path, max_shard_size=limit, safe_serialization=st, override_basename=base,
                         use_async=use_async, max_write_threads=thr)
        cm = rng.random() < 0.4
        if cm:
            w.__enter__()
        for name, t in items:
            want[name] = bits(t)
            w.save_tensor(name, t, clone=clone)
            if clone and rng.random() < 0.3 and t.numel() and not any(s == 0 for s in t.stride()):
                t.zero_()  # the caller reuses its buffer; a cloned save must be unaffected
                for nm, tt in items:
                    pass
                ctx.event("buffer-reused")
        if cm:
            w.__exit__(None, None, None)
        else:
            w.finalize()
    expect_dir(ctx, path, want, ext, base, limit)
    ctx.nontrivial(ext, base, limit, use_async, thr, clone, tuple(want.items())[:3], n)


def wl_concurrent(ctx, rng):
    """Several threads save into one writer."""
    n = rng.choice([6, 12, 24, 48])
    items = gen_items(rng, n)
    st = rng.random() < 0.6
    ext = "safetensors" if st else "bin"
    use_async = rng.random() < 0.7
    limit = _limit(rng, items)
    thr = rng.choice([1, 2, 4])
    k = rng.choice([2, 3, 6])
    want = {nm: bits(t) for nm, t in items}
    path = ctx.path("out")
    errs = []
    import sys

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with SlowSave(rng):
            w = TensorWriter(path, max_shard_size=limit, safe_serialization=st, use_async=use_async, max_write_threads=thr)

            def go(part):
                try:
                    for nm, t in part:
                        w.save_tensor(nm, t, clone=False)
                except BaseException as e:
                    errs.append(e)

            ths = [threading.Thread(target=go, args=(items[j::k],)) for j in range(k)]
            [t.start() for t in ths]
            [t.join() for t in ths]
            w.finalize()
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise errs[0]
    ctx.event("concurrent-savers", k)
    ctx.describe(dict(n=n, savers=k, ext=ext, limit=limit, use_async=use_async, threads=thr))
    expect_dir(ctx, path, want, ext, None, limit)
    ctx.state(tuple(sorted(os.listdir(path))), ext)
    ctx.nontrivial("conc", ext, limit, use_async, thr, k, n, tuple(want)[:3], rng.random())


def wl_history(ctx, rng):
    """Several checkpoints written one after another into the same directory."""
    path = ctx.path("out")
    st = rng.random() < 0.7
    ext = "safetensors" if st else "bin"
    mixed = rng.random() < 0.4
    for rnd in range(rng.choice([2, 2, 3])):
        if mixed:
            st = rng.random() < 0.5
            ext = "safetensors" if st else "bin"
        items = gen_items(rng, rng.choice([1, 2, 4, 8]))
        limit = rng.choice([-1, 1, 60, 300, 5 * 10**9])
        want = {f"r{rnd}.{nm}" if rng.random() < 0.5 else nm: bits(t) for nm, t in items}
        names = list(want)
        w = TensorWriter(path, max_shard_size=limit, safe_serialization=st, use_async=rng.random() < 0.5)
        for (nm, t), key in zip(items, names):
            w.save_tensor(key, t)
        w.finalize()
        ctx.event("directory-reused" if rnd else "directory-fresh")
        tensors, shards, index = read_checkpoint(path, ext)
        ctx.ok(set(tensors) == set(want), "reused-directory-content",
               lambda: f"round {rnd}: read {sorted(tensors)[:6]} want {sorted(want)[:6]}; files {sorted(os.listdir(path))}", stop=True)
        for k in want:
            ctx.ok(bits(tensors[k]) == want[k], "reused-directory-bits", k)
        both = {f for f in os.listdir(path) if f.endswith(f"model.{ext}") or f.endswith(f".{ext}.index.json")}
        if mixed:
            ctx.event("directory-reused-in-another-format" if rnd else "directory-fresh")
        ctx.ok(len(both) == 1, "one-entry-point", lambda: f"two competing entry points: {both}")
        ld = LazyTensorLoader.from_disk(path, lazy_unpickle=False)
        ctx.ok(set(ld.index.tensor_paths) == set(want), "own-reader", "stale files seen by the loader", stop=True)
        for k in want:
            ctx.ok(bits(ld.get_tensor(k)) == want[k], "own-reader-value", f"{k}: another checkpoint's value in round {rnd}; files {sorted(os.listdir(path))}")
    ctx.nontrivial("hist", ext, rng.random())


CHECK = Check(
    prop="P04",
    level="exploration",
    rule="random sequences of tensors (11 dtypes, 0-d, empty, views, aliases, NaN/Inf payloads) x shard limit (incl. "
    "unlimited, 1 byte, exact boundary sizes) x format x sync/async x writer threads x concurrent savers x reuse of a "
    "directory; the finished directory is read back with safetensors/torch directly and compared bit for bit; "
    "non-trivial = directory was read back; distinct by settings and payload",
    assumptions=["distinct names within one checkpoint", "without clone the caller does not modify a tensor before finalize"],
    workloads=[
        Workload("sequence", wl_sequence, 6000, 60000,
                 require=["checkpoint-read", "tensor-compared", "sharded-output", "single-file-output", "buffer-reused"]),
        Workload("concurrent", wl_concurrent, 2000, 20000, require=["concurrent-savers", "sharded-output"]),
        Workload("history", wl_history, 1500, 12000, require=["directory-reused"]),
    ],
)
