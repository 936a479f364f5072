"""Independent checkpoint readers and tensor generators (no mergekit code)."""

import json
import os
import struct

import safetensors
import torch

DTYPES = [torch.float32, torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.int32,
          torch.int8, torch.uint8, torch.bool, torch.float64, torch.int16]


def gen_tensor(rng, dtype=None, shape=None, special=True):
    dtype = dtype or rng.choice(DTYPES)
    if shape is None:
        shape = rng.choice([(), (0,), (1,), (3,), (7,), (16,), (2, 3), (5, 4), (1, 9), (8, 8), (2, 0, 3), (2, 3, 4),
                            (33, 7), (64,)])
    if dtype.is_floating_point:
        t = torch.randn(shape).to(dtype)
        if special and t.numel() and rng.random() < 0.2:
            t.view(-1)[rng.randrange(t.numel())] = rng.choice([float("inf"), -float("inf"), float("nan"), -0.0, 1e-40])
    elif dtype == torch.bool:
        t = torch.rand(shape) < 0.5
    else:
        ii = torch.iinfo(dtype)
        t = torch.randint(max(ii.min, -(2**62)), min(ii.max, 2**62), shape, dtype=torch.int64).to(dtype)
    return t


def bits(t: torch.Tensor):
    t = t.detach().cpu().contiguous()
    return (str(t.dtype), tuple(t.shape),
            bytes(t.reshape(-1).view(torch.uint8).numpy().tobytes()) if t.numel() else b"")


def same_bits(a, b):
    return a.dtype == b.dtype and tuple(a.shape) == tuple(b.shape) and bits(a) == bits(b)


def read_file(path):
    """name -> tensor using the reference libraries directly."""
    if path.endswith(".safetensors"):
        out = {}
        with safetensors.safe_open(path, framework="pt") as f:
            for k in f.keys():
                out[k] = f.get_tensor(k)
        return out
    return dict(torch.load(path, map_location="cpu", weights_only=True))


def read_checkpoint(path, ext="safetensors", base=None):
    """Read a checkpoint the way Hugging Face tools do.

    Returns (tensors, shard_file -> names, index or None)."""
    base = base or ("model" if ext == "safetensors" else "pytorch_model")
    idxp = os.path.join(path, f"{base}.{ext}.index.json")
    single = os.path.join(path, f"{base}.{ext}")
    if os.path.exists(idxp):
        with open(idxp) as f:
            index = json.load(f)
        files = sorted(set(index["weight_map"].values()))
        tensors, shards = {}, {}
        for fn in files:
            d = read_file(os.path.join(path, fn))
            shards[fn] = sorted(d)
            for k, v in d.items():
                if index["weight_map"].get(k) == fn:
                    tensors[k] = v
        return tensors, shards, index
    d = read_file(single)
    return d, {os.path.basename(single): sorted(d)}, None
