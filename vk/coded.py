"""Checkpoints whose every element encodes (model, tensor)."""

import torch

from vk.models import llama_config, llama_shapes, write_ckpt


class Coded:
    """A set of llama-shaped checkpoints; `decode(value)` -> (model index, tensor name)."""

    def __init__(self):
        self.paths = []
        self.cfgs = []
        self.names = []
        self.by_code = {}
        self.stride = 256

    def add(self, path, layers, fmt="st", shard=None, rng=None, dtype=torch.float32, **kw):
        cfg = llama_config(layers=layers, **kw)
        cfg["torch_dtype"] = str(dtype).replace("torch.", "")
        m = len(self.paths)
        shapes = llama_shapes(cfg)
        tensors = {}
        for i, (name, shp) in enumerate(shapes.items()):
            code = float(m * self.stride + i + 1)
            tensors[name] = torch.full(shp, code, dtype=dtype)
            self.by_code[code] = (m, name)
        write_ckpt(path, cfg, tensors, fmt, shard, rng)
        self.paths.append(path)
        self.cfgs.append(cfg)
        self.names.append(list(shapes))
        return m

    def decode(self, v):
        return self.by_code.get(v)
