"""LoRA adapters written as files, and the weights they stand for."""

import json
import os
import re

import safetensors.torch
import torch

PRE = "base_model.model."


def dyadic(shape, g, denom=4):
    """Values k/denom with |k| <= 2: products and short sums of them are exact in every dtype used here."""
    return torch.randint(-2, 3, tuple(shape), generator=g).float() / denom


def write_adapter(rng, path, base_path, tensors, targets, r=None, alpha=None, dtype=torch.float32, rslora=False, save_modules=(), conv1d=False,
                  embeddings=(), fmt="st", per_module=False, task="CAUSAL_LM"):
    """Adapt some of the base's 2-d weights; returns {weight name: delta} and {weight name: replacement}."""
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    r = r or rng.choice([1, 2, 4])
    alpha = alpha or r * rng.choice([1, 1, 2, 4]) / rng.choice([1, 1, 2])
    sd, delta, repl = {}, {}, {}
    cfg = dict(peft_type="LORA", task_type=task, base_model_name_or_path=base_path, r=r, lora_alpha=alpha, target_modules=sorted(targets),
               lora_dropout=0.0, bias="none", inference_mode=True, fan_in_fan_out=conv1d, use_rslora=rslora, init_lora_weights=True)
    rp, ap = {}, {}
    for nm in sorted(tensors):
        m = re.match(r"(.*\.)?(\w+)\.weight$", nm)
        if not m or m.group(2) not in targets or tensors[nm].dim() != 2:
            continue
        mod = nm[: -len(".weight")]
        rr, aa = r, alpha
        if per_module and rng.random() < 0.3 and not rslora:
            rr = rp[mod] = rng.choice([1, 2, 4])
            aa = ap[mod] = rr * rng.choice([1, 2])
        scale = aa / rr**0.5 if rslora else aa / rr
        out, inn = tensors[nm].shape if not conv1d else tensors[nm].shape[::-1]
        if nm in embeddings:
            # an embedding is looked up by row: A is (r, vocab), B is (hidden, r)
            A, B = dyadic((rr, out), g), dyadic((inn, rr), g)
            sd[f"{PRE}{mod}.lora_embedding_A"], sd[f"{PRE}{mod}.lora_embedding_B"] = A, B
            delta[nm] = (B @ A).T * scale
            continue
        A, B = dyadic((rr, inn), g), dyadic((out, rr), g)
        sd[f"{PRE}{mod}.lora_A.weight"], sd[f"{PRE}{mod}.lora_B.weight"] = A, B
        d = (B @ A) * scale
        delta[nm] = d.T if conv1d else d
    for nm in save_modules:
        mod = nm[: -len(".weight")]
        repl[nm] = torch.randn(tensors[nm].shape, generator=g).to(tensors[nm].dtype).float()
        sd[f"{PRE}{mod}.weight"] = repl[nm]
    if save_modules:
        cfg["modules_to_save"] = sorted({nm[: -len(".weight")].split(".")[-1] for nm in save_modules})
    if rp:
        cfg["rank_pattern"], cfg["alpha_pattern"] = rp, ap
    os.makedirs(path, exist_ok=True)
    json.dump(cfg, open(os.path.join(path, "adapter_config.json"), "w"))
    sd = {k: v.to(dtype).contiguous() for k, v in sd.items()}
    if fmt == "st":
        safetensors.torch.save_file(sd, os.path.join(path, "adapter_model.safetensors"))
    else:
        torch.save(sd, os.path.join(path, "adapter_model.bin"))
    return delta, repl


def applied(tensors, delta, repl, dtype=None):
    """The weights of base plus adapter."""
    out = {}
    for nm, t in tensors.items():
        t = t.to(dtype) if dtype is not None else t
        if nm in repl:
            t = repl[nm].to(t.dtype)
        if nm in delta:
            t = (t.double() + delta[nm].double()).to(t.dtype)
        out[nm] = t
    return out
