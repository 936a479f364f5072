"""Tiny synthetic checkpoints written directly (config.json + safetensors / bin)."""

import json
import os

import safetensors.torch
import torch


def llama_config(layers=2, hidden=8, inter=12, heads=2, kv=None, vocab=16, tie=False, **kw):
    return dict(
        architectures=["LlamaForCausalLM"], model_type="llama", hidden_size=hidden, intermediate_size=inter,
        num_attention_heads=heads, num_key_value_heads=kv or heads, num_hidden_layers=layers, vocab_size=vocab,
        tie_word_embeddings=tie, rms_norm_eps=1e-6, max_position_embeddings=128, torch_dtype="float32", hidden_act="silu",
        bos_token_id=1, eos_token_id=2, **kw)


def llama_shapes(cfg):
    h, i, v = cfg["hidden_size"], cfg["intermediate_size"], cfg["vocab_size"]
    kvd = h // cfg["num_attention_heads"] * cfg["num_key_value_heads"]
    out = {"model.embed_tokens.weight": (v, h)}
    for l in range(cfg["num_hidden_layers"]):
        p = f"model.layers.{l}."
        out.update({
            p + "input_layernorm.weight": (h,), p + "mlp.down_proj.weight": (h, i), p + "mlp.gate_proj.weight": (i, h),
            p + "mlp.up_proj.weight": (i, h), p + "post_attention_layernorm.weight": (h,),
            p + "self_attn.q_proj.weight": (h, h), p + "self_attn.k_proj.weight": (kvd, h),
            p + "self_attn.v_proj.weight": (kvd, h), p + "self_attn.o_proj.weight": (h, h)})
    out["model.norm.weight"] = (h,)
    if not cfg["tie_word_embeddings"]:
        out["lm_head.weight"] = (v, h)
    return out


def rand_tensors(shapes, seed, dtype=torch.float32, scale=1.0, base=None):
    g = torch.Generator().manual_seed(seed)
    out = {}
    for k, s in shapes.items():
        t = torch.randn(s, generator=g) * scale
        if base is not None:
            t = t + base[k].float()
        out[k] = t.to(dtype)
    return out


def write_ckpt(path, cfg, tensors, fmt="st", shard=None, rng=None):
    """fmt: st | bin; shard: None or number of shards (tensors dealt round-robin/shuffled)."""
    os.makedirs(path, exist_ok=True)
    if cfg is not None:
        with open(os.path.join(path, "config.json"), "w") as f:
            json.dump(cfg, f)
    base, ext = ("model", "safetensors") if fmt == "st" else ("pytorch_model", "bin")

    def save(d, fn):
        if fmt == "st":
            safetensors.torch.save_file({k: v.contiguous() for k, v in d.items()}, os.path.join(path, fn), metadata={"format": "pt"})
        else:
            torch.save(d, os.path.join(path, fn))

    if not shard or shard == 1:
        save(tensors, f"{base}.{ext}")
    else:
        names = list(tensors)
        if rng is not None:
            rng.shuffle(names)
        wm = {}
        for i in range(shard):
            part = {k: tensors[k] for k in names[i::shard]}
            if not part:
                continue
            fn = f"{base}-{i+1:05d}-of-{shard:05d}.{ext}"
            save(part, fn)
            wm.update({k: fn for k in part})
        with open(os.path.join(path, f"{base}.{ext}.index.json"), "w") as f:
            json.dump({"metadata": {"total_size": 0}, "weight_map": wm}, f)
    return str(path)


def tiny_llama(path, seed=0, dtype=torch.float32, fmt="st", shard=None, base=None, scale=1.0, rng=None, **kw):
    cfg = llama_config(**kw)
    cfg["torch_dtype"] = str(dtype).replace("torch.", "")
    t = rand_tensors(llama_shapes(cfg), seed, dtype, scale, base)
    write_ckpt(path, cfg, t, fmt, shard, rng)
    return str(path)
