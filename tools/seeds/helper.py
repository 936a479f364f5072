import json, os, shutil, tempfile
import torch
from safetensors.torch import save_file, load_file

tmp = tempfile.mkdtemp(prefix="demo")
import atexit
atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))


def path(*p):
    return os.path.join(tmp, *p)


def llama(name, layers=2, hidden=8, inter=12, vocab=16, seed=0, dtype="float32", tensors=None, bin=False, shards=1, tied=False, edit=None):
    """Write a tiny llama and return (path, tensors)."""
    d = path(name)
    os.makedirs(d)
    cfg = dict(model_type="llama", architectures=["LlamaForCausalLM"], hidden_size=hidden, intermediate_size=inter, num_hidden_layers=layers,
               num_attention_heads=2, num_key_value_heads=2, vocab_size=vocab, tie_word_embeddings=tied, torch_dtype=dtype, rms_norm_eps=1e-5,
               max_position_embeddings=64)
    json.dump(cfg, open(os.path.join(d, "config.json"), "w"))
    g = torch.Generator().manual_seed(seed)
    sh = {"model.embed_tokens.weight": (vocab, hidden), "model.norm.weight": (hidden,)}
    if not tied:
        sh["lm_head.weight"] = (vocab, hidden)
    for l in range(layers):
        p = f"model.layers.{l}."
        for a in "qkvo":
            sh[p + f"self_attn.{a}_proj.weight"] = (hidden, hidden)
        sh[p + "mlp.gate_proj.weight"] = sh[p + "mlp.up_proj.weight"] = (inter, hidden)
        sh[p + "mlp.down_proj.weight"] = (hidden, inter)
        sh[p + "input_layernorm.weight"] = sh[p + "post_attention_layernorm.weight"] = (hidden,)
    t = tensors or {k: torch.randn(s, generator=g) for k, s in sh.items()}
    t = {k: v.to(getattr(torch, dtype)).contiguous() for k, v in t.items()}
    if edit:
        edit(t)
    names = sorted(t)
    if shards == 1:
        if bin:
            torch.save(t, os.path.join(d, "pytorch_model.bin"))
        else:
            save_file(t, os.path.join(d, "model.safetensors"), {"format": "pt"})
    else:
        wm = {}
        for i in range(shards):
            part = names[i::shards]
            f = f"model-{i+1:05d}-of-{shards:05d}.safetensors"
            save_file({k: t[k] for k in part}, os.path.join(d, f), {"format": "pt"})
            wm.update({k: f for k in part})
        json.dump(dict(metadata={}, weight_map=wm), open(os.path.join(d, "model.safetensors.index.json"), "w"))
    return d, t


def merge(cfg, out=None, **opts):
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions
    out = out or tempfile.mkdtemp(dir=tmp)
    o = dict(quiet=True, copy_tokenizer=False)
    o.update(opts)
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(**o))
    return out


def read(d):
    idx = os.path.join(d, "model.safetensors.index.json")
    if os.path.exists(idx):
        res = {}
        for f in set(json.load(open(idx))["weight_map"].values()):
            res.update(load_file(os.path.join(d, f)))
        return res
    return load_file(os.path.join(d, "model.safetensors"))


def need(cond, msg):
    if not cond:
        print("FAIL", msg)
        raise SystemExit(1)


def tok(d, words, chat_template=None, ids=None):
    """Write a whitespace word tokenizer: <unk> <s> </s> and the words."""
    vocab = ids or {t: i for i, t in enumerate(["<unk>", "<s>", "</s>"] + list(words))}
    at = [dict(id=vocab[t], content=t, single_word=False, lstrip=False, rstrip=False, normalized=False, special=True) for t in ("<unk>", "<s>", "</s>") if t in vocab]
    at.sort(key=lambda e: e["id"])
    doc = dict(version="1.0", truncation=None, padding=None, added_tokens=at, normalizer=None, pre_tokenizer=dict(type="Whitespace"),
               post_processor=None, decoder=None, model=dict(type="WordLevel", vocab=vocab, unk_token="<unk>"))
    json.dump(doc, open(os.path.join(d, "tokenizer.json"), "w"))
    cfg = dict(tokenizer_class="PreTrainedTokenizerFast", unk_token="<unk>", bos_token="<s>", eos_token="</s>", model_max_length=128)
    if chat_template is not None:
        cfg["chat_template"] = chat_template
    json.dump(cfg, open(os.path.join(d, "tokenizer_config.json"), "w"))
