"""P16: the merged model is complete, loads, and has the dtype and shape its configuration says."""

import json
import os
import re
import shutil
import warnings

import safetensors.torch as st
import torch
import transformers as T
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk.archs import ARCHS, make
from vk.ckpt import read_checkpoint
from vk.core import Check, Skip, Workload
from vk.models import llama_config, llama_shapes, rand_tensors, write_ckpt

T.utils.logging.disable_progress_bar()
T.utils.logging.set_verbosity_error()
warnings.filterwarnings("ignore")
NAMES = sorted(ARCHS)
DT = {"float32": torch.float32, "float16": torch.float16, "bfloat16": torch.bfloat16}


def save(m, path, rng):
    if rng is not None and rng.random() < 0.3:
        m.save_pretrained(path, max_shard_size=rng.choice(["1KB", "4KB", "20KB"]))
    else:
        m.save_pretrained(path)


def load_back(ctx, m, out, name):
    try:
        r, info = type(m).from_pretrained(out, output_loading_info=True, torch_dtype="auto")
    except Exception as e:
        ctx.fail("loads", f"{name}: transformers cannot load the output: {type(e).__name__}: {str(e)[:300]}", stop=True)
    bad = {k: sorted(map(str, v))[:6] for k, v in info.items() if v}
    ctx.ok(not bad, "complete", lambda: f"{name}: {bad}", stop=True)
    ctx.event("output-loaded")
    return r


def wl_identity(ctx, rng):
    name = NAMES[ctx.case % len(NAMES)]
    src_dt = rng.choice(["float32", "float32", "bfloat16", "float16"])
    m = make(name, seed=rng.randrange(10**6), dtype=DT[src_dt])
    save(m, ctx.path("a"), rng)
    dtype = rng.choice([None, None, "float32", "bfloat16", "float16"])
    out_dtype = rng.choice([None, None, None, "float32", "bfloat16", "float16"])
    cfg = dict(merge_method="passthrough", models=[dict(model=ctx.path("a"))])
    if rng.random() < 0.3:
        cfg = dict(merge_method="linear", models=[dict(model=ctx.path("a"), parameters=dict(weight=1.0))])
    if dtype:
        cfg["dtype"] = dtype
    if out_dtype:
        cfg["out_dtype"] = out_dtype
    opts = dict(quiet=True, copy_tokenizer=False, out_shard_size=rng.choice([5 * 10**9, 3000, 500]),
                async_write=rng.random() < 0.3, write_threads=rng.choice([1, 3]), lazy_unpickle=rng.random() < 0.5,
                clone_tensors=rng.random() < 0.3)
    out = ctx.path("out")
    ctx.describe(dict(arch=name, src=src_dt, cfg={k: v for k, v in cfg.items() if k != "models"}, opts=opts))
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(**opts))
    final = out_dtype or dtype or src_dt
    disk, _, _ = read_checkpoint(out)
    # a weight whose dtype the architecture pins keeps it
    odd = {k: str(v.dtype) for k, v in disk.items() if v.is_floating_point() and v.dtype != DT[final]}
    ctx.ok(not odd, "dtype", lambda: f"{name}: configured {final}, on disk {dict(list(odd.items())[:4])}")
    with open(os.path.join(out, "config.json")) as f:
        cj = json.load(f)
    if out_dtype or dtype:
        said = cj.get("dtype") or cj.get("torch_dtype")
        ctx.ok(said == final, "config-dtype", lambda: f"{name}: config says {said}, weights are {final}")
    ctx.ok(cj.get("architectures") == [ARCHS[name]["cls"]], "config-architecture", lambda: f"{cj.get('architectures')}")
    r = load_back(ctx, m, out, name)
    want, got = m.state_dict(), r.state_dict()
    for k, v in want.items():
        if not v.is_floating_point():
            ctx.ok(k in got and torch.equal(got[k], v), "weights-preserved", lambda: f"{name}:{k}")
            continue
        x = v
        if dtype:
            x = x.to(DT[dtype])
        x = x.to(DT[final])
        ctx.event("weight-compared")
        ctx.ok(k in got and torch.equal(got[k].float(), x.float()), "weights-preserved",
               lambda: f"{name}: {k} changed (max diff {(got[k].float() - x.float()).abs().max() if k in got and got[k].shape == x.shape else 'shape/missing'})")
    ctx.event("arch:" + name)
    ctx.state(name, final)
    ctx.nontrivial(name, src_dt, dtype, out_dtype, opts["out_shard_size"])


def wl_average(ctx, rng):
    """Two different models of one architecture: each output weight is the average of the same two weights."""
    name = NAMES[ctx.case % len(NAMES)]
    a, b = make(name, seed=rng.randrange(10**6)), make(name, seed=rng.randrange(10**6))
    save(a, ctx.path("a"), rng)
    save(b, ctx.path("b"), rng)
    w = rng.choice([0.25, 0.5, 0.75])
    cfg = dict(merge_method="linear", dtype="float32",
               models=[dict(model=ctx.path("a"), parameters=dict(weight=w)), dict(model=ctx.path("b"), parameters=dict(weight=1 - w))])
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False))
    r = load_back(ctx, a, out, name)
    sa, sb, so = a.state_dict(), b.state_dict(), r.state_dict()
    for k in sa:
        if sa[k].is_floating_point():
            ctx.event("weight-compared")
            x = w * sa[k] + (1 - w) * sb[k]
            ctx.ok(k in so and so[k].shape == x.shape and torch.allclose(so[k], x, atol=1e-5), "right-weight", lambda: f"{name}: {k}")
    ctx.event("arch:" + name)
    ctx.nontrivial("avg", name, w, rng.random())


VARIANTS = [
    ("llama", dict(attention_bias=True)), ("llama", dict(mlp_bias=True)), ("llama-cls", dict(attention_bias=True)),
    ("llama", dict(tie_word_embeddings=True)), ("qwen3", dict(attention_bias=True)), ("qwen3_moe", dict(attention_bias=True)),
    ("gemma", dict(attention_bias=True)), ("gemma2", dict(attention_bias=True)), ("gemma3_text", dict(attention_bias=True)),
    ("gemma", dict(tie_word_embeddings=False)), ("gemma2", dict(tie_word_embeddings=False)), ("phi", dict(qk_layernorm=True)),
    ("cohere", dict(use_qk_norm=True)), ("cohere", dict(attention_bias=True)), ("cohere2", dict(attention_bias=True)),
    ("olmo2", dict(attention_bias=True)), ("arcee", dict(mlp_bias=True)), ("apertus", dict(attention_bias=True)),
    ("lfm2", dict(conv_bias=True)), ("mamba", dict(use_bias=True)), ("granite", dict(attention_bias=True)),
    ("glm4", dict(attention_bias=True)), ("stablelm", dict(use_qkv_bias=True)), ("stablelm", dict(qk_layernorm=True)),
    ("auto-qwen2moe", dict(decoder_sparse_step=2)), ("bert-mlm", dict(tie_word_embeddings=False)),
    ("roberta-mlm", dict(tie_word_embeddings=False)), ("qwen2", dict(tie_word_embeddings=True)), ("granitemoehybrid", dict(attention_bias=True)),
    ("afmoe", dict(attention_bias=True)), ("gpt_neox", dict(use_parallel_residual=False)), ("auto-opt", dict(enable_bias=False)),
    ("mistral", dict(tie_word_embeddings=True)), ("mixtral", dict(tie_word_embeddings=True)), ("auto-olmo", dict(attention_bias=True)),
]


def wl_variant(ctx, rng):
    """Unusual but valid configurations of a supported architecture lose nothing silently."""
    name, over = VARIANTS[ctx.case % len(VARIANTS)]
    m = make(name, seed=rng.randrange(10**6), **over)
    save(m, ctx.path("a"), rng)
    out = ctx.path("out")
    cfg = dict(merge_method="passthrough", models=[dict(model=ctx.path("a"))], dtype="float32")
    ctx.describe(dict(arch=name, over=over))
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False))
    r, info = type(m).from_pretrained(out, output_loading_info=True)
    want, got = m.state_dict(), r.state_dict()
    lost = sorted(k for k in want if k not in got or not torch.equal(want[k], got[k]))
    ctx.event("variant-judged")
    ctx.ok(not lost, f"variant-lost:{name}:{'-'.join(over)}", lambda: f"{name} with {over}: {lost[:6]} not carried over")
    ctx.nontrivial("variant", name, tuple(over))


# what a valid checkpoint of the architecture may or may not have, depending on its configuration or the layer:
# (the output head, which can be tied, in every architecture)
MAY_LACK = {
    "bert-cls": r"bert\.pooler\.", "glm4": r"self_attn\.[qkv]_proj\.bias", "granitemoehybrid": r"\.(mamba|self_attn)\.",
    "lfm2": r"\.(conv|self_attn)\.", "llama-bias": r"\.bias$", "llama4": r"\.feed_forward\.",
    "t5": r"\.(DenseReluDense\.wi|SelfAttention\.relative_attention_bias)", "t5-gated": r"\.(DenseReluDense\.wi_\d|SelfAttention\.relative_attention_bias)",
}


def wl_missing(ctx, rng):
    """A source that lacks a required weight is refused by name, never papered over."""
    names = [n for n in NAMES if not n.startswith("auto-") and n not in ("afmoe",)]
    name = names[ctx.case % len(names)]
    m = make(name, seed=1)
    m.save_pretrained(ctx.path("a"))
    p = os.path.join(ctx.path("a"), "model.safetensors")
    d = st.load_file(p)
    # only weights whose on-disk name is the one the output uses
    out0 = ctx.path("o0")
    cfg = dict(merge_method="passthrough", models=[dict(model=ctx.path("a"))])
    run_merge(MergeConfiguration.model_validate(cfg), out0, MergeOptions(quiet=True, copy_tokenizer=False))
    out_names = set(read_checkpoint(out0)[0])
    names = sorted(set(d) & out_names)
    if not names:
        raise Skip()
    converted = set(d) != out_names  # the checkpoint stores some weights in another layout than the model uses
    groups = {}
    for k in names:  # one per kind of weight, in a random layer
        groups.setdefault(re.sub(r"\d+", "#", k), []).append(k)
    kinds = sorted(groups)
    rng.shuffle(kinds)
    for n, kind in enumerate(kinds[: 4 if ctx.tier == "quick" else None]):
        missing_one(ctx, rng, name, m, d, rng.choice(groups[kind]), converted, n)


def missing_one(ctx, rng, name, m, d, victim, converted, n):
    kept = {k: v for k, v in d.items() if k != victim}
    b = ctx.path(f"b{n}")
    shutil.copytree(ctx.path("a"), b)
    os.unlink(os.path.join(b, "model.safetensors"))
    st.save_file(kept, os.path.join(b, "model.safetensors"), metadata={"format": "pt"})
    _, info = type(m).from_pretrained(b, output_loading_info=True)
    required = bool(info["missing_keys"])  # transformers itself has to make something up for it
    out = ctx.path(f"out{n}")
    cfg = dict(merge_method="passthrough", models=[dict(model=b)])
    try:
        run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False))
    except Exception as e:
        ctx.event("refused")
        ctx.ok(victim in str(e), "missing-named", lambda: f"{name}: {victim} missing, error was {type(e).__name__}: {str(e)[:200]}")
        ctx.nontrivial("missing", name, victim)
        return
    # accepted: then the weight was optional, and nothing may stand in for it except a weight it is tied to
    free = victim.endswith("lm_head.weight") or re.search(MAY_LACK.get(name, "$^"), victim)
    ctx.ok(not required or free, "missing-accepted", lambda: f"{name}: merged without a complaint although {victim} is missing")
    disk, _, _ = read_checkpoint(out)
    ctx.event("accepted-without")
    extra = set() if converted else set(disk) - set(kept)
    for k in extra:
        src = [x for x in kept if kept[x].shape == disk[k].shape and torch.equal(kept[x].float(), disk[k].float())]
        ctx.ok(bool(src), "invented-weight", lambda: f"{name}: {k} appears although the source lacks it")
    ctx.nontrivial("optional", name, victim)


BUFFERED = [n for n in NAMES if n.split("-")[0] in ("bert", "roberta") and n != "bert-tok"]


def wl_buffers(ctx, rng):
    """Checkpoints of earlier transformers releases store the position ids, which are integers."""
    name = BUFFERED[ctx.case % len(BUFFERED)]
    key = (name.split("-")[0] + "." if "-" in name else "") + "embeddings.position_ids"
    n = rng.choice([512, 514, 1026])
    ids = torch.arange(n)[None]
    have = []
    for p in "abc":
        m = make(name, seed=rng.randrange(10**6), max_position_embeddings=n)
        m.save_pretrained(ctx.path(p))
        t = st.load_file(ctx.path(p, "model.safetensors"))
        t[key] = ids
        st.save_file(t, ctx.path(p, "model.safetensors"), {"format": "pt"})
        have.append(t)
    method = rng.choice(["linear", "linear", "passthrough", "slerp", "task_arithmetic"])
    dtype, out_dtype = rng.choice([None, "float32", "bfloat16", "float16"]), rng.choice([None, None, "float32", "bfloat16"])
    w = [rng.choice([0.25, 0.3, 0.5, 1.0]) for _ in range(3)]
    ms = [dict(model=ctx.path(p), **({} if method in ("slerp", "passthrough") else dict(parameters=dict(weight=x)))) for p, x in zip("abc", w)]
    cfg = dict(merge_method=method, models=ms[: dict(slerp=2, passthrough=1).get(method, 3)])
    if method in ("slerp", "task_arithmetic"):
        cfg["base_model"] = ctx.path("a")
    if method == "slerp":
        cfg["parameters"] = dict(t=rng.choice([0.0, 0.5, 1.0]))
    cfg.update({k: v for k, v in dict(dtype=dtype, out_dtype=out_dtype).items() if v})
    ctx.describe(dict(arch=name, config=cfg, positions=n))
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False, lazy_unpickle=rng.random() < 0.5))
    disk, _, _ = read_checkpoint(out)
    ctx.ok(set(disk) == set(have[0]), "complete", lambda: f"{name}: {sorted(set(disk) ^ set(have[0]))[:5]}", stop=True)
    ctx.ok(not disk[key].is_floating_point() and torch.equal(disk[key], ids), "integers-preserved",
           lambda: f"{name}, {method}, dtype {dtype}/{out_dtype}: position ids {disk[key].dtype} {disk[key].flatten()[-4:].tolist()} instead of {ids[0, -4:].tolist()}")
    load_back(ctx, m, out, name)
    ctx.event("integers:" + method)
    ctx.nontrivial(name, method, dtype, out_dtype, n)


def wl_partial(ctx, rng):
    """Optional weights that only some of the models have are averaged among those that have them."""
    cfg = llama_config(layers=rng.choice([1, 2, 3]), hidden=8, inter=6, heads=2, vocab=9)
    shapes = llama_shapes(cfg)
    biases = {k.replace(".weight", ".bias"): (s[0],) for k, s in shapes.items() if re.search(r"(q|k|v|o|up|gate|down)_proj", k)}
    n = rng.choice([2, 3, 3, 4, 5])
    have, ms, w = [], [], []
    p = rng.choice([0.2, 0.5])
    for i in range(n):
        mine = [k for k in biases if rng.random() < p]
        t = rand_tensors({**shapes, **{k: biases[k] for k in mine}}, rng.randrange(1 << 30))
        write_ckpt(ctx.path(f"m{i}"), cfg, t, rng.choice(["st", "bin"]), rng.choice([None, 3]), rng)
        have.append(t)
        w.append(rng.choice([0.5, 1.0, 2.0, 0.25]))
        ms.append(dict(model=ctx.path(f"m{i}"), parameters=dict(weight=w[-1])))
    out = ctx.path("out")
    c = dict(merge_method="linear", models=ms, dtype="float32")
    ctx.describe(dict(config=c, has=[sorted(set(t) & set(biases)) for t in have]))
    run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(quiet=True, copy_tokenizer=False))
    disk, _, _ = read_checkpoint(out)
    want = {k for t in have for k in t}
    ctx.ok(set(disk) == want, "partial-names", lambda: f"{sorted(set(disk) ^ want)[:5]}; in {[[i for i, t in enumerate(have) if k in t] for k in sorted(set(disk) ^ want)[:5]]} of {n}", stop=True)
    for k in want:
        hs = [(t[k].double(), x) for t, x in zip(have, w) if k in t]
        v = sum(t * x for t, x in hs) / sum(x for _, x in hs)
        ctx.ok(torch.allclose(disk[k].double(), v, atol=1e-5), "partial-value", lambda: f"{k} of {len(hs)}/{n} models")
        if len(hs) < n:
            ctx.event("partial-weight")
            if k not in have[0]:
                ctx.event("absent-in-first")
    ctx.nontrivial(n, p, rng.random())


CHECK = Check(
    prop="P16",
    level="exploration",
    rule=f"{len(NAMES)} architectures (tiny transformers models; 6 of them without a definition file, so inferred) x source "
    "dtype x dtype/out_dtype x shard size x writer options, merged alone or averaged with a second model, the output loaded "
    "with transformers (no missing or unexpected key) and every state-dict entry compared; plus 35 unusual configuration "
    "variants, sources with one weight removed and averages of models of which some have optional weights; distinct by architecture and settings",
    assumptions=["transformers 5.12's own loader is the reference for what a complete checkpoint is"],
    workloads=[
        Workload("identity", wl_identity, 4 * len(NAMES), 40 * len(NAMES), require=["output-loaded", "weight-compared"] + ["arch:" + n for n in NAMES]),
        Workload("average", wl_average, 2 * len(NAMES), 15 * len(NAMES), require=["output-loaded"]),
        Workload("variant", wl_variant, len(VARIANTS), 4 * len(VARIANTS), require=["variant-judged"]),
        Workload("buffers", wl_buffers, 3 * len(BUFFERED), 30 * len(BUFFERED), require=["integers:linear", "integers:passthrough"]),
        Workload("partial", wl_partial, 60, 1500, require=["partial-weight", "absent-in-first"]),
        Workload("missing", wl_missing, 2 * len(NAMES), 4 * len(NAMES), require=["refused", "accepted-without"]),
    ],
)
