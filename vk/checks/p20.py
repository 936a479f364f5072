"""P20: an extracted adapter, applied to its base, gives back the fine-tuned model."""

import json
import os
import re
import warnings

import peft
import torch
import transformers as T
from mergekit.common import ModelReference
from mergekit.scripts.extract_lora import main as extract_main
from safetensors.torch import load_file

from vk.archs import make
from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.methods import DT, EPS
from vk.simdev import simulated_accelerators

warnings.simplefilter("ignore")
FAMS = ["llama", "llama", "llama-tied", "llama-bias", "mistral", "mistral", "qwen2", "qwen2", "qwen2-tied", "qwen3", "gemma", "gemma2", "gemma3_text", "phi", "phi3",
        "gpt_bigcode", "gpt_neox", "stablelm", "starcoder2", "olmo2", "cohere", "cohere2", "falcon", "granite", "glm4", "arcee", "lfm2", "auto-opt", "auto-olmo",
        "auto-gptj", "auto-bloom", "auto-smollm3"]
# recorded findings: modules whose own parameters (not .weight/.bias) are left out, and outputs that cannot be loaded
FINDINGS = ["mixtral", "qwen3_moe", "auto-qwen2moe", "apertus", "granitemoehybrid", "glm4_moe", "afmoe"]


def change(rng, w, g):
    """A fine-tuned version of one weight."""
    kind = rng.choice(["full", "low", "low", "none", "sparse", "tiny"])
    f = w.float()
    if kind == "none" or (w.dim() < 2 and kind == "low"):
        return w.clone(), "none"
    if kind == "full":
        d = torch.randn(w.shape, generator=g)
    elif kind == "low":
        r = rng.randint(1, 3)
        d = (torch.randn(w.shape[0], r, generator=g) @ torch.randn(r, w[0].numel(), generator=g)).reshape(w.shape)
    elif kind == "sparse":
        d = torch.randn(w.shape, generator=g) * (torch.rand(w.shape, generator=g) < 0.1)
    else:
        d = torch.randn(w.shape, generator=g) * 1e-3
    return (f + d * rng.choice([0.1, 1.0])).to(w.dtype), kind


def wl_extract(ctx, rng):
    fam = rng.choice(FAMS)
    layers = rng.choice([1, 2, 3])
    dts = rng.choice(["float32", "float32", "float32", "bfloat16", "float16"])
    base = make(fam, seed=rng.randrange(1 << 20), dtype=DT[dts], layers=layers)
    bp, fp, out = ctx.path("base"), ctx.path("ft"), ctx.path("out")
    base.save_pretrained(bp)
    base = T.AutoModelForCausalLM.from_pretrained(bp, dtype=DT[dts]).eval()
    ft = T.AutoModelForCausalLM.from_pretrained(bp, dtype=DT[dts]).eval()
    vocab = base.get_input_embeddings().weight.shape[0]
    tied = ft.get_output_embeddings() is not None and ft.get_output_embeddings().weight is ft.get_input_embeddings().weight
    grow = rng.random() < 0.12 and fam in ("llama", "mistral", "qwen2", "qwen2-tied")
    if grow:
        ft.resize_token_embeddings(vocab + rng.choice([1, 8]))
        ctx.event("larger-vocabulary")
    g = torch.Generator().manual_seed(rng.randrange(1 << 20))
    kinds = {}
    with torch.no_grad():
        for nm, p in ft.named_parameters():
            new, kinds[nm] = change(rng, p.data, g)
            p.copy_(new)
    ft.save_pretrained(fp)
    ft = T.AutoModelForCausalLM.from_pretrained(fp, dtype=DT[dts]).eval()

    flags = []
    maxr = rng.choice([1, 2, 3, 4, 8, 128, None])
    if maxr:
        flags += ["--max-rank", str(maxr)]
    maxr = maxr or 128
    if rng.random() < 0.3:
        flags.append("--no-distribute-scale")
    elora = rng.random() < 0.4
    if elora:
        flags.append("--embed-lora")
    elora = elora and not tied and not grow
    save, excl, incl = [], [], []
    keys = [k for k in ("q_proj", "o_proj", "down_proj", "fc1", "dense") if any(n.endswith("." + k) for n, _ in ft.named_modules())]
    if keys and rng.random() < 0.25:
        k = rng.choice(keys)
        if rng.random() < 0.4:
            k = next(n for n, _ in ft.named_modules() if n.endswith("." + k))
        save.append(k)
    if rng.random() < 0.25:
        excl.append(rng.choice(["norm", "input_layernorm", "layernorm", r"\.0\.", "self_attn", "mlp", "q_proj", r"k_proj|v_proj"]))
    if not tied and not grow and rng.random() < 0.15:
        excl.append(rng.choice(["lm_head", "embed", "embed_out"]))
    if rng.random() < 0.2:
        incl.append(rng.choice([r"\.0\.", "mlp", "attn", "proj|fc|dense", r"(0|1)\.mlp"]))
    eps = 0.0
    if rng.random() < 0.3:
        eps = rng.choice([1e-5, 1e-2, 0.3, 3.0])
        flags += ["--sv-epsilon", str(eps)]
    skip = rng.random() < 0.2
    if skip:
        flags.append("--skip-undecomposable")
    for k in save:
        flags += ["--save-module", k]
    for k in excl:
        flags += ["-e", k]
    for k in incl:
        flags += ["-i", k]
    dev = 0
    if rng.random() < 0.15:
        flags.append("--lazy-unpickle")
    if rng.random() < 0.15:
        flags.append("--no-safe-serialization")
    if rng.random() < 0.15:
        flags.append("--async-write")
    if rng.random() < 0.15:
        flags.append("--multi-gpu")
        dev = rng.choice([1, 2, 3])
    if rng.random() < 0.1:
        flags.append("--low-cpu-memory")
    ctx.describe(dict(family=fam, layers=layers, dtype=dts, flags=flags, grow=grow, changes={k: v for k, v in list(kinds.items())[:40]}))

    # what each module should become
    ein, eout = ft.get_input_embeddings(), ft.get_output_embeddings()
    role = {}
    for nm, m in ft.named_modules():
        if not isinstance(getattr(m, "weight", None), torch.Tensor):
            continue
        ex = any(re.search(r, nm) for r in excl)
        if nm in save or nm.split(".")[-1] in save:
            role[nm] = "saved"
        elif (m is ein or m is eout or isinstance(m, torch.nn.Embedding)) and not elora and not ex:
            role[nm] = "saved"
        elif ex or (incl and not any(re.search(r, nm) for r in incl)):
            role[nm] = "untouched"
        elif isinstance(m, (torch.nn.Linear, torch.nn.Embedding)):
            role[nm] = "lora"
        else:
            role[nm] = "untouched" if skip else "saved"
    old, new = base.state_dict(), ft.state_dict()
    sv = {}
    for nm in [n for n, r in role.items() if r == "lora"]:
        d = (new[nm + ".weight"] - old[nm + ".weight"]).double()
        s = torch.linalg.svdvals(d)
        if eps and bool(((s - eps).abs() < 1e-3 * eps + 1e-5 * s.max()).any()):
            return  # too close to the threshold to say
        sv[nm] = (s, min(maxr, int((s > eps).sum())) if eps else min(maxr, len(s)))
    if tied and any(role.get(n) == "saved" for n in ("model.embed_tokens",)) and role.get("lm_head") == "untouched":
        return
    args = ["--model", fp, "--base-model", bp, "--out-path", out, *flags]
    if not any(r > 0 for _, r in sv.values()):
        # nothing to adapt: PEFT cannot express that, so there is no answer to compare
        return
    if dev:
        with simulated_accelerators(dev):
            extract_main.main(args, standalone_mode=False)
    else:
        extract_main.main(args, standalone_mode=False)
    ctx.event("extracted")
    f = os.path.join(out, "adapter_model.safetensors")
    ad = load_file(f) if os.path.exists(f) else torch.load(os.path.join(out, "adapter_model.bin"), weights_only=True)
    cj = json.load(open(os.path.join(out, "adapter_config.json")))
    # ranks in the file
    for nm, (s, r) in sv.items():
        if "lm_head" == nm and tied:
            continue
        ra = [v.shape[0] for k, v in ad.items() if k in (f"base_model.model.{nm}.lora_A.weight", f"base_model.model.{nm}.lora_embedding_A")]
        ctx.event("rank-judged")
        ctx.ok(ra == ([r] if r else []), "rank", lambda: f"{fam} {nm}: rank {ra} stored, expected {r}")
        if not r:
            ctx.event("rank-zero")
    ctx.ok(cj["r"] == max(r for _, r in sv.values()), "rank", lambda: f"r {cj['r']}")
    m = T.AutoModelForCausalLM.from_pretrained(bp, dtype=DT[dts])
    if grow:
        m.resize_token_embeddings(ft.get_input_embeddings().weight.shape[0], mean_resizing=False)
        old = {k: v.clone() for k, v in m.state_dict().items()}
    pm = peft.PeftModel.from_pretrained(m, out, autocast_adapter_dtype=False).eval()
    full = dts == "float32" and not eps and not excl and not incl and not skip and maxr >= 16
    if full:
        ids = torch.randint(3, 30, (2, 5), generator=g)
        try:
            with torch.no_grad():
                b = ft(ids).logits.double()
        except Exception:
            b = None  # this tiny configuration cannot be run
        if b is not None:
            with torch.no_grad():
                a = pm(ids).logits.double()
            ctx.event("unmerged-judged")
            ok = torch.isfinite(b) & torch.isfinite(a)
            ctx.ok(bool(((a - b).abs()[ok] <= 2e-2 * (1 + b.abs().max())).all()), "unmerged-function", lambda: f"{fam}: logits differ by {float((a - b).abs().max())}")
    got = pm.merge_and_unload().state_dict()
    judge(ctx, fam, dts, role, sv, old, new, got, tied, "peft")
    if not grow and rng.random() < 0.5:
        # the same through mergekit's own model references
        res = ModelReference.model_validate(f"{bp}+{out}").merged(cache_dir=ctx.path("cache"))
        got2 = T.AutoModelForCausalLM.from_pretrained(res.model.path, dtype=DT[dts]).state_dict()
        ctx.event("reference-judged")
        judge(ctx, fam, dts, role, sv, old, new, got2, tied, "reference")
    ctx.nontrivial(fam, dts, layers, tuple(flags), grow)


def judge(ctx, fam, dts, role, sv, old, new, got, tied, via):
    e = EPS[dts]
    for nm, r in role.items():
        for part in (".weight", ".bias"):
            k = nm + part
            if k not in new:
                continue
            if not ctx.ok(k in got, "missing", lambda: f"{via} {fam} {k}"):
                continue
            o, n, t = old[k].double(), new[k].double(), got[k].double()
            ctx.event(r + part)
            if r == "untouched":
                ctx.ok(o.shape == t.shape and torch.equal(o, t), "untouched", lambda: f"{via} {fam} {k} changed by {float((o - t).abs().max())}")
            elif r == "saved" or part == ".bias" and sv[nm][1]:
                ctx.ok(n.shape == t.shape and torch.equal(n, t), "saved", lambda: f"{via} {fam} {k}: {tuple(t.shape)} not the fine-tuned model's {tuple(n.shape)}")
            elif part == ".weight":
                s, rank = sv[nm]
                best = float((s[rank:] ** 2).sum().sqrt())
                err = float((t - n).norm())
                slack = 4 * e * (float((n - o).norm()) * max(1, rank) ** 0.5 + float(n.norm())) + 1e-5
                ctx.ok(err <= best * (1 + 1e-3) + slack, "approximation",
                       lambda: f"{via} {fam} {k} {tuple(t.shape)}: error {err:.4g}, best of rank {rank} is {best:.4g} (slack {slack:.2g})")


def wl_findings(ctx, rng):
    """Architectures with parameters an adapter of modules cannot hold."""
    fam = FINDINGS[ctx.case % len(FINDINGS)]
    bp, fp, out = ctx.path("base"), ctx.path("ft"), ctx.path("out")
    make(fam, seed=1 + rng.randrange(1 << 20)).save_pretrained(bp)
    make(fam, seed=1 + rng.randrange(1 << 20)).save_pretrained(fp)
    ctx.describe(dict(family=fam))
    ctx.event("special:" + fam)
    try:
        extract_main.main(["--model", fp, "--base-model", bp, "--out-path", out], standalone_mode=False)
    except (SystemExit, Exception):
        return  # refusing is fine
    ft = T.AutoModelForCausalLM.from_pretrained(fp).state_dict()
    try:
        got = peft.PeftModel.from_pretrained(T.AutoModelForCausalLM.from_pretrained(bp), out).merge_and_unload().state_dict()
    except Exception as e:
        ctx.fail("unloadable:" + fam, f"{type(e).__name__}: {e}"[:200])
        return
    bad = [k for k in ft if k not in got or float((got[k] - ft[k]).abs().max()) > 1e-2]
    ctx.ok(not bad, "incomplete:" + fam, lambda: f"not in the adapter: {bad[:4]}")
    ctx.nontrivial(fam, ctx.case)


CHECK = Check(
    prop="P20",
    level="exploration",
    rule="pairs of tiny base and fine-tuned causal models of 30 families (every weight changed fully, at low rank, sparsely, slightly or not at all; larger "
    "vocabularies, three dtypes) run through mergekit-extract-lora with random ranks, thresholds, regexes, saved modules and output options; the adapter is loaded with peft "
    "and through a model reference; distinct by family, dtype, flags",
    assumptions=["peft is trusted to load and apply the adapter", "Conv1D-only models (gpt2) are refused by the tool"],
    workloads=[
        Workload("extract", wl_extract, 500, 8000, require=["extracted", "rank-judged", "rank-zero", "unmerged-judged", "reference-judged", "lora.weight", "lora.bias", "saved.weight",
                                                           "untouched.weight", "larger-vocabulary"]),
        Workload("special", wl_findings, 7, 28, require=["special:" + f for f in FINDINGS]),
    ],
)
