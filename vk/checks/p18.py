"""P18: mergekit-moe builds the mixture its configuration describes."""

import json
import os
import warnings

import torch
import yaml
from mergekit.scripts.moe import main as moe_main

from vk.archs import make
from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.methods import DT, EPS
from vk.toks import CHARS, SPECIAL, load, write_tokenizer

warnings.simplefilter("ignore")
VOCAB = SPECIAL + CHARS + [f"w{i}" for i in range(12)]  # 31 tokens
ARCH = {"mixtral": ("llama", "mistral", "llama-tied"), "deepseek": ("llama", "mistral", "llama-tied"), "qwen": ("llama", "mistral", "qwen2", "qwen2-tied"),
        "qwen3": ("qwen3",)}


def save(m, path, fmt, tok=True):
    m.save_pretrained(path)
    if fmt == "bin":
        import safetensors.torch as st

        f = os.path.join(path, "model.safetensors")
        torch.save(st.load_file(f), os.path.join(path, "pytorch_model.bin"))
        os.remove(f)
    if tok:
        write_tokenizer(path, VOCAB, kind="WordLevel")
    return path


def run_cli(ctx, config, out, *flags):
    p = ctx.path("moe.yml")
    with open(p, "w") as f:
        yaml.safe_dump(config, f)
    moe_main.main([p, out, *flags], standalone_mode=False)


def gates_cheap(embed, prompts, enc):
    s = torch.zeros(embed.shape[1], dtype=torch.float64)
    for p in prompts:
        for t in enc(p):
            s += embed[t].double()
    return s / max(float(s.norm()), 1e-8)


def gates_hidden(model, prompts, enc):
    acc = 0
    for p in prompts:
        ids = torch.tensor([enc(p)])
        with torch.no_grad():
            h = model(input_ids=ids, output_hidden_states=True).hidden_states
        acc = acc + torch.stack([x[0, -1].double() for x in h[:-1]])
    return acc / len(prompts)


def unit(x):
    return x / x.norm(dim=-1, keepdim=True).clamp(min=1e-8)


class Mixture(torch.nn.Module):
    """What the configuration means: the chosen experts' outputs, weighted by their share of the router's softmax."""

    def __init__(self, act, gate, experts, shared, top):
        super().__init__()
        self.act, self.gate, self.experts, self.shared, self.top = act, gate, experts, shared, top
        self.tie = False

    def forward(self, x):
        h = x.reshape(-1, x.shape[-1])
        z = h @ self.gate.T
        order = z.sort(dim=-1, descending=True)
        if self.top < z.shape[-1] and float((order.values[:, self.top - 1] - order.values[:, self.top]).abs().min()) < 1e-4:
            self.tie = True
        m = torch.full_like(z, float("-inf")).scatter(1, order.indices[:, : self.top], 0.0)
        w = (z + m).softmax(-1)
        mlp = lambda ws: (self.act(h @ ws[0].T) * (h @ ws[1].T)) @ ws[2].T
        y = sum(w[:, j : j + 1] * mlp(e) for j, e in enumerate(self.experts))
        if self.shared is not None:
            y = y + torch.sigmoid(h @ self.shared[0].reshape(-1, 1)) * mlp(self.shared[1])
        return y.reshape(x.shape)


def works_as_mixture(ctx, rng, arch, top, n, base_path, loaded, got, lone):
    """The model that was written computes the base model with its feed-forward layers replaced by the mixture."""
    import transformers as T

    dense = T.AutoModelForCausalLM.from_pretrained(base_path, dtype=torch.float32).eval()
    ids = torch.randint(3, 31, (2, 7), generator=torch.Generator().manual_seed(rng.randrange(1 << 20)))
    with torch.no_grad():
        b = loaded.eval()(ids).logits.double()
        a = dense(ids).logits.double() if lone else None
    if lone:
        ctx.event("same-function")
        ctx.ok(bool(((a - b).abs() <= 1e-3 * a.abs().max()).all()), "same-function",
               lambda: f"{arch} of identical experts computes something else than the dense model: {float((a - b).abs().max())}")
    bsd = dense.state_dict()
    dense.load_state_dict({nm: got[nm].float() if nm in got and got[nm].shape == t.shape else t for nm, t in bsd.items()})
    mixes = []
    for L, layer in enumerate(dense.model.layers):
        p = f"model.layers.{L}.mlp."
        experts = []
        for j in range(n):
            if p + "experts.gate_up_proj" in got:
                gu = got[p + "experts.gate_up_proj"][j].float()
                h = gu.shape[0] // 2
                experts.append((gu[:h], gu[h:], got[p + "experts.down_proj"][j].float()))
            else:
                experts.append(tuple(got[f"{p}experts.{j}.{w}.weight"].float() for w in ("gate_proj", "up_proj", "down_proj")))
        shared = None
        if p + "shared_expert.gate_proj.weight" in got:
            shared = (got[p + "shared_expert_gate.weight"].float(), tuple(got[f"{p}shared_expert.{w}.weight"].float() for w in ("gate_proj", "up_proj", "down_proj")))
        mixes.append(Mixture(layer.mlp.act_fn, got[p + "gate.weight"].float(), experts, shared, min(top, n)))
        layer.mlp = mixes[-1]
    with torch.no_grad():
        a = dense(ids).logits.double()
    if any(m.tie for m in mixes) or not bool(torch.isfinite(a).all()):
        ctx.event("mixture-not-clear-cut")
        return
    ctx.event("mixture-judged:" + arch)
    ctx.ok(bool(((a - b).abs() <= 2e-3 * a.abs().max() + 1e-6).all()), "mixture",
           lambda: f"{arch} top {top} of {n}: the model computes something else than the mixture: {float((a - b).abs().max())} of {float(a.abs().max())}")


def wl_moe(ctx, rng):
    import transformers as T

    arch = rng.choice(["mixtral", "mixtral", "deepseek", "qwen", "qwen3"])
    fam = rng.choice(ARCH[arch])
    layers = rng.choice([1, 2, 3])
    npool = rng.choice([2, 3, 4])
    sdt = rng.choice(["float32", "float32", "bfloat16"])
    pool, models = [], []
    lone = rng.random() < 0.15
    over = {}
    if rng.random() < 0.5:
        over = {k: v for k, v in dict(rms_norm_eps=rng.choice([1e-3, 0.1]), rope_parameters=dict(rope_type="default", rope_theta=rng.choice([50.0, 1e6])),
                                      hidden_act=rng.choice(["gelu", "relu"]), num_key_value_heads=rng.choice([1, 2]), max_position_embeddings=rng.choice([64, 300])).items()
                if rng.random() < 0.5}
    for i in range(npool):
        m = make(fam, seed=rng.randrange(1 << 20), dtype=DT[sdt], layers=layers, **over)
        m.config.bos_token_id, m.config.eos_token_id = 1, 2
        models.append(m)
        pool.append(save(m, ctx.path(f"m{i}"), rng.choice(["st", "st", "bin"])))
    base = rng.randrange(npool)
    n = rng.choice([2, 2, 3, 4, 5])
    mode = rng.choice(["hidden", "cheap_embed", "cheap_embed", "random"])
    ex = [base] * n if lone else [rng.randrange(npool) for _ in range(n)]
    if not lone and len(set(ex)) == 1:
        ex[0] = (ex[0] + 1) % npool
    words = VOCAB[3:]
    prompts = lambda: [" ".join(rng.choices(words, k=rng.randint(1, 6))) for _ in range(rng.choice([1, 1, 2, 3]))]

    def expert(i, shared=False):
        e = dict(source_model=pool[i])
        if (mode != "random" and not (shared and arch == "deepseek")):
            e["positive_prompts"] = prompts()
            if rng.random() < 0.4:
                e["negative_prompts"] = prompts()
        if rng.random() < 0.25:
            e["residual_scale"] = rng.choice([0.1, 0.5, 2.0])
        if rng.random() < 0.15 and not lone:
            e["noise_scale"] = rng.choice([0.05, 0.5])
        return e

    c = dict(base_model=pool[base], gate_mode=mode, experts=[expert(i) for i in ex])
    if lone:
        for e in c["experts"]:
            e.pop("residual_scale", None)
    if rng.random() < 0.7:
        c["dtype"] = rng.choice(["float32", "float32", "bfloat16", "float16"])
    if rng.random() < 0.5:
        c["experts_per_token"] = rng.randint(1, n)
    sh = None
    if arch == "qwen" or (arch == "deepseek" and rng.random() < 0.6):
        sh = rng.randrange(npool)
        c["shared_experts"] = [expert(sh, True)]
        if sh not in ex + [base]:
            ctx.event("separate-shared-expert")
    if arch == "deepseek" or (arch == "qwen" and mode == "random") or rng.random() < 0.4:
        c["architecture"] = arch
    flags = ["--i-understand-this-is-not-useful-without-training"]
    if rng.random() < 0.3:
        flags.append("--clone-tensors")
    if rng.random() < 0.3:
        flags += ["--async-write", "--write-threads", rng.choice(["1", "3"])]
    if rng.random() < 0.3:
        flags += ["--out-shard-size", rng.choice(["50", "1000"])]
    if rng.random() < 0.3:
        flags.append("--lazy-unpickle")
    if rng.random() < 0.3:
        flags += ["--random-seed", "7"]
    out = ctx.path("out")
    ctx.describe(dict(arch=arch, family=fam, over=over, base=base, experts=ex, shared=sh, config=c, flags=flags))
    run_cli(ctx, c, out, *flags)
    ctx.event("arch:" + arch)
    ctx.event("gate:" + mode)
    dts = c.get("dtype", sdt)
    dt = DT[dts]
    raw = read_checkpoint(out)[0]
    ctx.ok(all(v.dtype == dt for v in raw.values()), "dtype", lambda: f"{ {k: str(v.dtype) for k, v in raw.items() if v.dtype != dt} } expected {dt}")
    cj = json.load(open(os.path.join(out, "config.json")))
    k = c.get("experts_per_token", 2)
    ctx.ok(cj["num_experts_per_tok"] == k, "experts-per-token", lambda: f"{cj['num_experts_per_tok']} instead of {k}")
    tie = bool(getattr(models[base].config, "tie_word_embeddings", False))
    sd = [{a: b for a, b in m.state_dict().items()} for m in models]
    want = {}
    for nm, t in sd[base].items():
        if ".mlp." not in nm and not (tie and nm == "lm_head.weight"):
            want[nm] = (t.to(dt), None)

    def exp(i, e, nm):
        t = sd[i][nm]
        s = e.get("residual_scale") if "down_proj" in nm else None
        return t, e.get("noise_scale"), s

    btok = load(pool[base])
    enc = lambda p: btok("<s>" + p, add_special_tokens=False)["input_ids"]
    loaded = None
    if arch != "deepseek":
        loaded, info = T.AutoModelForCausalLM.from_pretrained(out, output_loading_info=True, dtype=torch.float32)
        ctx.ok(not info["missing_keys"] and not info["unexpected_keys"] and not info["mismatched_keys"], "loads",
               lambda: f"missing {sorted(info['missing_keys'])[:4]} unexpected {sorted(info['unexpected_keys'])[:4]} mismatched {sorted(info['mismatched_keys'])[:4]}")
        got = loaded.state_dict()
        ctx.ok(type(loaded).__name__ == {"mixtral": "MixtralForCausalLM", "qwen": "Qwen2MoeForCausalLM", "qwen3": "Qwen3MoeForCausalLM"}[arch], "architecture",
               lambda: type(loaded).__name__)
    else:
        got = raw
        ctx.ok(cj["architectures"] == ["DeepseekForCausalLM"] and cj["n_routed_experts"] == n and (cj["n_shared_experts"] or 0) == (sh is not None),
               "config", lambda: f"{cj}"[:200])
    if arch == "qwen" and "qwen2" not in fam:
        # the Qwen MoE architecture wants attention biases; a source without any contributes zeros
        for nm in list(got):
            if nm.endswith("_proj.bias"):
                ctx.ok(not bool(got[nm].any()), "zero-bias", lambda: nm)
                ctx.event("zero-bias")
    for nm, (t, _) in want.items():
        g = got.get(nm)
        ctx.event("base-weight")
        ctx.ok(g is not None and g.shape == t.shape and torch.equal(g.to(dt), t), "base-weight", lambda: f"{arch} {nm} is not the base model's")

    def judge(key, nm, got_t, i, e, src):
        t, noise, scale = exp(i, e, src)
        t, g = t.double(), got_t.double()
        scale = 1.0 if scale is None else scale
        if g.shape != t.shape:
            ctx.ok(False, key, lambda: f"{nm}: {tuple(g.shape)} from {tuple(t.shape)}")
        elif noise is None:
            ctx.event(key)
            ctx.ok(bool(((g - t * scale).abs() <= 4 * max(EPS[dts], EPS[sdt]) * (t * scale).abs() + 1e-7).all()), key,
                   lambda: f"{arch} {nm}: not expert {i}'s {src} (scale {scale}); max diff {float((g - t * scale).abs().max())}")
        else:
            ctx.event("noise")
            z = (g / scale - t) / noise
            nn = z.numel()
            # rounding in half precision adds a little
            slack = 4 * max(EPS[dts], EPS[sdt]) * float(t.abs().max()) / noise
            ctx.ok(abs(float(z.mean())) < 6.5 / nn**0.5 + slack and 0.5 - slack < float(z.std()) < 1.6 + slack, "noise",
                   lambda: f"{nm}: mean {float(z.mean()):.3f} std {float(z.std()):.3f} of {nn} noise values")

    for L in range(layers):
        p = f"model.layers.{L}.mlp."
        for j, i in enumerate(ex):
            e = c["experts"][j]
            for w in ("gate_proj", "up_proj", "down_proj"):
                src = p + w + ".weight"
                if arch == "deepseek":
                    g = got.get(f"{p}experts.{j}.{w}.weight")
                else:
                    down = got.get(p + "experts.down_proj")
                    gu = got.get(p + "experts.gate_up_proj")
                    if gu is None or down is None:
                        g = got.get(f"{p}experts.{j}.{w}.weight")
                    elif w == "down_proj":
                        g = down[j]
                    else:
                        h = gu[j].shape[0] // 2
                        g = gu[j][:h] if w == "gate_proj" else gu[j][h:]
                if ctx.ok(g is not None, "expert-missing", lambda: f"{arch} layer {L} expert {j} {w}"):
                    judge("expert-weight", f"layer {L} expert {j} {w}", g, i, e, src)
        if sh is not None:
            for w in ("gate_proj", "up_proj", "down_proj"):
                g = got.get(p + ("shared_experts." if arch == "deepseek" else "shared_expert.") + w + ".weight")
                if ctx.ok(g is not None, "shared-missing", lambda: f"{arch} layer {L} {w}"):
                    judge("shared-weight", f"layer {L} shared {w}", g, sh, c["shared_experts"][0], p + w + ".weight")
        gate = got[p + "gate.weight"].double()
        allg = [(j, c["experts"][j], gate[j]) for j in range(n)]
        ctx.ok(gate.shape[0] == n, "gate-rows", lambda: f"{tuple(gate.shape)} for {n} experts", stop=True)
        if arch == "qwen":
            allg.append(("shared", c["shared_experts"][0], got[p + "shared_expert_gate.weight"].double().reshape(-1)))
        if mode == "cheap_embed":
            emb = sd[base]["model.embed_tokens.weight"]
            for j, e, g in allg:
                w = gates_cheap(emb, e["positive_prompts"], enc)
                if e.get("negative_prompts"):
                    w = w - gates_cheap(emb, e["negative_prompts"], enc)
                w = unit(w)
                ctx.event("gate-judged")
                ctx.ok(bool(((g - w).abs() <= 0.01).all()), "gate", lambda: f"{arch} cheap_embed layer {L} expert {j}: {g.tolist()[:3]} expected {w.tolist()[:3]}")
        elif mode == "hidden":
            if L == 0:
                bm = T.AutoModelForCausalLM.from_pretrained(pool[base], dtype=torch.bfloat16)
                ref = {}
            for j, e, g in allg:
                if j not in ref:
                    w = gates_hidden(bm, e["positive_prompts"], enc)
                    neg = gates_hidden(bm, e["negative_prompts"], enc) if e.get("negative_prompts") else 0
                    ref[j] = (w - neg, w.norm(dim=-1))
                w, size = ref[j][0][L], float(ref[j][1][L])
                if float(w.norm()) < 0.2 * size:
                    continue  # the difference is mostly rounding
                ctx.event("gate-judged")
                cos = float((unit(w) * g).sum() / g.norm())
                ctx.ok(cos > 0.95 and abs(float(g.norm()) - 1) < 0.03, "gate", lambda: f"{arch} hidden layer {L} expert {j}: cosine {cos:.3f} norm {float(g.norm()):.3f}")
        else:
            z = torch.stack([g for _, _, g in allg])
            ctx.event("gate-judged")
            ctx.ok(0.3 < float(z.std()) < 2.5 and len({tuple(r.tolist()) for r in z}) == len(z), "gate-random", lambda: f"{z.std()}")
            if L:
                ctx.ok(not torch.equal(z, prevz), "gate-random", lambda: "same router in every layer")
            prevz = z
    if loaded is not None:
        works_as_mixture(ctx, rng, arch, k, n, pool[base], loaded, got, lone and dts == sdt == "float32" and sh is None)
    if arch == "deepseek":
        # nothing here can run it, so that the base model's settings are compared as such
        bc = json.load(open(os.path.join(pool[base], "config.json")))
        keys = [x for x in ("hidden_size", "intermediate_size", "num_attention_heads", "num_key_value_heads", "num_hidden_layers", "rms_norm_eps", "rope_theta", "rope_parameters",
                            "vocab_size", "hidden_act", "tie_word_embeddings", "max_position_embeddings", "bos_token_id", "eos_token_id", "head_dim") if x in bc]
        off = [x for x in keys if cj.get(x) != bc[x]]
        ctx.ok(not off, "settings", lambda: f"{[(x, cj.get(x), bc[x]) for x in off]}")
        ctx.ok(cj["norm_topk_prob"] is True and cj["moe_intermediate_size"] == bc["intermediate_size"] and cj["first_k_dense_replace"] == 0 and cj["moe_layer_freq"] == 1, "config",
               lambda: str(cj)[:400])
    otok = load(out) if arch != "deepseek" else T.PreTrainedTokenizerFast.from_pretrained(out)
    for t in [" ".join(rng.choices(words, k=5)) for _ in range(3)]:
        ctx.ok(otok(t)["input_ids"] == btok(t)["input_ids"], "tokenizer", lambda: t)
    ctx.ok(open(os.path.join(out, "mergekit_moe_config.yml")).read() == open(ctx.path("moe.yml")).read(), "recipe", lambda: "recipe differs")
    ctx.nontrivial(arch, fam, mode, tuple(ex), base, sh, dts, sdt)


def wl_refused(ctx, rng):
    """Configurations that cannot work are refused, leaving no model behind."""
    m = [save(make("llama", seed=i, layers=1), ctx.path(f"m{i}"), "st") for i in range(2)]
    q = save(make("qwen3", seed=3, layers=1), ctx.path("q"), "st")
    E = lambda i, p="a b": dict(source_model=m[i], positive_prompts=[p])
    ok = dict(base_model=m[0], gate_mode="cheap_embed", experts=[E(0), E(1, "c")])
    kind = rng.choice(["too-few", "no-prompts", "same-prompts", "same-models", "mixed-arch", "two-shared", "unknown-arch", "zero-per-token", "shared-mixtral"])
    c = json.loads(json.dumps(ok))
    if kind == "too-few":
        c["experts_per_token"] = 3
    elif kind == "no-prompts":
        del c["experts"][1]["positive_prompts"]
    elif kind == "same-prompts":
        c["experts"][1]["positive_prompts"] = ["a b"]
    elif kind == "same-models":
        c["experts"][1]["source_model"] = m[0]
    elif kind == "mixed-arch":
        c["experts"][1]["source_model"] = q
    elif kind == "two-shared":
        c["shared_experts"] = [dict(source_model=m[0]), dict(source_model=m[1])]
    elif kind == "unknown-arch":
        c["architecture"] = "nonesuch"
    elif kind == "zero-per-token":
        c["experts_per_token"] = 0
    elif kind == "shared-mixtral":
        c["architecture"] = "mixtral"
        c["shared_experts"] = [dict(source_model=m[0])]
    out = ctx.path("out")
    try:
        run_cli(ctx, c, out)
        refused = False
    except (SystemExit, Exception):
        refused = True
    ctx.event("refused:" + kind)
    files = os.listdir(out) if os.path.exists(out) else []
    ctx.ok(refused, "accepted", lambda: kind)
    ctx.ok(not any(f.endswith((".safetensors", ".bin", ".index.json")) for f in files), "left-behind", lambda: f"{kind}: {files}")
    run_cli(ctx, ok, ctx.path("fine"))
    ctx.ok(os.path.exists(ctx.path("fine", "config.json")), "valid-refused", lambda: "the corrected configuration")
    ctx.nontrivial(kind, ctx.case)


CHECK = Check(
    prop="P18",
    level="exploration",
    rule="tiny Llama/Mistral/Qwen2/Qwen3 models combined through the mergekit-moe command into Mixtral, DeepSeek, Qwen and Qwen3 mixtures: 2-5 experts (repeated, "
    "equal to or different from the base), shared experts, all gate modes, positive and negative prompts, scales, noise, dtypes, output options; "
    "every weight, router row and config value of the output is compared with the sources; distinct by architecture, family, gate mode and expert assignment",
    assumptions=["DeepSeek outputs need remote modelling code to load; their checkpoint is judged by tensor names and values"],
    workloads=[
        Workload("moe", wl_moe, 260, 4000, require=["arch:" + a for a in ARCH] + ["gate:hidden", "gate:cheap_embed", "gate:random", "gate-judged", "noise", "mixture-judged:mixtral", "mixture-judged:qwen", "mixture-judged:qwen3",
                                                                                 "separate-shared-expert", "same-function", "zero-bias", "shared-weight"]),
        Workload("refused", wl_refused, 30, 300, require=[]),
    ],
)
