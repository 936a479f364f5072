"""P09: output layer i holds exactly the configured source layers, and the config says so."""

import json
import os
import re
import warnings

import torch
import transformers as T
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk.archs import ARCHS, make
from vk.ckpt import read_checkpoint
from vk.coded import Coded
from vk.core import Check, Skip, Workload

T.logging.set_verbosity_error()
warnings.filterwarnings("ignore")

SINGLE = sorted(n for n, s in ARCHS.items() if s["layers_key"])
# the kind of weights a layer has depends on its position: keep layer 0 first and elsewhere layers >= 1
DENSE_FIRST = {"glm4_moe", "afmoe"}
# the kind of weights a layer has depends on the layer type the config lists for it
TYPED = {"lfm2", "granitemoehybrid"}
LAYER = re.compile(r"\.(\d+)\.")
HEADISH = re.compile(r"lm_head|final_layernorm|ln_f|norm_f|^score|classifier|^model\.norm|^norm|embed_out|embedding_norm")
EMBISH = re.compile(r"embed_tokens|wte|wpe|embeddings|embed_in|word_embeddings")


def relayer(name, new):
    return LAYER.sub(f".{new}.", name, count=1)


def layer_of(name):
    m = LAYER.search(name)
    return int(m.group(1)) if m else None


def gen_slices(rng, name, counts, multi):
    """[[(model index, start), ...], length] list"""
    res = []
    total = 0
    for si in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
        k = 1 if not multi else rng.randint(1, len(counts))
        models = rng.sample(range(len(counts)), k)
        n = rng.randint(1, min(counts[m] for m in models))
        starts = [rng.randint(0, counts[m] - n) for m in models]
        if name in TYPED:
            par = starts[0] % 2
            starts = [st if st % 2 == par else max(0, st - 1) for st in starts]
            if any(st % 2 != par for st in starts):
                starts = [0] * k
        if name in DENSE_FIRST:
            if total == 0:
                starts = [0] * k
            else:
                n = min(n, min(counts[m] for m in models) - 1)
                if n < 1:
                    continue
                starts = [rng.randint(1, counts[m] - n) for m in models]
        res.append((list(zip(models, starts)), n))
        total += n
    return res, total


def config_value(out, key):
    with open(os.path.join(out, "config.json")) as f:
        d = json.load(f)
    for p in key.split("."):
        d = d[p]
    return d


def wl_slices(ctx, rng):
    name = SINGLE[ctx.case % len(SINGLE)]
    k = rng.choice([1, 2, 2, 3])
    counts = [rng.randint(1, 5) for _ in range(k)]
    if name in DENSE_FIRST:
        counts = [max(2, c) for c in counts]
    models = [make(name, seed=rng.randrange(10**6), layers=c) for c in counts]
    for i, m in enumerate(models):
        m.save_pretrained(ctx.path(f"m{i}"))
    multi = rng.random() < 0.5
    slices, total = gen_slices(rng, name, counts, multi)
    base = rng.randrange(k) if rng.random() < 0.3 else None
    wts = {}
    cfg_slices = []
    for si, (srcs, n) in enumerate(slices):
        sl = []
        for m, st in srcs:
            d = dict(model=ctx.path(f"m{m}"), layer_range=[st, st + n])
            if multi:
                wts[si, m] = rng.choice([1.0, 0.5, 2.0, 0.25, -0.5])
                d["parameters"] = dict(weight=wts[si, m])
            sl.append(d)
        cfg_slices.append(dict(sources=sl))
    cfg = dict(merge_method="linear" if multi else "passthrough", dtype="float32")
    if multi:
        cfg["parameters"] = dict(normalize=False)
    if rng.random() < 0.25:
        cfg["modules"] = {"default": dict(slices=cfg_slices)}
    else:
        cfg["slices"] = cfg_slices
    if base is not None:
        cfg["base_model"] = ctx.path(f"m{base}")
    ctx.describe(dict(arch=name, counts=counts, slices=slices, base=base))
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False))

    lk = ARCHS[name]["layers_key"]
    with open(os.path.join(out, "config.json")) as f:
        cj = json.load(f)
    said = cj.get(lk, cj.get("num_hidden_layers"))
    known = ":" + name if name == "auto-smollm3" else ""
    if name == "auto-qwen2moe" and len(set(counts)) > 1:
        known = ":auto-qwen2moe-different-depths"
    ctx.ok(said == total, "config-layer-count", lambda: f"{name}: {total} layers requested, config says {said}")
    if name in TYPED:
        lt = ARCHS[name]["kw"]["layer_types"]
        want = [lt[(srcs[0][1] + i) % len(lt)] for srcs, n in slices for i in range(n)]
        got = cj.get("layer_types")
        ctx.ok(got is None or [x for x in got] == want, "config-layer-types", lambda: f"{name}: {got}, sources have {want}")
    try:
        r, info = type(models[0]).from_pretrained(out, output_loading_info=True)
    except Exception as e:
        ctx.fail("output-loads" + known, f"{name} counts={counts} slices={slices}: {type(e).__name__}: {str(e)[:300]}", stop=True)
    bad = {k2: sorted(map(str, v))[:6] for k2, v in info.items() if v}
    ctx.ok(not bad, "output-complete" + known, lambda: f"{name} counts={counts} slices={slices}: {bad}", stop=True)
    sds = [m.state_dict() for m in models]
    got = r.state_dict()
    tied = bool(getattr(models[0].config, "tie_word_embeddings", False))

    def combine(si, mk):
        srcs, _ = slices[si]
        if not multi:
            return mk(*srcs[0])
        acc = None
        for m, st in srcs:
            x = wts[si, m] * mk(m, st).float()
            acc = x if acc is None else acc + x
        return acc

    L = 0
    for si, (srcs, n) in enumerate(slices):
        for i in range(n):
            m0, st0 = srcs[0]
            names = [x for x in sds[m0] if layer_of(x) == st0 + i]
            for x in names:
                if not sds[m0][x].is_floating_point():
                    continue
                o = relayer(x, L)
                want = combine(si, lambda m, st: sds[m][relayer(x, st + i)])
                ctx.event("layer-weight-judged")
                ctx.ok(o in got and got[o].shape == want.shape and torch.allclose(got[o].float(), want.float(), rtol=1e-5, atol=1e-5),
                       "layer-weight", lambda: f"{name}: output {o} is not {[(m, st + i) for m, st in srcs]}")
            L += 1
    extra = {layer_of(x) for x in got if layer_of(x) is not None} - set(range(total))
    ctx.ok(not extra, "extra-layers", lambda: f"{name}: layers {extra}")
    for x in sds[0]:
        if layer_of(x) is not None or not sds[0][x].is_floating_point() or x not in got:
            continue
        if any(sds[m].get(x) is None for m in range(k)):
            continue
        first = combine(0, lambda m, st: sds[m][x])
        last = combine(len(slices) - 1, lambda m, st: sds[m][x])
        cands = [first, last]
        if not name.startswith("auto-") and not tied:
            if EMBISH.search(x):
                cands = [first]
            elif HEADISH.search(x):
                cands = [last]
        ctx.event("outer-weight-judged")
        ctx.ok(any(torch.allclose(got[x].float(), c.float(), rtol=1e-5, atol=1e-5) for c in cands), "outer-weight",
               lambda: f"{name}: {x} is not taken from the {'first' if EMBISH.search(x) else 'last'} slice")
    if multi:
        ctx.event("multi-source")
    if len({tuple(s[0]) for s in map(lambda q: q[0], slices)}) < len(slices):
        ctx.event("repeated-start")
    ctx.event("arch:" + name)
    ctx.state(name, total, len(slices), multi)
    ctx.nontrivial(name, counts, slices, base, multi)


# ---- many slices on coded llama checkpoints: cheap, exact, deep ------------------


def wl_coded(ctx, rng):
    coded = Coded()
    k = rng.choice([1, 2, 3, 4])
    counts = [rng.choice([1, 2, 3, 6, 12]) for _ in range(k)]
    for i, c in enumerate(counts):
        coded.add(ctx.path(f"m{i}"), c, vocab=6, hidden=4, inter=4, fmt=rng.choice(["st", "bin"]))
    sl, exp = [], []
    for _ in range(rng.randint(1, 14)):
        m = rng.randrange(k)
        a = rng.randrange(counts[m])
        b = rng.randint(a + 1, counts[m])
        sl.append(dict(sources=[dict(model=ctx.path(f"m{m}"), layer_range=[a, b])]))
        exp += [(m, x) for x in range(a, b)]
    cfg = dict(merge_method="passthrough", slices=sl, dtype="float32")
    ctx.describe(dict(counts=counts, layers=exp))
    out = ctx.path("out")
    opts = dict(quiet=True, copy_tokenizer=False, lazy_unpickle=rng.random() < 0.5, out_shard_size=rng.choice([10**9, 900]))
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(**opts))
    got, _, _ = read_checkpoint(out)
    want = {}
    for L, (m, x) in enumerate(exp):
        for n in coded.names[m]:
            if layer_of(n) == x:
                want[relayer(n, L)] = (m, n)
    want["model.embed_tokens.weight"] = (exp[0][0], "model.embed_tokens.weight")
    for n in ("model.norm.weight", "lm_head.weight"):
        want[n] = (exp[-1][0], n)
    ctx.ok(set(got) == set(want), "output-names", lambda: f"{sorted(set(got) ^ set(want))[:5]}", stop=True)
    for n, w in want.items():
        v = got[n].reshape(-1)
        ctx.event("coded-weight-judged")
        ctx.ok(bool((v == v[0]).all()) and coded.decode(float(v[0])) == w, "layer-weight",
               lambda: f"{n} holds {coded.decode(float(v[0]))}, configured {w}")
    ctx.ok(config_value(out, "num_hidden_layers") == len(exp), "config-layer-count", lambda: f"{config_value(out, 'num_hidden_layers')} != {len(exp)}")
    ctx.nontrivial("coded", tuple(exp))


# ---- architectures with several modules -----------------------------------------

MODULES = {
    "t5": dict(encoder=("encoder.block.", "num_layers"), decoder=("decoder.block.", "num_decoder_layers")),
    "t5-gated": dict(encoder=("encoder.block.", "num_layers"), decoder=("decoder.block.", "num_decoder_layers")),
    "whisper": dict(encoder=("model.encoder.layers.", "encoder_layers"), decoder=("model.decoder.layers.", "decoder_layers")),
}


def wl_modules(ctx, rng):
    name = rng.choice(sorted(MODULES))
    mods = MODULES[name]
    k = rng.choice([1, 2, 2])
    models, counts = [], []
    for i in range(k):
        c = {mk: rng.randint(1, 4) for mk in mods}
        m = make(name, seed=rng.randrange(10**6), **{mods[mk][1]: c[mk] for mk in mods})
        m.save_pretrained(ctx.path(f"m{i}"))
        models.append(m)
        counts.append(c)
    cfg = dict(merge_method="passthrough", dtype="float32", modules={})
    exp = {}
    order = sorted(mods)
    rng.shuffle(order)
    for mk in order:
        if rng.random() < 0.3:
            m = rng.randrange(k)
            cfg["modules"][mk] = dict(models=[dict(model=ctx.path(f"m{m}"))])
            exp[mk] = [(m, x) for x in range(counts[m][mk])]
            ctx.event("module-models-form")
            continue
        sl, ex = [], []
        for j in range(rng.randint(1, 3)):
            m = rng.randrange(k)
            a = rng.randrange(counts[m][mk])
            if name.startswith("t5"):
                # only the first block has a relative attention bias
                if j and counts[m][mk] == 1:
                    continue
                a = 0 if j == 0 else rng.randint(1, counts[m][mk] - 1)
            b = rng.randint(a + 1, counts[m][mk])
            sl.append(dict(sources=[dict(model=ctx.path(f"m{m}"), layer_range=[a, b])]))
            ex += [(m, x) for x in range(a, b)]
        cfg["modules"][mk] = dict(slices=sl)
        exp[mk] = ex
    if name.startswith("t5"):
        cfg["modules"]["shared"] = dict(models=[dict(model=ctx.path("m0"))])
    ctx.describe(dict(arch=name, counts=counts, layers=exp))
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False))
    for mk in mods:
        v = config_value(out, mods[mk][1])
        ctx.ok(v == len(exp[mk]), "config-layer-count", lambda: f"{name}.{mk}: config {v}, layers {len(exp[mk])}")
    got, _, _ = read_checkpoint(out)
    sds = [m.state_dict() for m in models]
    for mk in mods:
        pre = mods[mk][0]
        for L, (m, x) in enumerate(exp[mk]):
            for n in sds[m]:
                if n.startswith(f"{pre}{x}."):
                    o = f"{pre}{L}." + n[len(f"{pre}{x}."):]
                    ctx.event("module-weight-judged")
                    ctx.ok(o in got and torch.equal(got[o], sds[m][n]), "module-layer-weight", lambda: f"{name}: {o} is not {n} of model {m}")
        bad = [n for n in got if n.startswith(pre) and int(n[len(pre):].split(".")[0]) >= len(exp[mk])]
        ctx.ok(not bad, "extra-layers", lambda: f"{name}: {bad[:4]}")
    try:
        r, info = type(models[0]).from_pretrained(out, output_loading_info=True)
        bad = {k2: sorted(map(str, v))[:6] for k2, v in info.items() if v}
    except Exception as e:
        bad = f"{type(e).__name__}: {str(e)[:200]}"
    ctx.ok(not bad, "output-complete", lambda: f"{name}: {bad}")
    ctx.nontrivial(name, str(exp))


# ---- configurations that ask for layers that do not exist or do not line up ----------


def wl_refuse(ctx, rng):
    coded = Coded()
    counts = [rng.randint(1, 5) for _ in range(2)]
    for i, c in enumerate(counts):
        coded.add(ctx.path(f"m{i}"), c, vocab=6, hidden=4, inter=4)
    kind = rng.choice(["uneven", "beyond", "negative", "uneven-models", "beyond-multi"])
    A, B = ctx.path("m0"), ctx.path("m1")
    good = dict(sources=[dict(model=A, layer_range=[0, 1])])
    lin = dict(weight=0.5)
    method = "passthrough"
    if kind == "uneven":
        if max(counts) < 2:
            raise Skip()
        i = counts.index(max(counts))
        bad = dict(sources=[dict(model=[A, B][i], layer_range=[0, 2], parameters=lin), dict(model=[B, A][i], layer_range=[0, 1], parameters=lin)])
        if rng.random() < 0.5:
            bad["sources"].reverse()
        method = "linear"
    elif kind == "beyond":
        a = rng.randint(0, counts[0])
        bad = dict(sources=[dict(model=A, layer_range=[a, counts[0] + rng.randint(1, 3)])])
    elif kind == "beyond-multi":
        n = counts[0] + rng.randint(1, 2)
        bad = dict(sources=[dict(model=A, layer_range=[0, n], parameters=lin), dict(model=B, layer_range=[0, n], parameters=lin)])
        method = "linear"
    elif kind == "negative":
        bad = dict(sources=[dict(model=A, layer_range=[-rng.randint(1, 2), 1])])
    else:
        if counts[0] == counts[1]:
            raise Skip()
        method = "linear"
        bad = None
    if bad is None:
        ms = [dict(model=A, parameters=lin), dict(model=B, parameters=lin)]
        if rng.random() < 0.5:
            ms.reverse()
        cfg = dict(merge_method=method, models=ms)
    else:
        sl = [good] * rng.randint(0, 2) + [bad] + [good] * rng.randint(0, 2)
        if method == "linear":
            good["sources"][0]["parameters"] = lin
        cfg = dict(merge_method=method, slices=sl)
    ctx.describe(dict(kind=kind, counts=counts, cfg=cfg))
    try:
        run_merge(MergeConfiguration.model_validate(cfg), ctx.path("out"), MergeOptions(quiet=True, copy_tokenizer=False))
    except Exception:
        ctx.event("refused:" + kind)
        ctx.ok(not os.path.exists(ctx.path("out", "config.json")), "refused-looks-finished", lambda: kind)
        ctx.nontrivial(kind, tuple(counts), rng.random())
        return
    ctx.fail("accepted:" + kind, f"{kind} accepted: {cfg} with layer counts {counts}")


def wl_duplicate(ctx, rng):
    """The same model twice among the sources of one slice (different layers)."""
    coded = Coded()
    coded.add(ctx.path("m0"), 4, vocab=6, hidden=4, inter=4)
    A = ctx.path("m0")
    cfg = dict(merge_method="linear", dtype="float32", slices=[dict(sources=[
        dict(model=A, layer_range=[0, 2], parameters=dict(weight=0.5)), dict(model=A, layer_range=[2, 4], parameters=dict(weight=0.5))])])
    out = ctx.path("out")
    try:
        run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False))
    except Exception:
        ctx.event("duplicate-refused")
        ctx.nontrivial("dup-refused")
        return
    got, _, _ = read_checkpoint(out)
    codes = {v: c for c, v in coded.by_code.items()}
    n = "model.layers.0.mlp.up_proj.weight"
    want = 0.5 * codes[0, n] + 0.5 * codes[0, relayer(n, 2)]
    ctx.event("duplicate-judged")
    ctx.nontrivial("dup")
    ctx.ok(abs(float(got[n].reshape(-1)[0]) - want) < 1e-3, "duplicate-model-in-slice",
           lambda: f"averaging layers 0 and 2 of one model gave {float(got[n].reshape(-1)[0])}, expected {want}")


CHECK = Check(
    prop="P09",
    level="exploration",
    rule=f"random slice lists (1-14 slices, 1-4 models, repeated, overlapping, single-layer, several sources per slice) for "
    f"{len(SINGLE)} single-module architectures and 3 encoder-decoder configurations, merged end to end; every output weight is "
    "matched with the source layer it must come from, and the written config with the layers; plus slices that do not line up "
    "or exceed the source; distinct by architecture and slice list",
    assumptions=["weights outside the layers come from the first slice (embeddings) or the last slice (norm, head)",
                 "for architectures inferred without a definition, outer weights may come from the first or last slice"],
    workloads=[
        Workload("slices", wl_slices, 6 * len(SINGLE), 40 * len(SINGLE),
                 require=["layer-weight-judged", "outer-weight-judged", "multi-source"] + ["arch:" + n for n in SINGLE if n != "auto-smollm3"]),
        Workload("coded", wl_coded, 400, 3000, require=["coded-weight-judged"]),
        Workload("modules", wl_modules, 100, 600, require=["module-weight-judged", "module-models-form"]),
        Workload("refuse", wl_refuse, 100, 1500, require=["refused:uneven", "refused:beyond", "refused:negative", "refused:uneven-models"]),
        Workload("duplicate", wl_duplicate, 1, 3),
    ],
)
