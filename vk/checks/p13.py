"""P13: with a tokenizer configured, vocabulary and embedding rows follow the documented rules."""

import json
import os
from typing import List, Optional

import torch
import transformers as T
from mergekit.architecture import WeightInfo
from mergekit.common import ModelReference
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.merge_methods.easy_define import merge_method
from mergekit.options import MergeOptions

from vk.archs import ARCHS, make
from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.models import llama_config, llama_shapes, write_ckpt
from vk.toks import CHARS, SPECIAL, load, write_tokenizer
from vk.vocab import vocab_merge

SEEN = []


@merge_method(name="vk_embed_probe", pretty_name="embedding probe")
def _probe(tensors: List[torch.Tensor], output_weight: WeightInfo, base_tensor: Optional[torch.Tensor] = None):
    SEEN.append((output_weight.name, [t.clone() for t in tensors], None if base_tensor is None else base_tensor.clone()))
    return sum(tensors) / len(tensors) if tensors else base_tensor


EMB = ("model.embed_tokens.weight", "lm_head.weight")


def make_models(ctx, rng, n, hidden=4, missing=True):
    models = []
    common = SPECIAL + rng.sample(CHARS, rng.randint(2, 10))
    pool = [f"w{i}" for i in range(12)]
    apool = [f"<|a{i}|>" for i in range(6)] + ["[PAD]", "<x y>"]
    same = rng.random() < 0.1
    free = rng.random() < 0.3  # no word has a reserved id: id 0 may be a word that only one model has
    for i in range(n):
        toks = list(common)
        rest = rng.sample(pool, rng.randint(0, 8))
        if free:
            toks += rest
            rng.shuffle(toks)
        elif rng.random() < 0.5:
            body = toks[3:] + rest
            rng.shuffle(body)
            toks = toks[:3] + body
        else:
            toks += rest
        if same and i:
            toks = list(models[0]["toks"])
        added = rng.sample(apool, rng.choice([0, 0, 1, 2, 3]))
        kind = "BPE"
        total = len(toks) + len(added)
        size = total
        r = rng.random()
        if r < 0.25:
            size = total + rng.randint(1, 9)  # padding rows without a token
        elif r < 0.45 and added:
            size = total - rng.randint(1, len(added))  # tokens beyond the embedding matrix
        elif r < 0.6:
            kind = "WordLevel"
        p = ctx.path(f"m{i}")
        cfg = llama_config(layers=1, hidden=hidden, inter=3, heads=2, vocab=size, tie=False)
        t = {}
        for nm, sh in llama_shapes(cfg).items():
            if nm in EMB:
                rows = torch.arange(sh[0], dtype=torch.float32).unsqueeze(1).expand(sh)
                t[nm] = rows * 4 + 1000.0 * (i + 1) + torch.arange(sh[1]).float() * 0.25 + (0.125 if nm == EMB[1] else 0)
            else:
                t[nm] = torch.ones(sh)
        write_ckpt(p, cfg, t, "st", None, rng)
        special = [a for a in added if rng.random() < 0.5]
        has_tok = True
        merges = []
        write_tokenizer(p, toks, added, kind=kind, special=special, merges=merges)
        if missing and i and rng.random() < 0.05:
            os.remove(os.path.join(p, "tokenizer.json"))
            os.remove(os.path.join(p, "tokenizer_config.json"))
            has_tok = False
        models.append(dict(path=p, toks=toks, added=added, size=size, t=t, vocab=load(p).get_vocab() if has_tok else None))
    return models


def wl_rules(ctx, rng):
    SEEN.clear()
    n = rng.choice([1, 2, 2, 3, 3, 4])
    models = make_models(ctx, rng, n)
    has_base = rng.random() < 0.6
    base = rng.randrange(n) if has_base else None
    order = list(range(n))
    rng.shuffle(order)
    tb = base if has_base else order[0]  # the model 'base' refers to: the first one without base_model
    if models[tb]["vocab"] is None:
        ctx.event("base without tokenizer")
        return
    inrange = lambda m: {t: i for t, i in (m["vocab"] or {}).items() if i < m["size"]}
    for m in models:
        m["own"] = inrange(m)
    for m in models:
        if m["vocab"] is None:
            m["own"] = {t: i for t, i in models[tb]["own"].items() if i < m["size"]}
    legacy = rng.random() < 0.25
    srci = rng.randrange(n)
    if models[srci]["vocab"] is None:
        srci = tb
    src = rng.choice(["union", "union", "base", models[srci]["path"]])
    if src == "union":
        voc = set().union(*[m["own"] for m in models])
        # a model without tokenizer adds nothing
    elif src == "base":
        voc = set(models[tb]["own"])
    else:
        voc = set(models[srci]["vocab"])
    overrides, pad = {}, None
    if not legacy:
        if rng.random() < 0.5:
            pad = rng.choice([1, 2, 8, 16, 32])
        cand = sorted(voc) + ["<|new1|>", "<|new2|>", "brand new"] + sorted(set().union(*[m["own"] for m in models]) - voc)
        for tok in rng.sample(cand, rng.choice([0, 0, 1, 2, 4])):
            k = rng.choice(["model", "token", "token_id", "zero", "none"])
            owners = [i for i, m in enumerate(models) if tok in m["own"]]
            c = {}
            if k == "model" and owners:
                o = rng.choice(owners)
                c["source"] = models[o]["path"]
                exp = ("row", o, models[o]["own"][tok])
            elif k == "token":
                o = rng.randrange(n)
                if models[o]["vocab"] is None:
                    o = tb
                st = rng.choice(sorted(models[o]["own"]))
                c["source"] = dict(kind="model_token", model=models[o]["path"], token=st)
                exp = ("row", o, models[o]["own"][st])
            elif k == "token_id":
                o = rng.randrange(n)
                r = rng.randrange(models[o]["size"])
                c["source"] = dict(kind="model_token", model=models[o]["path"], token_id=r)
                exp = ("row", o, r)
            elif k == "zero":
                c["source"] = dict(kind="zero")
                exp = ("zero",)
            else:
                exp = None
            if rng.random() < 0.5:
                c["force"] = rng.choice([True, False])
            overrides[tok] = (c, exp)
    voc |= set(overrides)
    cfgd = dict(merge_method="vk_embed_probe", dtype="float32", models=[dict(model=models[i]["path"]) for i in order])
    if has_base:
        cfgd["base_model"] = models[base]["path"]
    if legacy:
        cfgd["tokenizer_source"] = src
    else:
        tk = {}
        if src != "union" or rng.random() < 0.5:
            tk["source"] = src
        if overrides:
            tk["tokens"] = {t: c for t, (c, _) in overrides.items()}
        if pad:
            tk["pad_to_multiple_of"] = pad
        cfgd["tokenizer"] = tk
    ctx.describe(dict(n=n, base=base, source=src, overrides={t: str(c) for t, (c, _) in overrides.items()}, pad=pad, sizes=[m["size"] for m in models],
                      toks=[len(m["vocab"] or ()) for m in models]))
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(cfgd), out, MergeOptions(quiet=True))
    tok = load(out)
    got = tok.get_vocab()
    ctx.event("source:" + (src if src in ("union", "base") else "path"))
    ctx.ok(set(got) == voc, "vocabulary", lambda: f"missing {sorted(voc - set(got))[:5]} extra {sorted(set(got) - voc)[:5]}", stop=True)
    ctx.ok(sorted(got.values()) == list(range(len(voc))), "ids-contiguous", lambda: f"{sorted(got.values())}", stop=True)
    keep = models[tb] if src in ("union", "base") else models[srci]
    for t, i in (keep["own"] if src in ("union", "base") else keep["vocab"]).items():
        ctx.ok(got[t] == i, "ids-kept", lambda: f"{t!r} has id {got[t]}, was {i} in the model whose vocabulary is used")
    size = len(voc) if not pad or len(voc) % pad == 0 else (len(voc) // pad + 1) * pad
    cj = json.load(open(os.path.join(out, "config.json")))
    ctx.ok(cj["vocab_size"] == size, "config-vocab", lambda: f"vocab_size {cj['vocab_size']}, expected {size}")
    ten, _, _ = read_checkpoint(out)
    seen = {nm: (ts, b) for nm, ts, b in SEEN}
    for nm in EMB:
        ctx.ok(tuple(ten[nm].shape) == (size, 4), "output-rows", lambda: f"{nm}: {tuple(ten[nm].shape)}, expected {size} rows", stop=True)
        ts, b = seen[nm]
        rest = [i for i in order if i != base]
        pairs = list(zip(rest, ts)) + ([(base, b)] if has_base else [])
        ctx.ok(len(ts) == len(rest) and (not has_base or b is not None), "models-passed", lambda: f"{len(ts)} tensors for {len(rest)} models", stop=True)
        rowof = lambda m, r: models[m]["t"][nm][r].double()
        for i, x in pairs:
            ctx.ok(tuple(x.shape) == (size, 4), "embedding-shape", lambda: f"{nm}: model {i} got {tuple(x.shape)}, vocabulary {size}", stop=True)
            for t, tid in got.items():
                c, exp = overrides.get(t, ({}, None))
                own = models[i]["own"].get(t)
                owners = [j for j in range(n) if t in models[j]["own"]]
                if own is not None and not c.get("force"):
                    want, why = rowof(i, own), "own"
                elif exp is not None:
                    want, why = (torch.zeros(4).double(), "zero") if exp[0] == "zero" else (rowof(exp[1], exp[2]), "override")
                elif c.get("force") and owners == []:
                    want, why = torch.zeros(4).double(), "nobody"
                elif has_base and t in models[base]["own"]:
                    want, why = rowof(base, models[base]["own"][t]), "base"
                elif len(owners) == 1:
                    want, why = rowof(owners[0], models[owners[0]]["own"][t]), "only-owner"
                elif owners:
                    want, why = sum(rowof(j, models[j]["own"][t]) for j in owners) / len(owners), "average"
                else:
                    want, why = torch.zeros(4).double(), "nobody"
                ctx.event("row:" + why + ("-forced" if c.get("force") else ""))
                ctx.ok(bool((x[tid].double() - want).abs().max() < 0.01), "embedding-row",
                       lambda: f"{nm}: model {i}, token {t!r} ({why}, owners {owners}, base {base}): got {x[tid].tolist()[:2]}, expected {want.tolist()[:2]}")
            for r in range(len(voc), size):
                ctx.event("row:padding")
                mean = x[: len(voc)].double().mean(0)
                ctx.ok(bool(torch.isfinite(x[r]).all()) and bool(((x[r].double() - mean).abs() <= 0.01 + 1e-4 * mean.abs()).all()), "padding-row",
                       lambda: f"{nm}: model {i}, padding row {r}: {x[r].tolist()[:2]}, the other rows average {mean.tolist()[:2]}")
    # the text a vocabulary's own model knows is still tokenized alike
    if keep["vocab"] is not None and keep["size"] >= len(keep["vocab"]) and not overrides and src != "union":
        text = " ".join(rng.sample(sorted(keep["vocab"]), min(5, len(keep["vocab"]))))
        ctx.event("encoding")
        ctx.ok(tok.encode(text) == load(keep["path"]).encode(text), "encoding", lambda: repr(text))
    ctx.nontrivial(n, base, src in ("union", "base") and src, tuple(sorted(str(c) for c, _ in overrides.values())), pad, tuple(m["size"] for m in models))


def wl_slices(ctx, rng):
    """Stacked slices: the embeddings come from the first slice's models, whatever base_model says."""
    SEEN.clear()
    n = rng.choice([2, 3])
    models = make_models(ctx, rng, n, missing=False)
    for m in models:
        m["own"] = {t: i for t, i in m["vocab"].items() if i < m["size"]}
    base = rng.choice([None] + list(range(n)))
    first = rng.sample(range(n), rng.randint(1, n))
    second = rng.sample(range(n), rng.randint(1, n))
    src = rng.choice(["union", "base"])
    c = dict(merge_method="vk_embed_probe", dtype="float32", tokenizer=dict(source=src),
             slices=[dict(sources=[dict(model=models[i]["path"], layer_range=[0, 1]) for i in s]) for s in (first, second)])
    if base is not None:
        c["base_model"] = models[base]["path"]
    out = ctx.path("out")
    ctx.describe(dict(first=first, second=second, base=base, source=src))
    run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(quiet=True))
    got = load(out).get_vocab()
    ref = list(dict.fromkeys(([base] if base is not None else []) + first + second))
    voc = set().union(*[models[i]["own"] for i in ref]) if src == "union" else set(models[ref[0]]["own"])
    ctx.ok(set(got) == voc, "vocabulary", lambda: f"missing {sorted(voc - set(got))[:5]} extra {sorted(set(got) - voc)[:5]}", stop=True)
    seen = {nm: (ts, b) for nm, ts, b in SEEN}
    for nm, ms in ((EMB[0], first), (EMB[1], second)):
        ts, b = seen[nm]
        rest = [i for i in ms if i != base]
        pairs = list(zip(rest, ts)) + ([(base, b)] if base in ms else [])
        ctx.ok(len(ts) == len(rest), "models-passed", lambda: f"{nm}: {len(ts)} tensors, sources {ms} base {base}", stop=True)
        if base is not None and base not in ms:
            ctx.event("base-outside-slice")
        for i, x in pairs:
            for t, tid in got.items():
                own = models[i]["own"].get(t)
                owners = [j for j in ms if t in models[j]["own"]]
                rowof = lambda m: models[m]["t"][nm][models[m]["own"][t]].double()
                if own is not None:
                    want = rowof(i)
                elif base in ms and t in models[base]["own"]:
                    want = rowof(base)
                elif owners:
                    want = sum(rowof(j) for j in owners) / len(owners)
                else:
                    continue
                ctx.event("row-judged")
                ctx.ok(bool((x[tid].double() - want).abs().max() < 0.01), "embedding-row",
                       lambda: f"{nm}: model {i}, token {t!r}: got {x[tid].tolist()[:2]}, expected {want.tolist()[:2]} (sources {ms}, base {base})")
    ctx.nontrivial(tuple(first), tuple(second), base, src, rng.random())


def wl_gaps(ctx, rng):
    """Vocabularies whose ids have holes: every token still has its row."""
    SEEN.clear()
    words = SPECIAL + [f"w{i}" for i in range(rng.randint(3, 12))]
    n = rng.choice([1, 2, 3])
    models = []
    for i in range(n):
        ids, nxt = {}, 0
        for j, w in enumerate(words):
            if j >= 3 and i and rng.random() < 0.2:
                continue
            ids[w] = nxt
            nxt += 1 + (rng.randint(1, 3) if j >= 2 and rng.random() < 0.4 else 0)
        size = max(ids.values()) + 1 + rng.choice([0, 0, 5])
        p = ctx.path(f"m{i}")
        cfg = llama_config(layers=1, hidden=4, inter=3, heads=2, vocab=size, tie=False)
        t = {nm: (torch.arange(sh[0]).float().unsqueeze(1).expand(sh) * 4 + 1000.0 * (i + 1)) if nm in EMB else torch.ones(sh)
             for nm, sh in llama_shapes(cfg).items()}
        write_ckpt(p, cfg, t, "st", None, rng)
        write_tokenizer(p, list(ids), kind="WordLevel", ids=ids)
        models.append(dict(path=p, own=ids, t=t))
    pad = rng.choice([None, None, 4, 16])
    c = dict(merge_method="vk_embed_probe", dtype="float32", base_model=models[0]["path"],
             models=[dict(model=m["path"]) for m in models], tokenizer=dict(source="base", pad_to_multiple_of=pad))
    ctx.describe(dict(ids=[m["own"] for m in models], pad=pad))
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(quiet=True))
    got = load(out).get_vocab()
    ctx.ok(got == models[0]["own"], "vocabulary", lambda: f"{got}", stop=True)
    size = json.load(open(os.path.join(out, "config.json")))["vocab_size"]
    ctx.ok(max(got.values()) < size and (not pad or size % pad == 0), "config-vocab", lambda: f"{size} for ids up to {max(got.values())}")
    if len(got) != max(got.values()) + 1:
        ctx.event("gap")
    ten, _, _ = read_checkpoint(out)
    seen = {nm: (ts, b) for nm, ts, b in SEEN}
    for nm in EMB:
        ctx.ok(ten[nm].shape[0] == size, "output-rows", lambda: f"{nm}: {tuple(ten[nm].shape)}, vocab_size {size}", stop=True)
        ts, b = seen[nm]
        for m, x in list(zip(models[1:], ts)) + [(models[0], b)]:
            for t, tid in got.items():
                src = m if t in m["own"] else models[0]
                ctx.event("row-judged")
                ctx.ok(torch.equal(x[tid], src["t"][nm][src["own"][t]]), "embedding-row", lambda: f"{nm}: {t!r}")
    ctx.nontrivial(tuple(sorted(got.items())), n, pad)


def wl_families(ctx, rng):
    """Every supported family: the embeddings, the head and its bias follow the vocabulary, nothing else does."""
    names = sorted(ARCHS)
    name = names[ctx.case % len(names)]
    spec = ARCHS[name]
    vocab_merge(ctx, rng, name, [make(name, seed=rng.randrange(1 << 30)) for _ in range(2)], getattr(T, spec["cls"]))


CHECK = Check(
    prop="P13",
    level="exploration",
    rule="1-4 tiny models with different vocabularies (shuffled, padded matrices, tokens beyond the matrix, added and special tokens, a missing "
    "tokenizer), union/base/path sources, overrides of every kind with and without force, padding; a recording merge method sees each model's "
    "adjusted matrix and every row is compared with the README's rules, the saved tokenizer and config with the vocabulary; tokenizer merges of 61 model families judged through transformers; distinct by configuration",
    workloads=[
        Workload("rules", wl_rules, 700, 9000, require=["row:own", "row:base", "row:only-owner", "row:average", "row:override", "row:override-forced",
                                                        "row:zero", "row:nobody", "row:padding", "source:union", "source:base", "source:path"]),
        Workload("slices", wl_slices, 200, 3000, require=["row-judged", "base-outside-slice"]),
        Workload("families", wl_families, 90, 1500, require=["judged:in.weight", "judged:out.weight", "judged:out.bias", "others-judged"]),
        Workload("gaps", wl_gaps, 60, 600, require=["gap", "row-judged"]),
    ],
)
