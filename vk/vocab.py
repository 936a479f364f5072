"""A tokenizer merge of two small models of one family, judged through transformers' own accessors."""

import json
import os

import torch
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk.core import Skip
from vk.toks import SPECIAL, load, write_tokenizer

WORDS = [f"w{i}" for i in range(40)]
ROWS = 32


def ends(model):
    """-> {"in": module, "out": module} of those the model has"""
    r = {}
    for k, f in (("in", "get_input_embeddings"), ("out", "get_output_embeddings")):
        try:
            m = getattr(model, f)()
        except NotImplementedError:
            continue
        if m is not None and getattr(m, "weight", None) is not None and m.weight.shape[0] == ROWS:
            r[k] = m
    return r


def vocab_merge(ctx, rng, label, models, cls):
    es = [ends(m) for m in models]
    if "in" not in es[0]:
        raise Skip()
    common = rng.randint(5, 20)
    own = ROWS - 3 - common
    share = WORDS[:common]
    toks = [SPECIAL + share + WORDS[20:20 + own], SPECIAL + rng.sample(share, common) + [f"v{i}" for i in range(own)]]
    paths = []
    for i, m in enumerate(models):
        p = ctx.path(f"m{i}")
        m.save_pretrained(p)
        write_tokenizer(p, toks[i])
        paths.append(p)
    src = rng.choice(["union", "union", paths[0], paths[1]])
    w = rng.choice([(0.5, 0.5), (0.25, 0.75), (1.0, 0.5)])
    tok = dict(source=src)
    pad = rng.choice([None, None, 16])
    if pad:
        tok["pad_to_multiple_of"] = pad
    c = dict(merge_method="linear", dtype="float32", tokenizer=tok, models=[dict(model=p, parameters=dict(weight=x)) for p, x in zip(paths, w)])
    ctx.describe(dict(family=label, config=c))
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(quiet=True, write_model_card=False))
    try:
        got, info = cls.from_pretrained(out, output_loading_info=True)
    except RuntimeError as e:
        ctx.fail("unloadable", f"{label}: transformers refuses the output, {str(e)[:150]}", stop=True)
    vocab = load(out).get_vocab()
    known = set(SPECIAL) | set(toks[0]) | set(toks[1])
    want_voc = set(toks[0]) | set(toks[1]) if src == "union" else set(toks[paths.index(src)])
    ctx.ok(want_voc <= set(vocab), "vocabulary", lambda: f"{label}: {sorted(want_voc - set(vocab))[:4]} not in the output's tokenizer", stop=True)
    ctx.ok(not info["missing_keys"], "missing", lambda: f"{label}: {sorted(info['missing_keys'])[:4]}")
    ge = {"in": got.get_input_embeddings()}
    if "out" in es[0]:
        ge["out"] = got.get_output_embeddings()
    size = max(vocab.values()) + 1
    seen = set()
    for e, mod in ge.items():
        for attr in ("weight", "bias"):
            parts = [getattr(x[e], attr, None) for x in es]
            if parts[0] is None or parts[0].shape[0] != ROWS:
                continue
            o = getattr(mod, attr)
            seen.add(o.data_ptr())
            ctx.event(f"judged:{e}.{attr}")
            ctx.ok(o.shape[0] >= size and (o.shape[0] == size or pad) and not (pad and o.shape[0] % pad), "rows",
                   lambda: f"{label}: {e} {attr} has {o.shape[0]} rows for {size} tokens", stop=True)
            for t, i in vocab.items():
                if t not in known:
                    continue
                rows = [p[tk.index(t)] if t in tk else None for p, tk in zip(parts, toks)]
                only = next(r for r in rows if r is not None)
                rows = [only if r is None else r for r in rows]
                want = sum(x * r for x, r in zip(w, rows)) / sum(w)
                ctx.event("row-judged")
                if not ctx.ok(torch.allclose(o[i], want, atol=1e-4), "row", lambda: f"{label}: {e} {attr} of {t!r}"):
                    return
    sd, go = [m.state_dict() for m in models], got.state_dict()
    bad = []
    for k, v in sd[0].items():
        if not v.is_floating_point() or k not in go or go[k].data_ptr() in seen:
            continue
        want = sum(x * s[k] for x, s in zip(w, sd)) / sum(w)
        if go[k].shape != want.shape or not torch.allclose(go[k], want, atol=1e-4, rtol=1e-4):
            bad.append((k, tuple(go[k].shape), tuple(want.shape)))
    ctx.event("others-judged")
    ctx.ok(not bad, "other-weight", lambda: f"{label}: {bad[:4]} changed with the vocabulary")
    cfg = json.load(open(os.path.join(out, "config.json")))
    if "vocab_size" in cfg:
        ctx.ok(cfg["vocab_size"] == go_rows(got), "config-vocab", lambda: f"{label}: {cfg['vocab_size']}")
    ctx.state(label)
    ctx.nontrivial(label, src == "union", common, pad, w)


def go_rows(m):
    return m.get_input_embeddings().weight.shape[0]
