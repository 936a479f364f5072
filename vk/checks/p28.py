"""P28: models without a definition are merged completely, whatever their tensors are called."""

import json
import os
import shutil

import torch
import transformers as T
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.inferred import OTHER_VOCAB, ZOO, make
from vk.models import write_ckpt
from vk.vocab import vocab_merge


def merge(c, out, **o):
    run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(**dict(dict(quiet=True, copy_tokenizer=False, write_model_card=False), **o)))
    return out


def generate_config(rng, paths):
    """-> (config, function of the models' versions of a weight)"""
    n = len(paths)
    kind = rng.choice(["linear", "linear", "linear", "base", "arithmetic", "slerp", "passthrough"])
    c = dict(dtype="float32")
    if kind in ("linear", "base"):
        w = [rng.choice([0.25, 0.5, 1.0, 2.0]) for _ in paths]
        c.update(merge_method="linear", models=[dict(model=p, parameters=dict(weight=x)) for p, x in zip(paths, w)])
        if kind == "base":
            c["base_model"] = rng.choice(paths)
        return kind, c, lambda ts: sum(x * t for x, t in zip(w, ts) if t is not None) / sum(x for x, t in zip(w, ts) if t is not None)
    if kind == "arithmetic":
        w = [rng.choice([0.25, 0.5, -0.5, 1.0]) for _ in paths]
        c.update(merge_method="task_arithmetic", base_model=paths[0], models=[dict(model=p, parameters=dict(weight=x)) for p, x in list(zip(paths, w))[1:]])
        return kind, c, lambda ts: ts[0] + sum(x * (t - ts[0]) for x, t in list(zip(w, ts))[1:])
    if kind == "slerp":
        t = rng.choice([0.0, 1.0])
        c.update(merge_method="slerp", base_model=paths[0], models=[dict(model=p) for p in paths[:2]], parameters=dict(t=t))
        return kind, c, lambda ts: ts[int(t)]
    c.update(merge_method="passthrough", models=[dict(model=paths[0], parameters=dict(scale=0.5))])
    return kind, c, lambda ts: 0.5 * ts[0]


def wl_zoo(ctx, rng):
    """Classes of transformers that have no definition: saved, merged and loaded again."""
    entry = ZOO[ctx.case * 67 % len(ZOO)] if ctx.tier == "thorough" else rng.choice(ZOO)
    name = entry.split(":")[0]
    cls = getattr(T, name)
    n = rng.choice([2, 2, 3])
    paths, sd, miss = [], [], set()
    for i in range(n):
        m = make(entry, rng.randrange(1 << 30))
        p = ctx.path(f"m{i}")
        kw = dict(max_shard_size=rng.choice([2000, 8000])) if rng.random() < 0.3 else {}
        m.save_pretrained(p, **kw)
        if rng.random() < 0.2:  # the same tensors as a pickle
            t = read_checkpoint(p)[0]
            for f in os.listdir(p):
                if "safetensors" in f:
                    os.remove(os.path.join(p, f))
            write_ckpt(p, None, t, "bin", rng.choice([None, 2]), rng)
        m, info = cls.from_pretrained(p, output_loading_info=True)  # what transformers makes of the input
        paths.append(p)
        sd.append({k: v.clone() for k, v in m.state_dict().items()})
        miss |= set(info["missing_keys"])
    kind, c, want = generate_config(rng, paths)
    o = dict(out_shard_size=rng.choice([500, 4000, 10**9]), lazy_unpickle=rng.random() < 0.3)
    ctx.describe(dict(cls=entry, config=c, options=o))
    out = merge(c, ctx.path("out"), **o)
    m, info = cls.from_pretrained(out, output_loading_info=True)
    got = m.state_dict()
    ctx.event("merged:" + kind)
    ctx.ok(set(info["missing_keys"]) <= miss, "missing", lambda: f"{name}: {sorted(set(info['missing_keys']) - miss)[:5]} not in the output", stop=True)
    bad = []
    for k, v in sd[0].items():
        if not v.is_floating_point() or k in miss:
            continue
        ctx.event("weight-judged")
        w = want([s[k] for s in sd])
        if k not in got or got[k].shape != w.shape or not torch.allclose(got[k], w, atol=1e-4, rtol=1e-4):
            # buffers which transformers initialises by itself are not merged
            if k in got and got[k].shape == v.shape and torch.equal(got[k], v) and all(torch.equal(s[k], v) for s in sd):
                continue
            bad.append(k)
    ctx.ok(not bad, "weight", lambda: f"{name}: {len(bad)} of {len(sd[0])} weights are not the {kind} merge of the inputs': {bad[:4]}")
    ctx.state(name, kind)
    ctx.nontrivial(entry, kind, n)


# final_logits_bias: one column for every token
VOCAB = [e for e in ZOO if e.split(":")[0] not in OTHER_VOCAB and any(x in e for x in ("CausalLM", "LMHead", "MaskedLM", "ConditionalGeneration", "Classification"))]


def wl_vocab(ctx, rng):
    """A tokenizer merge of models without definition resizes what depends on the vocabulary, and nothing else."""
    entry = VOCAB[ctx.case * 31 % len(VOCAB)] if ctx.tier == "thorough" else rng.choice(VOCAB)
    models = [make(entry, rng.randrange(1 << 30)) for _ in range(2)]
    if any("final_logits_bias" in k for k, _ in models[0].named_buffers()):
        return ctx.event("other-vocabulary-tensors")
    vocab_merge(ctx, rng, entry, models, getattr(T, entry.split(":")[0]))


# -- hand-written checkpoints ------------------------------------------------

PREFIXES = ["enc", "dec", "enc.layer", "encoder", "model.layers", "a.b.blocks", "h", "model", "tower.stack", "enc.layers", "deep.er.layers", "model.vision.h"]
PARTS = ["w", "attn.q", "attn.0.k", "mlp.experts.1.up", "norm.weight", "q_proj.weight", "bias", "layers.2.x"]
LOOSE = ["top.weight", "embed", "norm", "head.weight", "x.y.z"]
CFG = dict(model_type="llama", architectures=["CustomForCausalLM"], hidden_size=8, num_attention_heads=2, num_key_value_heads=2, vocab_size=16,
           num_hidden_layers=2, head_dim=4, intermediate_size=16)


def make_names(rng):
    """-> {stack: {template: layers that have it}}, loose names"""
    k = rng.choice([1, 1, 2, 2, 3])
    stacks = {}
    while len(stacks) < k:
        p = rng.choice(PREFIXES)
        if p in stacks or any(p == q or p.startswith(q + ".") or q.startswith(p + ".") for q in stacks):
            if rng.random() < 0.7:
                continue
            if p in stacks:
                continue
        n = rng.choice([1, 2, 3, 3, 5, 11, 12])
        ts = {}
        for t in rng.sample(PARTS, rng.randint(1, 4)):
            have = set(range(n))
            if rng.random() < 0.25 and n > 1:
                have = set(rng.sample(range(n), rng.randint(1, n)))
            ts[t] = have
        stacks[p] = ts
    loose = set(rng.sample(LOOSE, rng.randint(0, 3)))
    for p in stacks:
        # weights beside a stack: below its prefix, and called like it
        for s in (".head", "norm.weight", ".final.weight", "_norm.bias", ".12"):
            if rng.random() < 0.25:
                loose.add(p + s)
    names = {f"{p}.{i}.{t}" for p, ts in stacks.items() for t, have in ts.items() for i in have}
    return stacks, loose, sorted(names | loose)


def write(rng, path, cfg, names, shapes):
    t = {k: torch.randn(shapes[k]) for k in names}
    order = list(names)
    rng.shuffle(order)
    write_ckpt(path, cfg, {k: t[k] for k in order}, rng.choice(["st", "st", "bin"]), rng.choice([None, None, 2, 3]), rng)
    return t


def judge(ctx, out, want, what, stop=True):
    got = read_checkpoint(out)[0]
    lost = sorted(set(want) - set(got))
    ctx.ok(not lost, "lost", lambda: f"{what}: {lost[:5]} ({len(lost)} of {len(want)}) not in the output", stop=stop)
    extra = sorted(set(got) - set(want))
    ctx.ok(not extra, "extra", lambda: f"{what}: {extra[:5]} in the output", stop=stop)
    bad = [k for k in want if got[k].shape != want[k].shape or not torch.allclose(got[k].float(), want[k].float(), atol=1e-5, rtol=1e-4)]
    ctx.event("weight-judged", len(want))
    ctx.ok(not bad, "wrong", lambda: f"{what}: {bad[:5]} ({len(bad)} of {len(want)}) are wrong", stop=stop)


def wl_custom(ctx, rng):
    """Tensors of any name, from a model transformers does not know."""
    stacks, loose, names = make_names(rng)
    shapes = {k: rng.choice([(3, 4), (2,), (2, 3, 2), (5, 1)]) for k in names}
    cfg = dict(CFG)
    if rng.random() < 0.5:
        cfg["intermediate_size"] = -5  # no class of transformers can be built from it
        ctx.event("uninstantiable")
    else:
        ctx.event("other-names")
    one = len(stacks) == 1
    n_layers = max(max(have) for have in next(iter(stacks.values())).values()) + 1 if one else 0
    if one and rng.random() < 0.7:
        cfg["num_hidden_layers"] = n_layers
    n = rng.choice([2, 2, 3])
    paths = [ctx.path(f"m{i}") for i in range(n)]
    have = []
    kind, c, want = generate_config(rng, paths)
    gone = []
    if kind == "linear" and rng.random() < 0.4:
        gone = rng.sample(names, min(len(names) - 1, rng.randint(1, 3)))  # only some of the models have these
    for i, p in enumerate(paths):
        own = [k for k in names if k not in gone or i == 0 or rng.random() < 0.4]
        have.append(write(rng, p, cfg, own, shapes))
    if gone:
        ctx.event("partly-missing")
    o = dict(out_shard_size=rng.choice([60, 300, 10**9]), lazy_unpickle=rng.random() < 0.3)
    ctx.describe(dict(config=c, options=o, names=names[:40], gone=gone, cfg=cfg))
    out = merge(c, ctx.path("out"), **o)
    ctx.event("merged:" + kind)
    ctx.event(f"stacks:{len(stacks)}")
    judge(ctx, out, {k: want([t.get(k) for t in have]) for k in names}, f"{len(stacks)} stacks, {kind}")
    ctx.nontrivial(tuple(names), kind)
    if rng.random() < 0.4:  # another model at the same place, in the same process
        stacks, loose, names = make_names(rng)
        shapes = {k: rng.choice([(3, 4), (2,)]) for k in names}
        have = []
        for p in paths:
            shutil.rmtree(p)
            have.append(write(rng, p, cfg, names, shapes))
        kind, c, want = generate_config(rng, paths)
        judge(ctx, merge(c, ctx.path("again"), **o), {k: want([t.get(k) for t in have]) for k in names}, f"rewritten, {len(stacks)} stacks, {kind}")
        ctx.event("rewritten")


def wl_slices(ctx, rng):
    """Layers of a stack without definition are counted, taken and renumbered as those of a known one."""
    p = rng.choice(PREFIXES)
    n = rng.choice([2, 3, 4, 11])
    ts = rng.sample(PARTS, rng.randint(1, 4))
    loose = rng.sample(LOOSE, rng.randint(0, 3)) + ([p + ".head"] if rng.random() < 0.4 else [])
    names = [f"{p}.{i}.{t}" for i in range(n) for t in ts] + loose
    shapes = {k: (2, 3) for k in names}
    cfg = dict(CFG, num_hidden_layers=n, intermediate_size=rng.choice([-5, 16]))
    m = rng.choice([1, 2, 3])
    paths = [ctx.path(f"m{i}") for i in range(m)]
    have = [write(rng, q, cfg, names, shapes) for q in paths]
    sl, src = [], []
    for _ in range(rng.randint(1, 4)):
        a = rng.randrange(n)
        b = rng.randint(a + 1, n)
        i = rng.randrange(m)
        sl.append(dict(sources=[dict(model=paths[i], layer_range=[a, b])]))
        src += [(i, l) for l in range(a, b)]
    c = dict(merge_method="passthrough", dtype="float32", slices=sl)
    ctx.describe(dict(config=c, names=names[:30]))
    out = merge(c, ctx.path("out"), out_shard_size=rng.choice([60, 10**9]))
    want = {f"{p}.{j}.{t}": have[i][f"{p}.{l}.{t}"] for j, (i, l) in enumerate(src) for t in ts}
    got = read_checkpoint(out)[0]
    for k in loose:
        # taken from the first or the last of the slices
        ctx.ok(k in got and any(torch.equal(got[k], have[i][k]) for i in {src[0][0], src[-1][0]}), "loose", lambda: f"{k} of {paths}")
        if k in got:
            want[k] = got[k]
    judge(ctx, out, want, f"slices {src}")
    size = json.load(open(os.path.join(out, "config.json"))).get("num_hidden_layers")
    ctx.ok(size == len(src), "layer-count", lambda: f"{size} in the config, {len(src)} layers written")
    ctx.event("sliced")
    ctx.nontrivial(p, n, tuple(src), tuple(ts))


def wl_modules(ctx, rng):
    """The stacks of a model without definition can be merged each in its own way."""
    while True:
        stacks, loose, names = make_names(rng)
        if len(stacks) > 1 and not any(q != p and (q + ".").startswith(p + ".") for p in stacks for q in stacks):
            break
    shapes = {k: (2, 3) for k in names}
    cfg = dict(CFG, intermediate_size=rng.choice([-5, 16]))
    paths = [ctx.path(f"m{i}") for i in range(3)]
    have = [write(rng, q, cfg, names, shapes) for q in paths]
    mods, of = {}, {}
    rest = [k for k in loose if not any(k.startswith(p + ".") for p in stacks)]
    for mod in list(stacks) + (["default"] if rest else []):
        w = [rng.choice([0.0, 0.25, 1.0]) for _ in paths]
        if not sum(w):
            w[0] = 1.0
        mods[mod] = dict(models=[dict(model=q, parameters=dict(weight=x)) for q, x in zip(paths, w)])
        of[mod] = w
    c = dict(merge_method="linear", dtype="float32", modules=mods)
    ctx.describe(dict(config=c, names=names[:30]))
    out = merge(c, ctx.path("out"))
    want = {}
    for k in names:
        mod = next((p for p in stacks if k.startswith(p + ".")), "default")
        w = of[mod]
        want[k] = sum(x * t[k] for x, t in zip(w, have)) / sum(w)
    judge(ctx, out, want, f"modules {list(mods)}")
    ctx.event("modules")
    ctx.nontrivial(tuple(sorted(mods)), tuple(names))


CHECK = Check(
    prop="P28",
    level="exploration",
    rule="tiny models of 321 transformers classes without a definition (saved by transformers, sharded or not, as safetensors or pickles) and hand-written "
    "checkpoints (one to three stacks of up to 12 layers, layers lacking weights, weights called like a stack or beside it, weights only some models have, a config "
    "transformers cannot instantiate or names it does not use) merged by five methods, whole, by slices or by module; every weight of the output, as transformers "
    "loads it or as stored, is compared with the combination of the inputs; distinct by class and method or by tensor names",
    assumptions=["transformers is trusted to save and load its own models"],
    workloads=[
        Workload("zoo", wl_zoo, 90, 1284, require=["weight-judged", "merged:linear", "merged:base", "merged:arithmetic"]),
        Workload("vocab", wl_vocab, 90, 900, require=["judged:in.weight", "judged:out.weight", "judged:out.bias", "row-judged", "others-judged"]),
        Workload("custom", wl_custom, 300, 4000, require=["weight-judged", "uninstantiable", "other-names", "partly-missing", "rewritten", "stacks:1", "stacks:2", "stacks:3"]),
        Workload("slices", wl_slices, 120, 1500, require=["sliced"]),
        Workload("modules", wl_modules, 80, 1000, require=["modules"]),
    ],
)
