"""P26: mergekit-evolve evaluates, for each genotype, the merge it encodes, and keeps the best."""

import json
import os
import random
import sys

import numpy as np
import torch
import yaml
from click.testing import CliRunner

from mergekit.config import MergeConfiguration
from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk import evo_standins
from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.models import llama_config, llama_shapes, rand_tensors, write_ckpt
from vk.toks import CHARS, SPECIAL, write_tokenizer

PARAMS = dict(linear=["weight"], task_arithmetic=["weight"], ties=["weight", "density"], dare_ties=["weight", "density"], slerp=["t"])
NEEDS_BASE = ("task_arithmetic", "ties", "dare_ties")
FILTERS = ["self_attn", "mlp", "q_proj", "norm", "embed_tokens"]


def model(ctx, rng, name, layers, vocab=11, dtype=torch.float32):
    cfg = llama_config(layers=layers, hidden=8, inter=6, heads=2, vocab=vocab)
    t = {k: v.to(dtype) for k, v in rand_tensors(llama_shapes(cfg), rng.randrange(1 << 30)).items()}
    p = ctx.path(name)
    write_ckpt(p, cfg, t, "st", None, rng)
    return p


def gen(ctx, rng, layers, deterministic=False):
    m = rng.choice([x for x in PARAMS if not (deterministic and x == "dare_ties")])
    n = rng.choice([2, 2, 3]) if m == "slerp" else rng.choice([1, 2, 3])
    ps = [model(ctx, rng, f"m{i}", layers) for i in range(n)]
    d = dict(models=ps, merge_method=m)
    if m in NEEDS_BASE or (m == "slerp" and rng.random() < 0.4):
        d["base_model"] = rng.choice(ps) if rng.random() < 0.25 and (n > 1) else model(ctx, rng, "base", layers)
    g = rng.choice([0, 0] + [k for k in range(1, layers + 1) if layers % k == 0])
    if g:
        d["layer_granularity"] = g
    if rng.random() < 0.3:
        d["normalize"] = rng.random() < 0.5
    if rng.random() < 0.4:
        d["allow_negative_weights"] = rng.random() < 0.7
    if m != "slerp":
        if rng.random() < 0.45:
            d["filters"] = rng.sample(FILTERS, rng.choice([1, 2, 3]))
        if rng.random() < 0.35:
            d["smooth"] = True
    return d, m, n, (layers // g if g else 1)


def params_for(d, m, g4, name, where):
    """The parameters a tensor has for each model: ``where`` is the layer, as a fraction of the stack."""
    groups = g4.shape[0]
    sets = list(d.get("filters") or []) + [None]
    s = next(i for i, f in enumerate(sets) if f is None or f in name)
    out = []
    for k in range(g4.shape[1]):
        e = {}
        for pi, p in enumerate(PARAMS[m]):
            v = [float(x) for x in g4[:, k, s, pi]]
            if p == "density":
                v = [min(1.0, abs(x)) for x in v]
            elif not d.get("allow_negative_weights"):
                v = [abs(x) for x in v]
            if d.get("smooth"):
                x = where[1] * (groups - 1)
                i = int(x)
                j = min(i + 1, groups - 1)
                e[p] = (1 - (x - i)) * v[i] + (x - i) * v[j]
            else:
                e[p] = v[where[0]]
        out.append(e)
    return out


def wanted(d, m, g4, layers, shapes):
    """The same merge written out by hand: one slice per layer, one parameter set per tensor name."""
    groups = g4.shape[0]
    step = layers // groups
    base = d.get("base_model")
    slices = []
    for l in range(layers):
        names = [k for k in shapes if f".layers.{l}." in k]
        if l == 0:
            names += [k for k in shapes if "embed" in k]
        if l == layers - 1:
            names += [k for k in shapes if k in ("model.norm.weight", "lm_head.weight")]
        if m == "slerp":
            w = [float(x) for x in g4[l // step, :, 0, 0]]
            if not d.get("allow_negative_weights"):
                w = [abs(x) for x in w]
            a, b = sorted(range(len(w)), key=lambda i: -w[i])[:2]
            t = 1 / (1 + np.exp(w[a] - w[b]))
            slices.append(dict(sources=[dict(model=d["models"][i], layer_range=[l, l + 1]) for i in (a, b)], base_model=d["models"][a], parameters=dict(t=float(t))))
            continue
        src = [dict(model=p, layer_range=[l, l + 1], parameters={}) for p in d["models"]]
        for k in names:
            at = l if ".layers." in k else 0 if "embed" in k else layers - 1
            frac = at / (layers - 1) if layers > 1 else 0.0
            if ".layers." not in k and layers == 1:
                frac = 0.0 if "embed" in k else 1.0
            for e, pv in zip(src, params_for(d, m, g4, k, (at // step, frac))):
                for p, v in pv.items():
                    e["parameters"].setdefault(p, []).append(dict(filter=k, value=v))
        if base and base not in d["models"]:
            src.append(dict(model=base, layer_range=[l, l + 1]))
        slices.append(dict(sources=src))
    norm = d.get("normalize")
    doc = dict(merge_method=m, slices=slices, dtype="bfloat16", parameters=dict(normalize=(m in ("ties", "dare_ties", "linear")) if norm is None else norm, int8_mask=True))
    if base:
        doc["base_model"] = base
    return doc


def merged(ctx, cfg, name):
    c = cfg if isinstance(cfg, MergeConfiguration) else MergeConfiguration.model_validate(cfg)
    out = ctx.path(name)
    run_merge(c, out, MergeOptions(quiet=True, copy_tokenizer=False, write_model_card=False, random_seed=3))
    with open(os.path.join(out, "config.json")) as f:
        return json.load(f), read_checkpoint(out, "safetensors")[0]


def differing(a, b, loose):
    bad = []
    for k in set(a) | set(b):
        if k not in a or k not in b or a[k].dtype != b[k].dtype or a[k].shape != b[k].shape:
            bad.append(k)
        elif loose and not torch.allclose(a[k].float(), b[k].float(), rtol=2e-2, atol=2e-2 * float(b[k].float().abs().max() + 1e-6)):
            bad.append(k)
        elif not loose and not torch.equal(a[k].nan_to_num(), b[k].nan_to_num()):
            bad.append(k)
    return sorted(bad)


def genotype(rng, shape, m, method=None):
    g = np.random.default_rng(rng.randrange(1 << 30)).normal(0.6, 0.5, shape)
    if m == "dare_ties":
        # nothing is dropped at random, so that the order of draws does not matter
        g[..., 1] = np.sign(g[..., 1]) * (1 + np.abs(g[..., 1]))
    elif len(PARAMS[m]) > 1:
        # (a density that leaves nothing of a tensor is refused)
        g[..., 1] = np.sign(g[..., 1]) * (0.2 + np.abs(g[..., 1]) * rng.choice([1, 2]))
    return g


def wl_genome(ctx, rng):
    layers = rng.choice([1, 2, 4, 4, 6])
    d, m, n, groups = gen(ctx, rng, layers)
    sets = len(d.get("filters") or []) + 1
    shape = (groups, n, sets, len(PARAMS[m]))
    gn = ModelGenome(ModelGenomeDefinition.model_validate(d))
    x0 = gn.initial_genotype()
    what = lambda: f"{ {k: (v if k not in ('models', 'base_model') else '..') for k, v in d.items()} } base {'in' if d.get('base_model') in d['models'] else d.get('base_model') and 'extra'} {n} models {layers} layers: "
    ctx.describe(dict(d, layers=layers))
    ctx.ok(tuple(x0.shape) == shape, "initial-shape", lambda: what() + f"{tuple(x0.shape)} for {shape}")
    ctx.ok(bool((x0[..., 0] == x0[0, 0, 0, 0]).all()) and abs(float(x0[:, :, :, 0].sum(1)[0, 0]) - 1) < 1e-5 and bool((x0[..., 1:] == 1).all()), "initial-uniform", lambda: what() + f"{x0.flatten()[:8]}")
    r0 = gn.initial_genotype(random=True)
    ctx.ok(tuple(r0.shape) == shape and bool(((r0 >= 0) & (r0 <= 1)).all()), "initial-random", lambda: what() + "out of range")
    init = rng.random() < 0.2
    g = x0.numpy().astype(np.float64) if init else genotype(rng, shape, m)
    before = g.copy()
    form = rng.choice(["np-flat", "np", "torch64", "torch32", "torch-flat"])
    if form.endswith("32"):
        g = g.astype(np.float32).astype(np.float64)
    arg = {"np-flat": lambda: g.reshape(-1), "np": lambda: g, "torch64": lambda: torch.tensor(g), "torch32": lambda: torch.tensor(g, dtype=torch.float32), "torch-flat": lambda: torch.tensor(g).view(-1)}[form]()
    try:
        cfg = gn.genotype_merge_config(arg)
    except Exception as e:
        ctx.ok(False, "config-made", lambda: what() + f"{form}: {e!r}")
        return
    ctx.ok(np.array_equal(g, before if not form.endswith("32") else g) and np.array_equal(np.asarray(arg, dtype=np.float64).reshape(shape), g), "genotype-untouched", lambda: what() + "the genotype was changed")
    ctx.event("config")
    back = MergeConfiguration.model_validate(yaml.safe_load(cfg.to_yaml()))
    ctx.ok(back == cfg or back.to_yaml() == cfg.to_yaml(), "config-survives-yaml", lambda: what() + cfg.to_yaml()[:300])
    ctx.ok(cfg.dtype == "bfloat16" and cfg.merge_method == m, "config-head", lambda: what() + f"{cfg.dtype} {cfg.merge_method}")
    try:
        got = merged(ctx, back, "got")
    except Exception as e:
        ctx.ok(False, "genotype-merges", lambda: what() + f"{form}: {e!r}")
        return
    want = merged(ctx, wanted(d, m, g, layers, llama_shapes(llama_config(layers=layers, hidden=8, inter=6, heads=2, vocab=11))), "want")
    loose = bool(d.get("smooth")) or m == "slerp"
    if not (loose and m in ("ties", "dare_ties")):
        bad = differing(got[1], want[1], loose)
        if d.get("smooth") and groups > 1:
            # what follows the last layer is not part of the interpolated stack
            bad = [k for k in bad if k not in ("model.norm.weight", "lm_head.weight")]
        ctx.ok(not bad, "merge-as-encoded", lambda: what() + f"{form}: {len(bad)} tensors differ from the encoded merge: {bad[:4]}")
        ctx.event("compared", len(want[1]))
    ctx.ok(got[0]["num_hidden_layers"] == layers, "layer-count", lambda: what() + f"{got[0]['num_hidden_layers']}")
    ctx.event("method:" + m)
    if d.get("smooth") and groups > 1:
        ctx.event("smooth")
    if d.get("filters"):
        ctx.event("filters")
    if m == "slerp" and d.get("base_model"):
        ctx.event("slerp-with-base")
    ctx.nontrivial(m, layers, groups, n, tuple(d.get("filters") or ()), d.get("smooth"), d.get("normalize"), form, rng.random())


def wl_density(ctx, rng):
    """What of a smooth configuration only rounding keeps from being compared: parameters stay in range, for any genotype."""
    layers = rng.choice([2, 4])
    d, m, n, groups = gen(ctx, rng, layers)
    gn = ModelGenome(ModelGenomeDefinition.model_validate(d))
    g = np.random.default_rng(rng.randrange(1 << 30)).normal(0, 3, (groups, n, len(d.get("filters") or []) + 1, len(PARAMS[m])))
    cfg = gn.genotype_merge_config(g.reshape(-1))

    def values(p, name):
        s = p.get(name)
        out = []
        st = [s]
        while st:
            x = st.pop()
            if isinstance(x, list):
                st += x
            elif hasattr(x, "value"):
                st.append(x.value)
            elif x is not None:
                out.append(x)
        return out

    ps = [e.parameters or {} for e in (cfg.models or [])] + [e.parameters or {} for s in (cfg.slices or []) for e in s.sources] + [s.parameters or {} for s in (cfg.slices or [])]
    dens = [v for p in ps for v in values(p, "density")]
    w = [v for p in ps for v in values(p, "weight")]
    t = [v for p in ps for v in values(p, "t")]
    ctx.ok(all(0 <= v <= 1 for v in dens + t), "in-range", lambda: f"{d}: densities {dens[:8]} t {t[:8]}")
    if not d.get("allow_negative_weights"):
        ctx.ok(all(v >= 0 for v in w), "weights-positive", lambda: f"{d}: weights {w[:8]}")
    else:
        if m != "slerp":
            ctx.ok(any(v < 0 for v in w) == bool((g[..., 0] < 0).any()), "weights-signed", lambda: f"{d}: weights {w[:8]}")
    arrays = gn.genotype_to_param_arrays(g)
    ctx.ok(sum(len(v) for v in arrays.values()) == g.size and sorted(float(x) for v in arrays.values() for x in v) == sorted(g.ravel().tolist()), "arrays-complete", lambda: f"{d}: {list(arrays)}")
    # what does not fit is refused
    for bad in (g.reshape(-1)[:-1], g[0], np.concatenate([g, g]), np.concatenate([g, g], axis=1), np.concatenate([g, g], axis=3)):
        if bad.ndim == 1 and (bad.size % max(1, g.size // g.shape[-1])) == 0 or (bad.shape[0] != groups and bad.ndim == 4 and not d.get("layer_granularity")):
            continue
        try:
            gn.genotype_merge_config(bad)
            err = None
        except (RuntimeError, AssertionError, ValueError) as e:
            err = e
        ctx.ok(err is not None, "misfit-refused", lambda: f"{d}: a genotype of shape {bad.shape} accepted for {g.shape}")
    ctx.event("range")
    ctx.nontrivial("range", m, groups, n, rng.random())


# ---- interruptions while inputs are prepared: raised where a file below a directory is opened for writing ---------------
STOP = dict(under=None, left=0)


def stopper(event, args):
    if STOP["under"] is None or event != "open" or not isinstance(args[0], (str, os.PathLike)) or not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        return
    if os.path.abspath(os.fspath(args[0])).startswith(STOP["under"]):
        STOP["left"] -= 1
        if STOP["left"] < 0:
            STOP["under"] = None
            raise KeyboardInterrupt()


sys.addaudithook(stopper)


# ---- the whole search, on stand-ins for ray, cma and lm_eval -----------------------------------------------------------
def wl_search(ctx, rng):
    evo_standins.install()
    L = evo_standins.LOG
    from mergekit.scripts.evolve import main

    layers = rng.choice([1, 2])
    vocab = SPECIAL + CHARS
    d, m, n, groups = gen(ctx, rng, layers, deterministic=True)
    for p in {*d["models"], *([d["base_model"]] if d.get("base_model") else [])}:
        cfg = llama_config(layers=layers, hidden=8, inter=6, heads=2, vocab=len(vocab))
        write_ckpt(p, cfg, {k: v.to(torch.bfloat16) for k, v in rand_tensors(llama_shapes(cfg), rng.randrange(1 << 30)).items()}, "st", None, rng)
        write_tokenizer(p, vocab, kind="WordLevel")
    strategy = rng.choice(["pool", "memory", "serial", "buffered"])
    reshard = rng.random() < 0.4
    tasks = [dict(name="alpha", weight=rng.choice([1.0, -1.0])), dict(name="beta", weight=0.5, metric="other")][: rng.choice([1, 2])]
    with open(ctx.path("e.yml"), "w") as f:
        ev = {k: v for k, v in dict(limit=7, num_fewshot=rng.choice([0, 3]), apply_chat_template=rng.random() < 0.5, fewshot_as_multiturn=rng.random() < 0.5, shuffle=rng.random() < 0.5).items() if rng.random() < 0.6}
        yaml.safe_dump(dict(genome=d, tasks=tasks, random_init=m != "ties" and rng.random() < 0.3, **ev), f)
    args = [ctx.path("e.yml"), "--storage-path", ctx.path("st"), "--max-fevals", str(rng.choice([3, 6, 9])), "--num-gpus", str(rng.choice([1, 2, 3])), "--no-merge-cuda",
            "--strategy", "pool" if strategy == "memory" else strategy, "--force-population-size", "3", "--reshard" if reshard else "--no-reshard"]
    if strategy == "memory":
        args.append("--in-memory")
    batch, search, bits = rng.choice([None, 3]), rng.choice([None, ctx.path("tasks")]), strategy != "memory" and rng.random() < 0.3
    args += ["--batch-size", "3"] * (batch is not None) + ["--task-search-path", ctx.path("tasks")] * (search is not None) + ["--load-in-8bit"] * bits
    if reshard and rng.random() < 0.7:
        evo_standins.fresh()
        L.update(evals=[], asked=[], rng=random.Random(0), fail=None, broken=None, called=0, load=False)
        STOP.update(under=ctx.path("st", "input_models"), left=rng.randrange(8))
        try:
            CliRunner().invoke(main, args)
        except KeyboardInterrupt:
            pass
        if STOP["under"] is None:
            ctx.event("stopped-while-preparing")
        STOP["under"] = None
    evo_standins.fresh()
    had = os.path.exists(ctx.path("st", "final_model", "config.json"))
    L.update(evals=[], asked=[], rng=random.Random(rng.random()), fail=rng.choice([None, None, None, 3]), broken=rng.choice([None] * 6 + [0, 2, 4]), called=0, load=False)
    what = lambda: f"{strategy} reshard {reshard} { {k: v for k, v in d.items() if k not in ('models', 'base_model')} } {n} models: "
    ctx.describe(dict(args=args[3:], genome=d, tasks=tasks))
    try:
        if bits:
            evo_standins.mod("bitsandbytes")  # (to be found, and not used)
        r = CliRunner().invoke(main, args)
    finally:
        sys.modules.pop("bitsandbytes", None)
        evo_standins.stop_loops()
    if L["broken"] is not None and L["called"] > L["broken"]:
        # an evaluation that fails ends the search, with the reason
        ctx.ok(r.exit_code != 0 and "planted" in repr(r.exception), "failure-reported", lambda: what() + f"after a failing evaluation: {r.exit_code} {r.exception!r}")
        ctx.ok(had or not os.path.exists(ctx.path("st", "final_model", "config.json")), "failure-reported", lambda: what() + "a final model after a failing evaluation")
        ctx.event("evaluation-failed")
        ctx.event("search:" + strategy)
        ctx.nontrivial("failing", strategy, m, rng.random())
        return
    if not ctx.ok(r.exit_code == 0, "search-runs", lambda: what() + "".join(__import__("traceback").format_exception(*r.exc_info))[-500:]):
        return
    # every genotype asked for was evaluated once, and its score is that of its merge
    gn = ModelGenome(ModelGenomeDefinition.model_validate(d))
    asked = [x for pop in L["asked"] for x in pop]
    ctx.ok(len(L["evals"]) == len(asked), "evaluated-once", lambda: what() + f"{len(asked)} genotypes, {len(L['evals'])} evaluations")
    score = lambda t: sum(x["weight"] * evo_standins.score_of(t, x["name"]) * (-1 if x.get("metric") == "other" else 1) for x in tasks)
    wants = []
    for i, x in enumerate(asked):
        wants.append(merged(ctx, gn.genotype_merge_config(x), f"w{i}")[1])
    # ... the way it was configured
    for e in L["evals"]:
        kw, defaults = e["kw"], dict(apply_chat_template=True, fewshot_as_multiturn=True)
        for k in ("limit", "num_fewshot", "apply_chat_template", "fewshot_as_multiturn"):
            ctx.ok(kw.get(k) == ev.get(k, defaults.get(k)), "evaluation-settings", lambda: what() + f"{k}: {kw.get(k)} instead of {ev.get(k, defaults.get(k))}")
        ctx.ok(kw.get("batch_size") == batch, "evaluation-settings", lambda: what() + f"batch size {kw.get('batch_size')} instead of {batch}")
        ctx.ok(list(getattr(kw.get("task_manager"), "include_path", None) or []) == ([search] if search else []), "evaluation-settings", lambda: what() + "tasks are searched elsewhere")
        ctx.ok(bool(e["shuffled"]) == bool(ev.get("shuffle")), "evaluation-settings", lambda: what() + f"shuffle {ev.get('shuffle')}, data shuffled {e['shuffled']} times")
        ctx.ok(set(e["tasks"]) == {x["name"] for x in tasks} and len(e["tasks"]) == len(tasks), "evaluation-settings", lambda: what() + f"tasks {e['tasks']}")
        if strategy != "memory":
            ctx.ok(bool(getattr(e["model_args"].get("quantization_config"), "load_in_8bit", False)) == bits, "evaluation-settings", lambda: what() + f"quantized {not bits}, configured {bits}")
        ctx.event("settings-judged")
        if bits:
            ctx.event("quantized")
    left = list(L["evals"])
    for i, w in enumerate(wants):
        hit = next((e for e in left if set(e["tensors"]) == set(w) and not differing(e["tensors"], w, False)), None)
        if not ctx.ok(hit is not None, "evaluates-the-encoded-merge", lambda: what() + f"no evaluation saw the merge of genotype {i}"):
            break
        left.remove(hit) if not hit else left.pop(next(j for j, e in enumerate(left) if e is hit))
        ctx.event("evaluated")
    scores = [score(w) for w in wants]
    best = int(np.argmax(scores))
    if L["fail"] is None:
        ctx.ok(f"Best cost: {-scores[best]:.4f}" in r.output, "best-score-reported", lambda: what() + f"{[l for l in r.output.splitlines() if 'Best cost' in l]}, best of {[round(s, 4) for s in scores]}")
    doc = yaml.safe_load(open(ctx.path("st", "best_config.yaml")))
    same = merged(ctx, MergeConfiguration.model_validate(doc), "best")[1]
    ctx.ok(not differing(same, wants[best], False), "best-config-written", lambda: what() + f"best_config.yaml is not the best of {[round(s, 3) for s in scores]}")
    fin = read_checkpoint(ctx.path("st", "final_model"), "safetensors")[0]
    ctx.ok(not differing(fin, wants[best], False), "final-is-best", lambda: what() + f"the final model is not the best of {[round(s, 3) for s in scores]}")
    ctx.ok(not os.path.isdir(ctx.path("st", "merged")) or not os.listdir(ctx.path("st", "merged")), "evaluated-merges-removed", lambda: what() + f"{os.listdir(ctx.path('st', 'merged'))}")
    ctx.event("search:" + strategy)
    if L["fail"]:
        ctx.event("interrupted")
    ctx.nontrivial("search", strategy, m, groups, n, rng.random())


CHECK = Check(
    prop="P26",
    level="exploration",
    rule="generated genome definitions (five methods, layer groups, filters, smoothing, signs, bases) and genotypes in every accepted form; the configuration is merged and matched with the "
    "same merge written out by hand per layer and tensor; whole searches run on stand-ins for ray (running calls in any order), cma and lm_eval (scores are functions of the weights), "
    "every evaluated model is matched with the genotype asked for; distinct by definition and genotype",
    assumptions=["ray, cma and lm_eval are not installed here; stand-ins play their documented parts", "smooth and slerp merges are compared within bfloat16 rounding"],
    workloads=[
        Workload("genome", wl_genome, 200, 5000, require=["compared", "smooth", "filters", "slerp-with-base"] + ["method:" + m for m in PARAMS]),
        Workload("ranges", wl_density, 200, 5000, require=["range"]),
        Workload("search", wl_search, 40, 800, require=["evaluated", "settings-judged", "quantized", "evaluation-failed", "search:pool", "search:memory", "search:serial", "search:buffered"]),
    ],
)
