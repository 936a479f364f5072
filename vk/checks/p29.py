"""P29: the front-ends mergekit-layershuffle, mergekit-legacy and bakllama do the merge their options describe."""

import os
import random
import shutil

import torch
import yaml
from click.testing import CliRunner

from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.models import llama_config, llama_shapes, rand_tensors, write_ckpt


def model(ctx, rng, name, layers, tie=False):
    cfg = llama_config(layers=layers, hidden=8, inter=6, heads=2, vocab=11)
    t = rand_tensors(llama_shapes(cfg), rng.randrange(1 << 30))
    p = ctx.path(name)
    write_ckpt(p, cfg, t, rng.choice(["st", "st", "bin"]), rng.choice([None, None, 2]), rng)
    return p, t


def invoke(main, args):
    st = random.getstate()
    try:
        return CliRunner().invoke(main, args)
    finally:
        random.setstate(st)


def outcome(path):
    import json

    with open(os.path.join(path, "config.json")) as f:
        cfg = json.load(f)
    t, _ = read_checkpoint(path, "safetensors")[:2]
    return cfg, t


def same(a, b):
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or a[k].dtype != b[k].dtype or not torch.equal(a[k], b[k]))


def layer(t, i):
    p = f"model.layers.{i}."
    return {k[len(p) :]: v for k, v in t.items() if k.startswith(p)}


def rest(t):
    return {k: v for k, v in t.items() if ".layers." not in k}


def eq(a, b, dt=None):
    return set(a) == set(b) and all(torch.equal(a[k], b[k].to(dt) if dt else b[k]) for k in a)


# ---- layershuffle ----------------------------------------------------------------------------------------------------
def plan_of(doc, models):
    """(path, layer) for each layer of a written recipe, as its documentation reads"""
    out = []
    for s in doc["slices"]:
        (src,) = s["sources"]
        a, b = src["layer_range"]
        m = src["model"]
        out += [(m, i) for i in range(a, b)]
    return out


def wl_shuffle(ctx, rng):
    from mergekit.scripts.layershuffle import main
    from mergekit.scripts.run_yaml import main as yaml_main

    n = rng.choice([1, 2, 2, 3])
    full = rng.random() < 0.5
    lens = [rng.choice([2, 3, 4]) for _ in range(n)]
    if not full:
        lens = [max(2, lens[0] - (i == 0) * rng.choice([0, 1])) if i == 0 else max(lens) for i in range(n)]
    ms = [model(ctx, rng, f"m{i}", lens[i]) for i in range(n)]
    w = None
    if rng.random() < 0.8:
        w = [rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 1.5] if full else [0.0, 0.2, 1.0, 3.0]) for _ in range(n)]
        if not any(w) or (full and not any(int(l * x) for l, x in zip(lens, w))):
            w[rng.randrange(n)] = 1.0
    seed = rng.choice([0, rng.randrange(1000)])
    fp16 = rng.random() < 0.25
    yml = ctx.path("w.yml")
    args = [a for p, _ in ms for a in ("-m", p)] + [a for x in (w or []) for a in ("-w", str(x))]
    args += ["--random-seed", str(seed)] + (["--full-random"] if full else []) + (["--fp16"] if fp16 else [])
    ctx.describe(dict(layers=lens, weights=w, full=full, fp16=fp16, seed=seed))
    what = lambda: f"layers {lens} weights {w} full {full} fp16 {fp16} seed {seed}: "
    dry = invoke(main, [ctx.path("dry"), *args, "--dry-run", "--write-yaml", yml, "--print-yaml"])
    if not ctx.ok(dry.exit_code == 0, "shuffle-runs", lambda: what() + repr(dry.exception)):
        return
    ctx.event("dry-run")
    ctx.ok(not os.path.exists(ctx.path("dry")), "dry-run-writes-nothing", lambda: what() + "the output directory exists after a dry run")
    with open(yml) as f:
        written = f.read()
    doc = yaml.safe_load(written)
    printed = yaml.safe_load(dry.stdout)
    ctx.ok(printed == doc, "printed-is-written", lambda: what() + f"printed {printed}, written {doc}")
    again = invoke(main, [ctx.path("dry"), *args, "--dry-run", "--print-yaml"])
    ctx.ok(yaml.safe_load(again.stdout) == doc, "seed-reproduces", lambda: what() + f"first {plan_of(doc, ms)}, then {plan_of(yaml.safe_load(again.stdout), ms)}")
    plan = plan_of(doc, ms)
    by = dict(ms)
    share = w or [1 / n] * n
    if full:
        for (p, _), l, x in zip(ms, lens, share):
            k = [i for q, i in plan if q == p]
            ctx.ok(len(k) == int(l * x + 1e-9) and all(0 <= i < l for i in k), "full-shares", lambda: what() + f"{os.path.basename(p)}: layers {k}, wanted {int(l * x + 1e-9)} of {l}")
    else:
        ctx.ok([i for _, i in plan] == list(range(lens[0])), "layers-in-place", lambda: what() + f"{plan}")
        ctx.ok(all(share[[p for p, _ in ms].index(q)] > 0 for q, _ in plan), "zero-weight-unused", lambda: what() + f"{plan}")
    run = invoke(main, [ctx.path("out"), *args])
    if not ctx.ok(run.exit_code == 0, "shuffle-runs", lambda: what() + repr(run.exception)):
        return
    cfg, t = outcome(ctx.path("out"))
    dt = torch.float16 if fp16 else None
    ctx.ok(cfg["num_hidden_layers"] == len(plan), "layer-count", lambda: what() + f"{cfg['num_hidden_layers']} layers configured, {len(plan)} planned")
    bad = [j for j, (p, i) in enumerate(plan) if not eq(layer(t, j), layer(by[p], i), dt)]
    ctx.ok(not bad and not layer(t, len(plan)), "layers-as-planned", lambda: what() + f"layers {bad} of {plan} differ")
    pre = {k: v for k, v in rest(by[plan[0][0]]).items() if "embed" in k}
    post = {k: v for k, v in rest(by[plan[-1][0]]).items() if "embed" not in k}
    ctx.ok(eq(rest(t), {**pre, **post}, dt), "ends-from-ends", lambda: what() + f"{plan}")
    r2 = invoke(yaml_main, [yml, ctx.path("out2")])
    ctx.ok(r2.exit_code == 0 and not same(t, outcome(ctx.path("out2"))[1]), "written-recipe-gives-the-same", lambda: what() + f"{r2.exception!r}")
    ctx.event("shuffle-full" if full else "shuffle-plain")
    if w is None:
        ctx.event("no-weights")
    ctx.nontrivial("shuffle", tuple(lens), tuple(w or []), full, fp16, seed)


def wl_draws(ctx, rng):
    """Are all layers, and models in proportion, really drawn from?"""
    from mergekit.scripts.layershuffle import main

    full = rng.random() < 0.6
    ls = [rng.choice([2, 3, 4]) for _ in range(2)] if full else [4, 4]
    ms = [model(ctx, rng, f"m{i}", l) for i, l in enumerate(ls)]
    w = [0.5, 1.0] if full else rng.choice([[0.8, 0.2], [3.0, 1.0], [1.0, 1.0]])
    args = [a for p, _ in ms for a in ("-m", p)] + [a for x in w for a in ("-w", str(x))] + ["--dry-run", "--print-yaml"] + (["--full-random"] if full else [])
    plans = []
    for s in range(60):
        r = invoke(main, [ctx.path("x"), *args, "--random-seed", str(rng.randrange(1 << 30))])
        if not ctx.ok(r.exit_code == 0, "shuffle-runs", lambda: f"{w} {full}: {r.exception!r}"):
            return
        plans.append(plan_of(yaml.safe_load(r.stdout), ms))
        ctx.event("draw", len(plans[-1]))
    ctx.describe(dict(layers=ls, weights=w, full=full))
    ctx.ok(len({str(p) for p in plans}) > 3, "draws-vary", lambda: f"{ls} {w} full {full}: the same plan for 60 seeds")
    if full:
        seen = {x for p in plans for x in p}
        never = [(os.path.basename(p), i) for (p, _), l in zip(ms, ls) for i in range(l) if (p, i) not in seen]
        ctx.ok(not never, "every-layer-drawn", lambda: f"{ls} weights {w}: never drawn in 60 shuffles: {never}")
        ctx.ok(len({tuple(q for q, _ in p) for p in plans}) > 1, "order-shuffled", lambda: f"{ls} {w}: models always in one order")
    else:
        k = sum(q == ms[0][0] for p in plans for q, _ in p)
        n = sum(map(len, plans))
        pr = w[0] / sum(w)
        sd = (n * pr * (1 - pr)) ** 0.5
        ctx.ok(abs(k - n * pr) < 7 * sd, "drawn-in-proportion", lambda: f"weights {w}: first model drawn {k} of {n} times")
    ctx.nontrivial("draws", full, tuple(ls), tuple(w), rng.random())


# ---- legacy ----------------------------------------------------------------------------------------------------------
def wl_legacy(ctx, rng):
    from mergekit.scripts.legacy import main
    from mergekit.scripts.run_yaml import main as yaml_main

    method = rng.choice(["ties", "ties", None, "linear", "task_arithmetic", "slerp", "dare_linear", "passthrough"])
    n = dict(slerp=2, passthrough=1).get(method, rng.choice([1, 2, 3]))
    ms = [model(ctx, rng, f"m{i}", 1)[0] for i in range(n)]
    args = [a for p in ms for a in ("--merge", p)] + (["--method", method] if method else [])
    m = method or "ties"
    entries = [dict(model=p, parameters={}) for p in ms]
    doc = dict(merge_method=m, models=entries, parameters={})
    if m in ("ties", "task_arithmetic", "dare_linear", "slerp"):
        if m == "slerp" or rng.random() < 0.3:
            base = ms[rng.randrange(n) if m == "slerp" else 0]
        else:
            base = model(ctx, rng, "base", 1)[0]
        args += ["--base-model", base]
        doc["base_model"] = base
        if base not in ms:
            entries.append(dict(model=base, parameters={}))
    if m not in ("slerp", "passthrough"):
        r = rng.random()
        if r < 0.35:
            w = [rng.choice([0.25, 0.5, 0.0, 1.5])] if rng.random() < 0.8 else [0.5]
            args += ["--weight", str(w[0])]
            for e in entries:
                e["parameters"]["weight"] = w[0]
            if n == 1 and w[0] == 0.0 and m == "linear":
                w[0] = 0.5
                args[-1] = "0.5"
                entries[0]["parameters"]["weight"] = 0.5
            elif w[0] == 0.0 and m == "linear":
                args[-1] = "0.5"
                for e in entries:
                    e["parameters"]["weight"] = 0.5
        elif r < 0.7 and n > 1:
            for e in entries[:n]:
                w = rng.choice([0.25, 0.5, 1.0, 1.5])
                e["parameters"]["weight"] = w
                args += ["--weight", str(w)]
        else:
            # documented: default 1.0 for all models
            for e in entries:
                e["parameters"]["weight"] = 1.0
            ctx.event("default-weights")
    if m in ("ties", "dare_linear"):
        r = rng.random()
        if r < 0.35:
            d = rng.choice([0.3, 0.6, 1.0])
            args += ["--density", str(d)]
            for e in entries:
                e["parameters"]["density"] = d
        elif r < 0.8:
            for e in entries[: rng.choice([n, n, max(2, n - 1)])][:n] if n > 1 else []:
                d = rng.choice([0.3, 0.5, 0.9])
                e["parameters"]["density"] = d
                args += ["--density", str(d)]
        ctx.event("densities")
    if m == "slerp":
        t = rng.choice([0.0, 0.25, 0.5, 1.0])
        args += ["--weight", str(t)]
        doc["parameters"]["t"] = t
    norm = rng.choice([None, True, False])
    if norm is not None:
        args += ["--normalize" if norm else "--no-normalize"]
    doc["parameters"]["normalize"] = norm is not False
    if rng.random() < 0.2:
        args += ["--int8-mask"]
        doc["parameters"]["int8_mask"] = True
    if rng.random() < 0.25:
        args += ["--bf16"]
        doc["dtype"] = "bfloat16"
        ctx.event("bf16")
    seed = ["--random-seed", str(rng.randrange(100))]
    ctx.describe(dict(args=[os.path.basename(a) for a in args]))
    what = lambda: f"{[os.path.basename(a) for a in args]}: "
    with open(ctx.path("c.yml"), "w") as f:
        yaml.safe_dump(doc, f)
    ref = invoke(yaml_main, [ctx.path("c.yml"), ctx.path("ref"), *seed])
    got = invoke(main, [ctx.path("out"), *args, *seed, "--print-yaml"])
    if not ctx.ok((ref.exit_code == 0) == (got.exit_code == 0), "legacy-runs", lambda: what() + f"legacy {got.exception!r}, same recipe {ref.exception!r}"):
        return
    if ref.exit_code:
        ctx.event("legacy-refused")
        return
    a, b = outcome(ctx.path("out")), outcome(ctx.path("ref"))
    ctx.ok(not same(a[1], b[1]), "legacy-as-recipe", lambda: what() + f"differs from its recipe in {same(a[1], b[1])[:4]}")
    ctx.ok(a[0].get("dtype", a[0].get("torch_dtype")) == b[0].get("dtype", b[0].get("torch_dtype")), "legacy-dtype", lambda: what() + "configs differ in data type")
    with open(ctx.path("p.yml"), "w") as f:
        f.write(got.stdout)
    pr = invoke(yaml_main, [ctx.path("p.yml"), ctx.path("pr"), *seed])
    ctx.ok(pr.exit_code == 0 and not same(a[1], outcome(ctx.path("pr"))[1]), "printed-recipe-gives-the-same", lambda: what() + f"{pr.exception!r}")
    ctx.event("legacy:" + m)
    ctx.nontrivial("legacy", tuple(a for a in args if not a.startswith("/")), rng.random())


# ---- bakllama --------------------------------------------------------------------------------------------------------
def wl_bakllama(ctx, rng):
    from mergekit.scripts.bakllama import main

    n = rng.choice([1, 2, 3])
    ms = [model(ctx, rng, f"m{i}", rng.choice([2, 3])) for i in range(n)]
    by = dict(ms)
    doc, plan = [], []
    for _ in range(rng.choice([1, 2, 3])):
        p, t = rng.choice(ms)
        l = 1 + max(int(k.split(".")[2]) for k in t if ".layers." in k)
        a = rng.randrange(l)
        b = rng.randint(a + 1, l)
        s = dict(model=p, start=a, end=b)
        if rng.random() < 0.5:
            s["scale"] = rng.choice([0.5, 0.0, 2.0, 1.0, -1.0])
        doc.append(s)
        plan += [(p, i, s.get("scale")) for i in range(a, b)]
    c = dict(layer_slices=doc)
    if rng.random() < 0.2:
        # sources that the stack uses anyway
        c["embedding_source"] = plan[0][0]
        c["lm_head_source"] = plan[-1][0]
    other = None
    if rng.random() < 0.15 and len({p for p, _, _ in plan}) > 1 and plan[0][0] != plan[-1][0]:
        other = rng.choice(["embedding_source", "lm_head_source"])
        c[other] = plan[-1][0] if other == "embedding_source" else plan[0][0]
    with open(ctx.path("b.yml"), "w") as f:
        yaml.safe_dump(c, f)
    fp16 = rng.random() < 0.3
    args = (["--fp16"] if fp16 else []) + (["--clone-tensors"] if rng.random() < 0.4 else [])
    what = lambda: f"{[(os.path.basename(p), i, s) for p, i, s in plan]} {args} {other or ''}: "
    ctx.describe(dict(plan=[(os.path.basename(p), i, s) for p, i, s in plan], args=args, other=other))
    r = invoke(main, [ctx.path("b.yml"), ctx.path("out"), *args])
    if not ctx.ok(r.exit_code == 0, "bakllama-runs", lambda: what() + repr(r.exception)):
        return
    cfg, t = outcome(ctx.path("out"))
    dt = torch.float16 if fp16 else None
    ctx.ok(cfg["num_hidden_layers"] == len(plan) and not layer(t, len(plan)), "bakllama-layers", lambda: what() + f"{cfg['num_hidden_layers']} layers")
    for j, (p, i, s) in enumerate(plan):
        want = layer(by[p], i)
        if s is not None:
            want = {k: (v.to(dt) if dt else v) * s if "down_proj" in k else v for k, v in want.items()}
        ctx.ok(eq(layer(t, j), want, dt), "bakllama-values", lambda: what() + f"layer {j}")
    src = dict(embedding_source=c.get("embedding_source", plan[0][0]), lm_head_source=c.get("lm_head_source", plan[-1][0]))
    g = lambda k, p: torch.equal(t[k], by[p][k].to(dt) if dt else by[p][k])
    ctx.ok(g("model.embed_tokens.weight", src["embedding_source"]), "bakllama-embedding" if other != "embedding_source" else "bakllama-embedding-source", lambda: what() + "embedding")
    ctx.ok(g("lm_head.weight", src["lm_head_source"]), "bakllama-head" if other != "lm_head_source" else "bakllama-head-source", lambda: what() + "head")
    ctx.event("bakllama")
    if other:
        ctx.event("bakllama-other-source")
    ctx.nontrivial("bak", str(doc), fp16)


def wl_naive(ctx, rng):
    """--naive-count: use naive sign count instead of weight (ties only)"""
    from mergekit.scripts.legacy import main

    ms = [model(ctx, rng, f"m{i}", 1) for i in range(4)]
    p, (ps, ts) = ms[0][0], zip(*ms[1:])
    w = [5.0, 1.0, 1.0]
    args = [a for q in ps for a in ("--merge", q)] + [a for x in w for a in ("--weight", str(x))] + ["--base-model", p, "--no-normalize", "--naive-count"]
    r = invoke(main, [ctx.path("out"), *args])
    if not ctx.ok(r.exit_code == 0, "naive-count", lambda: f"--naive-count: {type(r.exception).__name__}"):
        return
    t = outcome(ctx.path("out"))[1]
    for k, v in t.items():
        b = ms[0][1][k]
        d = torch.stack([(x[k] - b) * y for x, y in zip(ts, w)])
        keep = d.sign() == torch.where(d.sign().sum(0) >= 0, 1.0, -1.0)
        ctx.ok(torch.allclose(v, b + (d * keep).sum(0), atol=1e-4), "naive-count-values", lambda: f"--naive-count: {k} is not the naive consensus")
    ctx.event("naive-count")


CHECK = Check(
    prop="P29",
    level="exploration",
    rule="generated invocations of mergekit-layershuffle, mergekit-legacy and bakllama on small checkpoints; every output tensor is matched with the layer its written recipe names, "
    "with the same recipe run by mergekit-yaml, and with the documented meaning of weights, densities, scales, seeds and dry runs; repeated draws judge the shuffling; distinct by options",
    assumptions=["llama-shaped models, one module", "statistical bounds of seven standard deviations"],
    workloads=[
        Workload("shuffle", wl_shuffle, 160, 4000, require=["dry-run", "shuffle-full", "shuffle-plain", "no-weights"]),
        Workload("draws", wl_draws, 8, 200, require=["draw"]),
        Workload("legacy", wl_legacy, 200, 5000, require=["legacy:ties", "legacy:linear", "legacy:slerp", "default-weights", "densities", "bf16"]),
        Workload("bakllama", wl_bakllama, 160, 4000, require=["bakllama"]),
        Workload("naive", wl_naive, 2, 20),
    ],
)
