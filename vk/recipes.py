"""Random complete merge recipes over tiny models, for the whole-run properties."""

import torch

from vk.methods import DT, scenario
from vk.models import llama_config, llama_shapes, write_ckpt
from vk.toks import SPECIAL, write_tokenizer

# name: (base needed, counted models without base, randomised)
METHODS = {
    "linear": (0, (1, 4), 0), "slerp": (1, (1, 1), 0), "nuslerp": (2, (2, 2), 0), "passthrough": (0, (1, 1), 0),
    "model_stock": (1, (2, 4), 0), "arcee_fusion": (1, (1, 1), 0), "karcher": (0, (2, 4), 0),
    "task_arithmetic": (1, (1, 4), 0), "ties": (1, (1, 4), 0), "dare_ties": (1, (1, 4), 1), "dare_linear": (1, (1, 4), 1),
    "breadcrumbs": (1, (1, 4), 0), "breadcrumbs_ties": (1, (1, 4), 0), "della": (1, (1, 4), 1), "della_linear": (1, (1, 4), 1),
    "multislerp": (2, (2, 4), 0), "nearswap": (1, (1, 1), 0), "ram": (1, (2, 4), 0), "ramplus_tl": (1, (2, 4), 0), "sce": (1, (1, 4), 0),
}
GTA = ("task_arithmetic", "ties", "dare_ties", "dare_linear", "breadcrumbs", "breadcrumbs_ties", "della", "della_linear")


def setting(rng, gen):
    """A parameter value in one of its documented forms."""
    r = rng.random()
    if r < 0.5:
        return gen()
    if r < 0.7:
        return [gen() for _ in range(rng.choice([2, 3, 5]))]
    return [dict(filter=rng.choice(["self_attn", "mlp", "norm"]), value=gen()), dict(value=gen())]


def recipe(ctx, rng, randomised=False, tokenizer=None, dtypes=("float32", "float32", "bfloat16", "float16"), prefix="", methods=None,
           formats=("st", "st", "bin")):
    """Write the models and return (config dict, info)."""
    name = rng.choice(methods or [m for m, v in METHODS.items() if randomised or not v[2]])
    need, (lo, hi), rnd = METHODS[name]
    n = rng.randint(lo, hi)
    has_base = need == 1 or (need == 2 and rng.random() < 0.5)
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    layers = rng.choice([1, 2, 3])
    heads = rng.choice([1, 2])
    vocab = rng.choice([7, 16, 31])
    cfg = llama_config(layers=layers, hidden=rng.choice([4, 4, 6, 8]) * heads, inter=rng.choice([3, 8, 13]), heads=heads, vocab=vocab,
                       tie=rng.random() < 0.25)
    dt = rng.choice(dtypes)
    cfg["torch_dtype"] = dt
    shapes = llama_shapes(cfg)
    kinds = ["indep", "small", "sparse", "outlier", "one-same", "grid"] if name not in ("slerp", "multislerp") else ["indep", "small"]
    scen = {nm: scenario(rng, sh, n, kind=rng.choice(kinds), g=g) for nm, sh in shapes.items()}
    paths, tens = [], []
    with_tok = tokenizer if tokenizer is not None else rng.random() < 0.3
    for i in range(n + (1 if has_base else 0)):
        t = {k: (v[1][i] if i < n else v[0]).to(DT[dt]) for k, v in scen.items()}
        p = ctx.path(prefix + (f"m{i}" if i < n else "base"))
        write_ckpt(p, cfg, t, rng.choice(formats), rng.choice([None, None, 2, 3]), rng)
        if with_tok:
            words = SPECIAL + rng.sample([f"w{j}" for j in range(40)], vocab - 3)
            write_tokenizer(p, words, kind="WordLevel")
        paths.append(p)
        tens.append(t)
    u = lambda a, b: (lambda: round(rng.uniform(a, b), 3))
    gp, mp = {}, [dict() for _ in range(n)]
    if name in ("slerp", "nearswap"):
        gp["t"] = setting(rng, u(0.0, 1.0) if name == "slerp" else u(1e-3, 0.3))
    if name in ("linear", "nuslerp", "multislerp") or name in GTA:
        for d in mp:
            d["weight"] = setting(rng, u(0.1, 1.0))
    if name in GTA:
        for d in mp:
            if rng.random() < 0.8:
                d["density"] = setting(rng, u(0.3, 0.95) if name.startswith("della") else u(0.35, 1.0))
            if name.startswith("bread"):
                d["density"] = u(0.4, 0.8)()
                d["gamma"] = u(0.0, 0.15)()
            if name.startswith("della"):
                d["density"] = u(0.3, 0.7)()
                d["epsilon"] = u(0.01, 0.2)()
        for k in ("normalize", "rescale", "int8_mask"):
            if rng.random() < 0.4:
                gp[k] = rng.random() < 0.5
        if rng.random() < 0.4:
            gp["lambda"] = u(0.5, 1.5)()
    if name == "linear" and rng.random() < 0.4:
        gp["normalize"] = rng.random() < 0.5
    if name == "nuslerp":
        gp["nuslerp_row_wise"] = rng.random() < 0.5
        gp["nuslerp_flatten"] = rng.random() < 0.5
    if name == "model_stock":
        gp["filter_wise"] = rng.random() < 0.5
    if name == "sce":
        gp["select_topk"] = u(0.2, 1.0)()
    if name == "passthrough" and rng.random() < 0.5:
        mp[0]["scale"] = setting(rng, u(0.5, 2.0))
    c = dict(merge_method=name, dtype=dt if rng.random() < 0.7 else rng.choice(dtypes))
    if rng.random() < 0.3:
        c["out_dtype"] = rng.choice(["float32", "bfloat16", "float16"])
    if gp:
        c["parameters"] = gp
    entries = [dict(model=paths[i], **({"parameters": mp[i]} if mp[i] else {})) for i in range(n)]
    if has_base:
        c["base_model"] = paths[n]
    if rng.random() < 0.5:
        if has_base and (name in ("slerp", "nearswap", "arcee_fusion") or rng.random() < 0.3):
            entries.insert(rng.randint(0, n), dict(model=paths[n]))
        c["models"] = entries
    else:
        if has_base:
            entries.insert(rng.randint(0, n), dict(model=paths[n]))
        sl = []
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(layers)
            sl.append(dict(sources=[dict(e, layer_range=[a, rng.randint(a + 1, layers)]) for e in entries]))
            b = sl[-1]["sources"][0]["layer_range"][1]
            for s in sl[-1]["sources"]:
                s["layer_range"] = [a, b]
        c["slices"] = sl
    if with_tok and name != "passthrough" and rng.random() < 0.6:
        c["tokenizer"] = dict(source=rng.choice(["union", "base"]))
        if rng.random() < 0.4:
            c["tokenizer"]["pad_to_multiple_of"] = 8
    return c, dict(method=name, n=n, paths=paths, tensors=tens, cfg=cfg, random=rnd, has_base=has_base, form="models" if "models" in c else "slices",
                   tok="tokenizer" in c)
