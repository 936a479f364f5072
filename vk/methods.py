"""Shared driver for the merge-method checks: builds tiny models whose weights are in
interesting relations to each other, merges them end to end with the real code, and
hands back, for every output weight, the inputs it was merged from."""

import torch
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk.ckpt import read_checkpoint
from vk.models import llama_config, llama_shapes, write_ckpt

DT = {"float32": torch.float32, "float16": torch.float16, "bfloat16": torch.bfloat16}
EPS = {"float32": 1.2e-7, "float16": 9.8e-4, "bfloat16": 7.9e-3}
SCEN = ["indep", "indep", "small", "tiny", "same-as-base", "one-same", "two-same", "zero-base", "sparse", "scaled", "grid",
        "sparse", "small", "outlier", "zero-row", "shift", "all-zero", "disjoint"]


def scenario(rng, shape, n, kind=None, g=None):
    """-> (base, [n tensors], kind); float32"""
    kind = kind or rng.choice(SCEN)
    r = lambda s=1.0: torch.randn(shape, generator=g) * s
    base = r()
    if kind == "indep":
        ts = [r(rng.choice([0.5, 1.0, 3.0])) for _ in range(n)]
    elif kind == "small":
        ts = [base + r(0.03) for _ in range(n)]
    elif kind == "tiny":
        ts = [base + r(3e-4) for _ in range(n)]
    elif kind == "same-as-base":
        ts = [base.clone() for _ in range(n)]
    elif kind == "one-same":
        ts = [base + r(0.1) for _ in range(n)]
        ts[rng.randrange(n)] = base.clone()
    elif kind == "two-same":
        d = r(0.2)
        ts = [base + (d if i < 2 else r(0.2)) for i in range(n)]
    elif kind == "zero-base":
        base = torch.zeros(shape)
        ts = [r() for _ in range(n)]
    elif kind == "sparse":
        ts = [base + r(0.5) * (torch.rand(shape, generator=g) < 0.3) for _ in range(n)]
    elif kind == "scaled":
        d = r(0.3)
        ts = [base + d * rng.choice([0.25, 0.5, 1.0, 2.0, 4.0]) for _ in range(n)]
    elif kind == "grid":
        base = torch.randint(-3, 4, shape, generator=g).float()
        ts = [base + torch.randint(-4, 5, shape, generator=g).float() * 0.25 for _ in range(n)]
    elif kind == "outlier":
        ts = [base + r(0.05) for _ in range(n)]
        for t in ts:
            t.view(-1)[rng.randrange(t.numel())] += 20.0
    elif kind == "zero-row":
        ts = [base + r(0.2) for _ in range(n)]
        for t in ts:
            t[0] = base[0]
    elif kind == "shift":
        ts = [base + 0.125 * (i + 1) for i in range(n)]
    elif kind == "all-zero":
        base = torch.zeros(shape)
        ts = [torch.zeros(shape) for _ in range(n)]
    elif kind == "opposed":
        # (nearly) opposite directions
        ts = [-base * rng.choice([0.5, 1.0, 1.5, 3.0]) + r(rng.choice([0.0, 1e-5, 1e-3])) for _ in range(n)]
    elif kind == "disjoint":
        owner = torch.randint(0, n, shape, generator=g)
        ts = [base + r(0.5) * (owner == i) for i in range(n)]
    return base, ts, kind


class Case:
    """items: dicts with name, base (or None), tensors, kind, shape"""


def build_and_run(ctx, rng, method, n, has_base, gparams, mparams, dtype="float32", kinds=None, repeat=None, out_dtype=None,
                  base_params=None, opts=None, list_base=None, hid=None):
    """Merge n models (plus a base model if has_base) and return a Case."""
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    layers = rng.choice([1, 2, 3])
    heads = rng.choice([1, 2])
    cfg = llama_config(layers=layers, hidden=rng.choice(hid or [2, 4, 6, 8, 10]) * heads, inter=rng.choice([1, 3, 8, 13, 24]), heads=heads,
                       vocab=rng.choice([3, 7, 16, 31]))
    cfg["torch_dtype"] = dtype
    shapes = llama_shapes(cfg)
    scen = {}
    for nm, sh in shapes.items():
        scen[nm] = scenario(rng, sh, n, kind=rng.choice(kinds) if kinds else None, g=g)
    fmts = ["st", "st", "bin"]
    paths = []
    for i in range(n):
        p = ctx.path(f"m{i}")
        write_ckpt(p, cfg, {k: v[1][i].to(DT[dtype]) for k, v in scen.items()}, rng.choice(fmts), rng.choice([None, None, 2]), rng)
        paths.append(p)
    bp = None
    if has_base:
        bp = ctx.path("base")
        write_ckpt(bp, cfg, {k: v[0].to(DT[dtype]) for k, v in scen.items()}, rng.choice(fmts), None, rng)
    c = dict(merge_method=method, dtype=dtype)
    if out_dtype:
        c["out_dtype"] = out_dtype
    if gparams:
        c["parameters"] = dict(gparams)
    if has_base:
        c["base_model"] = bp
    form = rng.choice(["models", "slices", "slices"]) if repeat is None else ("slices" if repeat else "models")
    if list_base is None:
        list_base = has_base and rng.random() < 0.4
    order = list(range(n))
    lay = list(range(layers))
    entries = [dict(model=paths[i], **({"parameters": mparams[i]} if mparams and mparams[i] else {})) for i in order]
    if has_base and (list_base or form == "slices"):
        entries.insert(rng.randint(0, len(entries)), dict(model=bp, **({"parameters": base_params} if base_params else {})))
    if form == "models":
        c["models"] = entries
    else:
        # repeated and overlapping layer ranges: several output layers share the same inputs
        lay, sl = [], []
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(layers)
            b = rng.randint(a + 1, layers)
            sl.append(dict(sources=[dict(e, layer_range=[a, b]) for e in entries]))
            lay += list(range(a, b))
        c["slices"] = sl
        if len(set(lay)) < len(lay):
            ctx.event("repeated-layer")
    o = dict(quiet=True, copy_tokenizer=False)
    o.update(opts or {})
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(**o))
    got, _, _ = read_checkpoint(out)
    case = Case()
    case.cfg, case.got, case.items = c, got, []
    case.dtype, case.out = dtype, out

    def add(oname, iname):
        b, ts, k = scen[iname]
        case.items.append(dict(name=oname, src=iname, kind=k, base=b.to(DT[dtype]) if has_base else None,
                               tensors=[t.to(DT[dtype]) for t in ts], got=got.get(oname)))

    for nm in shapes:
        if ".layers." not in nm:
            add(nm, nm)
    for L, l in enumerate(lay):
        for nm in shapes:
            if f".layers.{l}." in nm:
                add(nm.replace(f".layers.{l}.", f".layers.{L}."), nm)
    ctx.ok(set(got) == {i["name"] for i in case.items}, "output-names",
           lambda: f"{method}: {sorted(set(got) ^ {i['name'] for i in case.items})[:4]}", stop=True)
    want_dt = DT[out_dtype or dtype]
    for it in case.items:
        ctx.ok(it["got"].dtype == want_dt, "output-dtype", lambda: f"{method}: {it['name']} is {it['got'].dtype}, configured {want_dt}")
        ctx.ok(it["got"].shape == it["tensors"][0].shape, "output-shape",
               lambda: f"{method}: {it['name']} ({it['kind']}) has shape {tuple(it['got'].shape)}, inputs {tuple(it['tensors'][0].shape)}", stop=True)
    return case


def judge(ctx, method, it, want, scale, dtype, cond=1.0, unsure=None, info="", key=None):
    """Compare an output weight with the reference value (float64)."""
    got = it["got"].double()
    tol = (24 if dtype != "float32" else 60) * EPS[dtype] * (scale * cond) + 1e-12
    ctx.event("weight-judged")
    if not torch.isfinite(want).all():
        ctx.event("reference-undefined")
        return True
    diff = (got - want).abs()
    bad = ~(diff <= tol)
    if unsure is not None:
        bad &= ~unsure
    if unsure is None or not bool(unsure.all()):
        ctx.event("kind:" + it["kind"])
    return ctx.ok(not bool(bad.any()), key or f"value:{method}",
                  lambda: f"{method} {it['name']} ({it['kind']}, {dtype}) {info}: {int(bad.sum())} of {bad.numel()} elements off, "
                          f"max diff {float(diff[bad].max()) if bad.any() else 0:.3g} (tolerance {float(torch.as_tensor(tol).max()):.3g}); "
                          f"first got {float(got[bad][0]):.6g} want {float(want[bad][0]):.6g}")
