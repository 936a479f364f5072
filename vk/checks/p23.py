"""P23: mergekit-pytorch merges arbitrary tensor files tensor by tensor, as configured."""

import hashlib
import json
import os
import subprocess
import sys

import torch
import yaml
from click.testing import CliRunner
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from mergekit.scripts.merge_raw_pytorch import main
from safetensors.torch import save_file

from vk.ckpt import bits, read_checkpoint
from vk.core import Check, Skip, Workload
from vk.methods import DT, EPS, scenario
from vk.models import llama_config, llama_shapes, write_ckpt

PARTS = ["enc", "dec", "block", "0", "1", "10", "norm", "fc", "weight", "bias", "a b", "x/y", "é", "conv@2", "q+k", "W", "w", "running_mean", "_", "-", "layer:0", "{x}", "state_dict", "quote\"d"]
SHAPES = [(), (1,), (3,), (7,), (2, 3), (4, 5), (1, 6), (3, 2, 2), (2, 3, 3, 1), (16,), (8, 8)]


def names(rng, n):
    out = []
    while len(out) < n:
        nm = ".".join(rng.choice(PARTS) for _ in range(rng.randint(1, 3)))
        if nm not in out and nm != "state_dict":
            out.append(nm)
    return out


def save(rng, path, tensors, form):
    """form: st, flat, nested, param, view"""
    items = list(tensors.items())
    rng.shuffle(items)
    if form == "st":
        save_file({k: v.clone().contiguous() for k, v in items}, path)
        return
    d = {}
    for k, v in items:
        v = v.clone()
        if form == "view" and v.dim() >= 2:
            v = v.transpose(0, 1).contiguous().transpose(0, 1)
        elif form == "view" and v.dim() == 1:
            big = torch.full((2 * v.numel() + 3,), 99.0, dtype=v.dtype)
            big[1:1 + 2 * v.numel():2] = v
            v = big[1:1 + 2 * v.numel():2]
        elif form == "param":
            v = torch.nn.Parameter(v)
        d[k] = v
    if form == "nested":
        d = {"state_dict": d}
        if rng.random() < 0.5:
            d["epoch"] = 3
    torch.save(d, path)


def write_any(ctx, rng, i, tensors, path=None):
    form = rng.choice(["st", "st", "flat", "nested", "param", "view"])
    if path is not None:
        form = "st" if path.lower().endswith(".safetensors") else rng.choice(["flat", "nested", "param", "view"])
    else:
        stem = rng.choice([f"m{i}", f"model@{i}", f"a+b{i}", f"with space{i}", f"é{i}"])
        sub = rng.choice(["", "", "d@1+2", "same"])
        ext = rng.choice([".safetensors", ".safetensors", ".SafeTensors"]) if form == "st" else rng.choice([".pt", ".pth", ".bin", ".ckpt", ".PT", ""])
        d = ctx.path("in", str(i) if sub == "same" else "", sub)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, (("model" if sub == "same" else stem) + ext))
    save(rng, path, tensors, form)
    ctx.event("format:" + form)
    return path


# ---- independent reading of settings ---------------------------------------------------------------------------------
def ev(setting, name):
    if setting is None or isinstance(setting, (int, float, bool)):
        return setting
    if isinstance(setting, dict):
        setting = [setting]
    if isinstance(setting[0], dict):
        for c in setting:
            f = c.get("filter")
            if f is None or f == "*" or f in name:
                return ev(c["value"], name)
        return None
    return setting[0]  # there are no layers, so gradients stay at their start


def pick(name, *levels):
    for lv in levels:
        if lv and name_in(lv, name[0]):
            v = ev(lv[name[0]], name[1])
            if v is not None:
                return v
    return None


def name_in(d, k):
    return k in d


def gen_setting(rng, nms, gen):
    r = rng.random()
    if r < 0.5:
        return gen()
    if r < 0.6:
        return [gen() for _ in range(rng.randint(1, 3))]
    conds = []
    for _ in range(rng.randint(1, 3)):
        w = rng.choice(nms)
        a = rng.randrange(len(w))
        b = rng.randint(a + 1, len(w))
        conds.append(dict(filter=rng.choice([w, w[a:b], "nowhere", "*"]), value=rng.choice([gen(), [gen(), gen()]])))
    if rng.random() < 0.7:
        conds.append(dict(value=gen()))
    if len(conds) == 1 and rng.random() < 0.4:
        return conds[0]
    return conds


def digest(paths):
    return {p: hashlib.sha256(open(p, "rb").read()).hexdigest() for p in paths}


def run(ctx, rng, cfg, out, opts=()):
    p = ctx.path(f"c{ctx_count(ctx)}.yml")
    with open(p, "w", encoding="utf-8") as f:
        yaml.safe_dump(cfg, f, allow_unicode=True, sort_keys=False)
    res = CliRunner().invoke(main, [p, out, "--quiet", *opts])
    return res


def ctx_count(ctx):
    ctx._p23 = getattr(ctx, "_p23", 0) + 1
    return ctx._p23


def model_files(out):
    if not os.path.isdir(out):
        return []
    return [f for f in os.listdir(out) if f.endswith((".safetensors", ".bin", ".index.json"))]


def gen_opts(ctx, rng):
    o, ext = [], "safetensors"
    if rng.random() < 0.4:
        o += ["--lazy-unpickle"]
        ctx.event("lazy-unpickle")
    if rng.random() < 0.3:
        o += ["--no-safe-serialization"]
        ext = "bin"
    if rng.random() < 0.4:
        o += ["--out-shard-size", str(rng.choice([10, 40, 1000]))]
    if rng.random() < 0.3:
        o += ["--async-write", "--write-threads", str(rng.randint(1, 3))]
    if rng.random() < 0.3:
        o += ["--clone-tensors"]
    if rng.random() < 0.2:
        o += ["--low-cpu-memory"]
    return o, ext


# ---- references in double precision ----------------------------------------------------------------------------------
def ref_linear(ts, ws, normalize):
    acc = sum(w * t.double() for w, t in zip(ws, ts))
    scale = sum(abs(w) * t.double().abs() for w, t in zip(ws, ts))
    cond = 1.0
    if normalize:
        s = sum(ws)
        if abs(s) < 1e-3:
            raise Skip("weights cancel")
        acc, scale = acc / s, scale / abs(s)
        cond = sum(map(abs, ws)) / abs(s)
    return acc, scale, cond


def ref_ta(base, ts, ws, normalize, lam):
    b = base.double()
    ds = [t.double() - b for t in ts]
    acc = sum((w * d for w, d in zip(ws, ds)), torch.zeros_like(b))
    scale = sum((abs(w) * (t.double().abs() + b.abs()) for w, t in zip(ws, ts)), torch.zeros_like(b))
    cond = 1.0
    if normalize:
        s = sum(ws)
        if abs(s) > 1e-8:
            if abs(s) < 1e-3:
                raise Skip("weights cancel")
            acc, scale = acc / s, scale / abs(s)
            cond = sum(map(abs, ws)) / abs(s)
    return b + lam * acc, b.abs() + abs(lam) * scale, cond


def ref_slerp(a, b, t):
    v0, v1 = a.double(), b.double()
    n0, n1 = v0.norm(), v1.norm()
    if n0 < 1e-3 or n1 < 1e-3:
        raise Skip("nearly zero")
    dot = float((v0 / n0 * (v1 / n1)).sum())
    if 0.99 < abs(dot):
        if abs(dot) < 0.9999:
            raise Skip("near the switch to lerp")
        return (1 - t) * v0 + t * v1, v0.abs() + v1.abs()
    th = torch.arccos(torch.tensor(dot, dtype=torch.float64))
    s0, s1 = torch.sin((1 - t) * th) / torch.sin(th), torch.sin(t * th) / torch.sin(th)
    m = max(float(v0.abs().max()), float(v1.abs().max()))
    return s0 * v0 + s1 * v1, (torch.zeros_like(v0) + m) * (1 + 1 / float(torch.sin(th)))


def gen_case(ctx, rng, method, n, union_like):
    """Tensors per model: {name: tensor}; index 0 is the base where there is one."""
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    nms = names(rng, rng.randint(1, 7))
    dt = {nm: rng.choice(["float32", "float32", "float16", "bfloat16"]) for nm in nms}
    models = [dict() for _ in range(n + 1)]
    for nm in nms:
        sh = rng.choice(SHAPES)
        if method == "slerp" and sh == ():
            sh = (5,)
        base, ts, kind = scenario(rng, sh or (1,), n, kind=rng.choice(["indep", "small", "one-same", "scaled", "grid"]), g=g)
        vals = [base.reshape(sh)] + [t.reshape(sh) for t in ts]
        for i, v in enumerate(vals):
            models[i][nm] = v.to(DT[dt[nm]])
    if union_like:
        for m in models:
            for nm in nms:
                if len(m) > 1 and rng.random() < 0.25:
                    del m[nm]
    return nms, models


def wl_values(ctx, rng):
    method = rng.choice(["linear", "linear", "task_arithmetic", "task_arithmetic", "slerp", "passthrough"])
    n = {"slerp": 1, "passthrough": 1}.get(method, rng.randint(1, 4))
    mode = rng.choice(["all", "all", "partial"])
    flag = rng.choice([[], ["--tensor-union"], ["-u"], ["--tensor-intersection"], ["-i"]])
    paths = None
    for turn in range(rng.choice([1, 1, 2, 3])):
        nms, models = gen_case(ctx, rng, method, n, mode == "partial")
        has_base = method in ("task_arithmetic", "slerp") or (method == "linear" and rng.random() < 0.2)
        if not has_base:
            models = models[1:]
        if paths is None:
            paths = [write_any(ctx, rng, i, m) for i, m in enumerate(models)]
        else:
            if len(paths) != len(models):
                break
            for i, m in enumerate(models):
                write_any(ctx, rng, i, m, paths[i])
            ctx.event("rewritten")
        one_run(ctx, rng, method, nms, models, paths, has_base, flag, turn)


def one_run(ctx, rng, method, nms, models, paths, has_base, flag, turn):
    num = lambda: rng.choice([0, 0.0, 1, 0.5, 0.25, 2.0, -0.5, round(rng.uniform(-1, 2), 3)])
    gp, mps = {}, [dict() for _ in models]
    listed = list(range(len(models)))
    base_listed = True
    if has_base and (method == "linear" or rng.random() < 0.5):
        base_listed = method == "linear" or rng.random() < 0.5
    if has_base and not base_listed:
        listed = listed[1:]
        ctx.event("base-not-listed")
    if not listed:
        raise Skip("no models")
    drop = rng.random() < 0.15  # a required parameter may be missing
    if method in ("linear", "task_arithmetic"):
        if rng.random() < 0.4:
            gp["weight"] = gen_setting(rng, nms, num)
        for i in range(len(models)):
            if rng.random() < (0.5 if "weight" in gp or drop else 1.0):
                mps[i]["weight"] = gen_setting(rng, nms, num)
        if rng.random() < 0.6:
            gp["normalize"] = gen_setting(rng, nms, lambda: rng.random() < 0.5) if rng.random() < 0.3 else rng.random() < 0.5
        if method == "task_arithmetic" and rng.random() < 0.5:
            gp["lambda"] = gen_setting(rng, nms, num)
    elif method == "slerp":
        if not drop:
            gp["t"] = gen_setting(rng, nms, lambda: rng.choice([0, 1, 0.5, round(rng.random(), 3)]))
    elif rng.random() < 0.7:
        (gp if rng.random() < 0.5 else mps[0])["scale"] = gen_setting(rng, nms, num)
    dtype = rng.choice([None, None, "float32", "bfloat16", "float16"])
    order = listed[:]
    rng.shuffle(order)
    if method == "passthrough" or (method == "slerp" and len(order) < 2 and base_listed):
        order = listed
    cfg = dict(merge_method=method, models=[])
    for i in order:
        e = dict(model=paths[i])
        if mps[i] or rng.random() < 0.5:
            e["parameters"] = mps[i]
        elif rng.random() < 0.5:
            e["parameters"] = None
        cfg["models"].append(e)
    if has_base:
        cfg["base_model"] = paths[0]
    if gp or rng.random() < 0.3:
        cfg["parameters"] = gp
    if dtype:
        cfg["dtype"] = dtype
    opts, ext = gen_opts(ctx, rng)
    out = ctx.path(f"out{turn}")
    before = digest(paths)
    res = run(ctx, rng, cfg, out, [*flag, *opts])
    what = lambda: f"{method} {flag} {opts} {json.dumps(cfg)[:600]}"
    ctx.ok(digest(paths) == before, "inputs-unchanged", what)

    # ---- what must come out
    inputs = sorted(set(order) | ({0} if has_base else set()))
    have = {nm: [i for i in inputs if nm in models[i]] for nm in nms}
    have = {nm: h for nm, h in have.items() if h}
    partial = any(len(h) < len(inputs) for h in have.values())
    union, inter = any(f in ("-u", "--tensor-union") for f in flag), any(f in ("-i", "--tensor-intersection") for f in flag)
    fails = None
    if partial and not union and not inter:
        fails = "missing-tensors"
    want = {}
    if fails is None:
        for nm, h in have.items():
            if inter and len(h) < len(inputs):
                continue
            g = lambda p, d=None: (lambda v: d if v is None else v)(pick((p, nm), gp))
            if method in ("linear", "task_arithmetic"):
                ws = {}
                for i in inputs:
                    w = pick(("weight", nm), mps[i] if i in order else None, gp)
                    if w is None and not (has_base and i == 0):
                        fails = "missing-parameter"
                    ws[i] = w
                if fails:
                    break
                if method == "linear" and any(ws[i] is None for i in h):
                    raise Skip("linear with a base model that has no weight")
                want[nm] = (h, ws, g("normalize", method == "linear"), g("lambda", 1.0))
            elif method == "slerp":
                if g("t") is None:
                    fails = "missing-parameter"
                    break
                want[nm] = (h, g("t"))
            else:
                want[nm] = (h, pick(("scale", nm), mps[inputs[0]] if inputs[0] in order else None, gp))
    may_fail = any(0 not in h for nm, (h, *_r) in want.items()) and method == "task_arithmetic"
    if fails:
        ctx.event("refused:" + fails)
        ctx.nontrivial(fails, method, len(models), rng.random())
        ctx.ok(res.exit_code != 0, "refusal:" + fails, what)
        ctx.ok(not model_files(out), "nothing-written", lambda: f"{model_files(out)} {what()}")
        return
    if may_fail and res.exit_code != 0:
        ctx.event("base-lacks-tensor")
        return
    if has_base and method == "slerp" and len(inputs) < 2 and res.exit_code != 0:
        raise Skip("slerp of one model")
    if not want:
        return
    if res.exit_code and "Unsupported type torch._utils._rebuild_parameter" in str(res.exception):
        ctx.event("parameters-refused-when-lazy")
        return
    ctx.ok(res.exit_code == 0, "runs", lambda: f"{res.exception!r} {what()}", stop=True)
    ctx.nontrivial(method, len(want), len(models), partial, tuple(flag), tuple(opts), rng.random())
    if partial:
        ctx.event("union" if union else "intersection")
    got, _, _ = read_checkpoint(out, ext)
    ctx.ok(set(got) == set(want), "tensor-names", lambda: f"{sorted(set(got) ^ set(want))[:5]} {what()}", stop=True)
    for nm, w in want.items():
        h = w[0]
        ts = {i: models[i][nm] for i in h}
        t0 = ts[h[0]]
        cd = dtype or str(t0.dtype).replace("torch.", "")
        eps_name = cd if EPS[cd] >= EPS[str(t0.dtype).replace("torch.", "")] else str(t0.dtype).replace("torch.", "")
        ts = {i: t.to(DT[cd]) for i, t in ts.items()}
        y = got[nm]
        ctx.ok(str(y.dtype) == "torch." + cd, "dtype", lambda: f"{nm}: {y.dtype}, not {cd}; {what()}")
        ctx.ok(tuple(y.shape) == tuple(t0.shape), "shape", lambda: f"{nm}: {tuple(y.shape)} {tuple(t0.shape)} {what()}", stop=True)
        cond = 1.0
        try:
            if method == "linear":
                ids = [i for i in h]
                ref, scale, cond = ref_linear([ts[i] for i in ids], [float(w[1][i]) for i in ids], w[2])
            elif method == "task_arithmetic":
                ids = [i for i in h if i != 0]
                if 0 not in ts:
                    ctx.ok(False, "base-invented", lambda: f"{nm} merged without its base value; {what()}")
                    continue
                ref, scale, cond = ref_ta(ts[0], [ts[i] for i in ids], [float(w[1][i]) for i in ids], w[2], float(w[3]))
            elif method == "slerp":
                if len(h) == 1:
                    ref, scale = ts[h[0]].double(), ts[h[0]].double().abs() * 0
                else:
                    ref, scale = ref_slerp(ts[0], ts[1], float(w[1]))
            else:
                s = 1.0 if w[1] is None else float(w[1])
                ref, scale = ts[h[0]].double() * s, ts[h[0]].double().abs() * abs(s) * (s != 1.0)
        except Skip:
            continue
        lim = torch.finfo(DT[cd]).max
        if bool((ref.abs() > lim / 4).any()):
            continue
        tol = (60 if eps_name == "float32" else 24) * EPS[eps_name] * scale * cond + 1e-12
        bad = ~((y.double() - ref).abs() <= tol)
        ctx.event("tensor-judged")
        ctx.event("method:" + method)
        ctx.ok(not bool(bad.any()), "value:" + method,
               lambda: f"{nm}: {int(bad.sum())} of {bad.numel()} off, got {float(y[bad].flatten()[0]):.6g} want {float(ref[bad].flatten()[0]):.6g}; {what()}")


METHODS = dict(
    linear=(False, ["weight"], ["normalize"]), task_arithmetic=(True, ["weight"], ["normalize", "lambda"]),
    ties=(True, ["weight", "density"], ["normalize", "lambda", "int8_mask"]), slerp=("one", [], ["t"]), passthrough=("single", ["scale"], []),
    breadcrumbs=(True, ["weight", "density", "gamma"], ["normalize", "lambda"]), breadcrumbs_ties=(True, ["weight", "density", "gamma"], ["normalize"]),
    nuslerp=("two", ["weight"], ["nuslerp_flatten", "nuslerp_row_wise"]), model_stock=("base2", [], ["filter_wise"]), karcher=(False, [], ["max_iter", "tol"]),
    multislerp=(False, ["weight"], ["normalize_weights"]), sce=(True, [], ["select_topk"]), nearswap=("one", [], ["t"]), arcee_fusion=("one", [], []),
)


def wl_same(ctx, rng):
    """The same checkpoints and parameters through mergekit-yaml give the same weights."""
    method = rng.choice(sorted(METHODS))
    kind, tps, gps = METHODS[method]
    n = {"one": 1, "single": 1, "two": 2}.get(kind, rng.randint(2, 3))
    has_base = kind in (True, "one", "base2") or (kind == "two" and rng.random() < 0.5)
    dtype = rng.choice(["float32", "float32", "bfloat16", "float16"])
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    cfg = llama_config(layers=rng.choice([1, 2]), hidden=8, inter=rng.choice([5, 12]), heads=2, vocab=rng.choice([7, 16]))
    cfg["torch_dtype"] = dtype
    shapes = llama_shapes(cfg)
    scen = {nm: scenario(rng, sh, n, kind=rng.choice(["indep", "small", "sparse", "scaled"]), g=g) for nm, sh in shapes.items()}
    dirs = []
    for i in range(-1 if has_base else 0, n):
        p = ctx.path(f"m{i}" if i >= 0 else "base")
        write_ckpt(p, cfg, {k: (v[0] if i < 0 else v[1][i]).to(DT[dtype]) for k, v in scen.items()}, rng.choice(["st", "bin"]), None, rng)
        dirs.append(p)
    nms = list(shapes)
    num = dict(weight=lambda: rng.choice([0.25, 0.5, 1.0, 2.0, 0.0 if method in ("task_arithmetic", "ties") else 0.75]), density=lambda: rng.choice([0.3, 0.5, 0.9, 1.0]),
               gamma=lambda: rng.choice([0.01, 0.1]), scale=lambda: rng.choice([0.5, 2.0, 0.0]), normalize=lambda: rng.random() < 0.5, int8_mask=lambda: rng.random() < 0.5,
               t=lambda: round(rng.uniform(0.05, 0.9), 2), nuslerp_flatten=lambda: rng.random() < 0.5, nuslerp_row_wise=lambda: rng.random() < 0.5, filter_wise=lambda: rng.random() < 0.5,
               max_iter=lambda: rng.randint(5, 30), tol=lambda: 1e-5, normalize_weights=lambda: True, select_topk=lambda: rng.choice([0.3, 0.7, 1.0]))
    num["lambda"] = lambda: rng.choice([0.5, 1.0, 1.5, 0.0])
    gp = {p: gen_setting(rng, nms, num[p]) if p in ("t", "lambda", "select_topk") else num[p]() for p in gps if p == "t" or rng.random() < 0.6}
    if method == "nuslerp" and gp.get("nuslerp_row_wise") and gp.get("nuslerp_flatten", True):
        gp["nuslerp_flatten"] = False
    mps = []
    share = rng.random() < 0.3
    for p in tps:
        if (share or rng.random() < 0.2) and (p != "scale" or rng.random() < 0.5):
            gp[p] = num[p]()
    if isinstance(gp.get("t"), list) and isinstance(gp["t"][0], dict) and "filter" in gp["t"][-1]:
        gp["t"] = gp["t"] + [dict(value=0.5)]
    if isinstance(gp.get("t"), dict):
        gp["t"] = dict(value=gp["t"]["value"])
    for p in ("t", "lambda", "select_topk"):
        gp[p] = flat(gp[p]) if p in gp else None
        if gp[p] is None:
            del gp[p]
    for i in range(n):
        mp = {}
        for p in tps:
            if rng.random() < (0.5 if p in gp else 1.0):
                mp[p] = flat(gen_setting(rng, nms, num[p]) if rng.random() < 0.5 else num[p]())
                if isinstance(mp[p], (list, dict)) and p not in gp:
                    mp[p] = (mp[p] if isinstance(mp[p], list) else [mp[p]]) + [dict(value=num[p]())]
        mps.append(mp)
    models = [dict(model=d, parameters=m) if m else dict(model=d) for d, m in zip(dirs[1:] if has_base else dirs, mps)]
    if has_base and kind == "one" or (has_base and rng.random() < 0.4):
        models.insert(rng.randint(0, len(models)), dict(model=dirs[0]))
    c = dict(merge_method=method, models=models, dtype=dtype)
    if gp:
        c["parameters"] = gp
    if has_base:
        c["base_model"] = dirs[0]
    ref_out = ctx.path("ref")
    try:
        run_merge(MergeConfiguration.model_validate(c), ref_out, MergeOptions(quiet=True, copy_tokenizer=False))
        ref, _, _ = read_checkpoint(ref_out)
        err = None
    except Exception as e:  # noqa: BLE001
        ref, err = None, e
    f = lambda d: [os.path.join(d, x) for x in ("model.safetensors", "pytorch_model.bin") if os.path.exists(os.path.join(d, x))][0]
    raw = dict(c, models=[dict(m, model=f(m["model"])) for m in models])
    if has_base:
        raw["base_model"] = f(dirs[0])
    opts, ext = gen_opts(ctx, rng)
    out = ctx.path("out")
    res = run(ctx, rng, raw, out, opts)
    what = lambda: f"{method}: {json.dumps(c)[:700]}"
    if err is not None:
        ctx.event("refused-by-yaml")
        return
    ctx.nontrivial(method, n, dtype, rng.random())
    ctx.ok(res.exit_code == 0, "runs-like-yaml", lambda: f"{res.exception!r} {what()}", stop=True)
    got, _, _ = read_checkpoint(out, ext)
    ctx.ok(set(got) == set(ref), "same-names", lambda: f"{sorted(set(got) ^ set(ref))[:4]} {what()}", stop=True)
    for nm in ref:
        if "embed" in nm or "lm_head" in nm:
            continue  # mergekit-yaml knows that these are embeddings
        ctx.event("same-judged")
        ctx.event("same:" + method)
        a, b = got[nm].double(), ref[nm].double()
        same = bits(got[nm]) == bits(ref[nm])
        if not same and a.shape == b.shape and got[nm].dtype == ref[nm].dtype:
            # the sum may be taken in another order
            same = float((a - b).abs().max()) <= 32 * EPS[dtype] * float(b.abs().max())
        ctx.ok(same, "same-value:" + method, lambda: f"{nm} differs by {float((got[nm].double() - ref[nm].double()).abs().max()):.3g} {what()}")


def flat(setting):
    """Without gradients, which move along layers that only mergekit-yaml knows."""
    if isinstance(setting, dict):
        return dict(setting, value=flat(setting["value"]))
    if isinstance(setting, list):
        if isinstance(setting[0], dict):
            return [flat(s) for s in setting]
        return setting[0]
    return setting


CHILD = """
import sys
from mergekit.scripts.merge_raw_pytorch import main
main(sys.argv[1:])
"""


def wl_seed(ctx, rng):
    """Randomized methods: the same seed gives the same bytes in every process."""
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    nms = names(rng, 8)
    paths = []
    for i in range(3):
        p = ctx.path(f"m{i}.safetensors")
        save(rng, p, {nm: torch.randn((6, 5), generator=g) for nm in nms}, "st")
        paths.append(p)
    method = rng.choice(["dare_linear", "dare_ties", "della"])
    pp = dict(weight=0.5, density=0.5)
    cfg = dict(merge_method=method, base_model=paths[0], models=[dict(model=p, parameters=pp) for p in paths[1:]])
    with open(ctx.path("c.yml"), "w") as f:
        yaml.safe_dump(cfg, f)
    seed = rng.randrange(1000)
    procs = [subprocess.Popen([sys.executable, "-c", CHILD, ctx.path("c.yml"), ctx.path(f"o{k}"), "--random-seed", str(seed), "--quiet"],
                              env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10**6)), OMP_NUM_THREADS="1"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for k in range(2)]
    errs = [p.communicate()[1] for p in procs]
    ctx.ok(all(p.returncode == 0 for p in procs), "seeded-runs", lambda: errs[0][-400:].decode() + errs[1][-400:].decode(), stop=True)
    a, b = (read_checkpoint(ctx.path(f"o{k}"))[0] for k in range(2))
    ctx.event("process-pair")
    ctx.nontrivial(method, seed)
    for nm in nms:
        ctx.ok(bits(a[nm]) == bits(b[nm]), "same-seed-same-result", lambda: f"{method} seed {seed}: {nm} differs between two processes")


CHECK = Check(
    prop="P23", level="exploration",
    rule="random tensor files (names, shapes, dtypes, six ways of writing them), random configurations with zero, filtered, shared and missing parameters, listed and unlisted "
    "bases, partly missing tensors with and without the union and intersection options, rewritten between runs of one process; every output tensor compared with an independent "
    "double precision value; every deterministic method compared with mergekit-yaml on the same checkpoints; randomised methods run twice under different hash seeds",
    assumptions=["floating point tensors", "one device"],
    workloads=[
        Workload("values", wl_values, 900, 40000, require=["tensor-judged", "union", "intersection", "refused:missing-tensors", "refused:missing-parameter", "rewritten", "base-not-listed",
                                                            "method:linear", "method:task_arithmetic", "method:slerp", "method:passthrough", "format:nested", "lazy-unpickle"]),
        Workload("same", wl_same, 300, 12000, require=["same-judged"]),
        Workload("seed", wl_seed, 3, 60, require=["process-pair"]),
    ],
)
