"""P08: every weight is merged with the parameter values its configuration asks for."""

import os

import yaml
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk import probe
from vk.ckpt import read_checkpoint
from vk.coded import Coded
from vk.core import Check, Skip, Workload
from vk.probe import UNSET

FILTERS = ["self_attn", "mlp", "q_proj", "down_proj", "layernorm", "norm", "embed_tokens", "lm_head", "weight",
           "layers.0.", "layers.1.", "zzz_none", "*", None, "model.", "up_proj.weight",
           "Q_PROJ", "MLP", "Layers.1.", "LM_head"]


# ---- generation ------------------------------------------------------------


def num(rng):
    return rng.choice([0, 1, 0.0, 1.0, -1.0, 0.5, 2.0, round(rng.uniform(-3, 3), 3), round(rng.uniform(0, 1), 6)])


def scalar_or_gradient(rng):
    if rng.random() < 0.5:
        return num(rng)
    return [num(rng) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 7]))]


def setting(rng, single_cond=True):
    r = rng.random()
    if r < 0.55:
        return scalar_or_gradient(rng)
    n = rng.choice([1, 1, 2, 2, 3, 4])
    conds = []
    for _ in range(n):
        d = {"value": scalar_or_gradient(rng)}
        f = rng.choice(FILTERS)
        if f is not None or rng.random() < 0.3:
            d["filter"] = f
        conds.append(d)
    if single_cond and n == 1 and rng.random() < 0.4:
        return conds[0]
    return conds


def params(rng, names, p=0.5):
    return {n: setting(rng) for n in names if rng.random() < p}


# ---- independent specification --------------------------------------------


def spec_value(st, name, t):
    """-> value or None when nothing applies."""
    if isinstance(st, (int, float)):
        return float(st)
    if isinstance(st, dict):
        st = [st]
    if st and isinstance(st[0], dict):
        for c in st:
            f = c.get("filter")
            if f in (None, "*") or f in name:
                return spec_value(c["value"], name, t)
        return None
    n = len(st)
    if n == 1:
        return float(st[0])
    pos = t * (n - 1)
    # piecewise linear through equally spaced knots
    for i in range(n - 1):
        if pos <= i + 1 or i == n - 2:
            return float(st[i] + (st[i + 1] - st[i]) * (pos - i))


def spec_param(levels, pname, tname, t, default):
    for lv in levels:
        if lv and pname in lv:
            v = spec_value(lv[pname], tname, t)
            if v is not None:
                return v
    return default


MISSING = object()


def wname(tmpl, layer):
    return tmpl.replace("{L}", str(layer))


LAYER_TMPL = ["model.layers.{L}." + s for s in (
    "input_layernorm.weight", "mlp.down_proj.weight", "mlp.gate_proj.weight", "mlp.up_proj.weight",
    "post_attention_layernorm.weight", "self_attn.q_proj.weight", "self_attn.k_proj.weight",
    "self_attn.v_proj.weight", "self_attn.o_proj.weight")]


def expand(cfg, layer_counts):
    """Configuration -> list of (output name, t, slice dict, [(model, input name)], per-model levels, global levels)."""
    glob = cfg.get("parameters")
    mod = None
    if "models" in cfg or (cfg.get("modules") and "models" in cfg["modules"]["default"]):
        mods = cfg.get("models")
        if mods is None:
            mod = cfg["modules"]["default"].get("parameters")
            mods = cfg["modules"]["default"]["models"]
        srcs = [dict(model=m["model"], layer_range=[0, layer_counts[m["model"]]], parameters=m.get("parameters"))
                for m in mods]
        base = cfg.get("base_model")
        if base and all(s["model"] != base for s in srcs):
            srcs.append(dict(model=base, layer_range=[0, layer_counts[base]], parameters=None))
        slices = [dict(sources=srcs)]
    elif "slices" in cfg:
        slices = cfg["slices"]
    else:
        mod = cfg["modules"]["default"].get("parameters")
        slices = cfg["modules"]["default"]["slices"]
    out = []

    def entry(oname, t, sl, inputs):
        sources = []
        for src, iname in zip(sl["sources"], inputs):
            sources.append((src["model"], iname, [src.get("parameters"), sl.get("parameters"), mod, glob]))
        out.append(dict(name=oname, t=t, base=sl.get("base_model") or cfg.get("base_model"), sources=sources,
                        glevels=[sl.get("parameters"), mod, glob]))

    first, last = slices[0], slices[-1]
    entry("model.embed_tokens.weight", 0.0, first, ["model.embed_tokens.weight"] * len(first["sources"]))
    L = 0
    for sl in slices:
        a = [s["layer_range"][0] for s in sl["sources"]]
        n = sl["sources"][0]["layer_range"][1] - a[0]
        for i in range(n):
            t = 1.0 if n == 1 else i / (n - 1)
            for tm in LAYER_TMPL:
                entry(wname(tm, L), t, sl, [wname(tm, x + i) for x in a])
            L += 1
    for nm in ("model.norm.weight", "lm_head.weight"):
        entry(nm, 0.0, last, [nm] * len(last["sources"]))
    return out, L


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


# ---- workload --------------------------------------------------------------


def build(ctx, rng, params_p=0.5, method=None, need_alpha=True):
    coded = Coded()
    nm = rng.choice([1, 2, 2, 3, 4])
    form = rng.choice(["models", "slices", "slices", "modules.slices", "modules.models"])
    counts = {}
    same = rng.choice([1, 2, 3, 4]) if rng.random() > 0.01 else rng.randint(33, 70)
    if same > 4:
        ctx.event("deep")
        coded.stride = 1024
        form = rng.choice(["models", "modules.models"])
    paths = []
    for m in range(nm):
        layers = same if "models" in form else rng.choice([1, 2, 3, 4, 5])
        p = ctx.path(f"m{m}")
        coded.add(p, layers, vocab=6, hidden=4, inter=4, fmt=rng.choice(["st", "st", "bin"]))
        counts[p] = layers
        paths.append(p)
    cfg = {"merge_method": method or rng.choice(["vk_probe", "vk_probe_base", "vk_probe_opt"])}
    names = ["alpha", "beta", "gamma", "delta"]
    base = rng.choice(paths) if rng.random() < 0.5 else None
    if base:
        cfg["base_model"] = base
    cfg["dtype"] = "float32"

    def p(prob=params_p):
        d = params(rng, names, prob)
        return {"parameters": d} if d else {}

    if form.endswith("models"):
        order = list(paths)
        rng.shuffle(order)
        if base and len(order) > 1 and rng.random() < 0.5:
            order.remove(base)
        models = [dict(model=x, **p()) for x in order]
        tgt = models
    else:
        slices = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            k = rng.randint(1, nm)
            chosen = rng.sample(paths, k)
            n = rng.randint(1, min(counts[c] for c in chosen))
            sl = dict(sources=[])
            for c in chosen:
                st = rng.randint(0, counts[c] - n)
                sl["sources"].append(dict(model=c, layer_range=[st, st + n], **p()))
            if rng.random() < 0.25:
                sl["base_model"] = rng.choice(chosen)
            sl.update(p())
            slices.append(sl)
        tgt = slices
    if form == "models":
        cfg["models"] = tgt
    elif form == "slices":
        cfg["slices"] = tgt
    elif form == "modules.slices":
        cfg["modules"] = {"default": dict(slices=tgt, **p())}
    else:
        cfg["modules"] = {"default": dict(models=tgt, **p())}
    cfg.update(p(0.6))
    return coded, counts, cfg, form


def run_probe(ctx, cfg, through_yaml=True, **opts):
    text = yaml.safe_dump(cfg)
    mc = MergeConfiguration.model_validate(yaml.safe_load(text))
    probe.reset()
    out = ctx.path("out")
    run_merge(mc, out, MergeOptions(copy_tokenizer=False, quiet=True, **opts))
    calls = list(probe.CALLS)
    return calls, out


def required_missing(exp, method):
    """Names of required parameters the configuration leaves unset, if any."""
    if method == "vk_probe_opt":
        return None
    for e in exp:
        for model, iname, levels in e["sources"]:
            if model == e["base"]:
                continue
            if spec_param(levels, "alpha", iname, e["t"], MISSING) is MISSING:
                return (e["name"], model)
    return None


def wl_effective(ctx, rng):
    coded, counts, cfg, form = build(ctx, rng)
    method = cfg["merge_method"]
    exp, nlayers = expand(cfg, counts)
    miss = required_missing(exp, method)
    if miss and rng.random() < 0.75:
        cfg.setdefault("parameters", {})["alpha"] = num(rng)
        exp, nlayers = expand(cfg, counts)
        miss = None
    ctx.describe(cfg)
    if miss:
        try:
            run_probe(ctx, cfg)
        except Exception as e:
            ctx.event("required-missing-rejected")
            ctx.ok("alpha" in str(e), "missing-named", lambda: f"error does not name the parameter: {e}")
            ctx.nontrivial("missing", form, method, rng.random())
            return
        ctx.fail("required-missing", f"required parameter unset for {miss} but the merge went ahead")
        return
    calls, out = run_probe(ctx, cfg)
    by_name = {}
    for c in calls:
        by_name.setdefault(c["name"], []).append(c)
    tensors, _, _ = read_checkpoint(out)
    ctx.ok(set(by_name) == {e["name"] for e in exp}, "weights-merged",
           lambda: f"{sorted(set(by_name) ^ {e['name'] for e in exp})[:6]}", stop=True)
    for e in exp:
        cs = by_name[e["name"]]
        ctx.ok(len(cs) == 1, "merged-once", lambda: e["name"], stop=True)
        c = cs[0]
        ctx.ok(float(tensors[e["name"]].reshape(-1)[0]) == c["seq"], "output-of-that-call", lambda: e["name"])
        # which sources, in which order, do we expect?
        srcs = list(e["sources"])
        base = e["base"]
        bsrc = [s for s in srcs if s[0] == base]
        rest = [s for s in srcs if s[0] != base]
        if c["kind"] == "base":
            order = rest
            ctx.ok((c["base"] is not None) == bool(bsrc), "base-tensor", lambda: f"{e['name']} base={base} got {c['base']}")
            ctx.ok(c["base_model"] == base, "base-model-arg", lambda: f"{c['base_model']} != {base}")
        else:
            order = bsrc + rest
        ids = [coded.decode(x[0]) for x in c["tensors"]]
        want = [(coded.paths.index(m), n) for m, n, _ in order]
        if not ctx.ok(ids == want, "tensor-order", lambda: f"{e['name']}: passed {ids}, configured {want}"):
            continue
        for pname in ("alpha", "beta"):
            got = c["per_model"][pname]
            for (model, iname, levels), g in zip(order, got):
                w = spec_param(levels, pname, iname, e["t"], None if pname == "alpha" and method != "vk_probe_opt" else UNSET)
                if w is None:
                    ctx.ok(g is None, "base-unset", lambda: f"{pname} for base {model} got {g}")
                    continue
                ctx.event("per-model-value-judged")
                if w == UNSET:
                    ctx.event("default-judged")
                ctx.ok(g is not None and close(float(g), w), "per-model-value",
                       lambda: f"{pname} for {os.path.basename(model)}:{iname} -> {e['name']} (t={e['t']:.3f}): used {g}, "
                               f"configured {w}; levels {levels}")
        for pname in ("gamma", "delta"):
            w = spec_param(e["glevels"], pname, e["name"], e["t"], UNSET)
            ctx.event("global-value-judged")
            ctx.ok(close(float(c["scalars"][pname]), w), "global-value",
                   lambda: f"{pname} for {e['name']} (t={e['t']:.3f}): used {c['scalars'][pname]}, configured {w}; "
                           f"levels {e['glevels']}")
        if 0 < e["t"] < 1:
            ctx.event("interior-of-gradient")
    ctx.state(form, method, nlayers, len(cfg.get("parameters") or {}), bool(cfg.get("base_model")))
    ctx.nontrivial(form, method, yaml.safe_dump(cfg))


CHECK = Check(
    prop="P08",
    level="exploration",
    rule="random configurations (models / slices / modules; per-source, per-slice, per-module and global levels; scalars, "
    "gradients of 1-7 knots, conditional lists with overlapping, absent and catch-all filters; per-slice base models) "
    "merged end to end with a recording merge method; every recorded parameter of every weight is compared with an "
    "independent evaluation of the configuration; non-trivial = a merge ran and its calls were judged; distinct by configuration",
    assumptions=["a model appears at most once among the sources of one slice",
                 "per-model filters are matched against the source weight's name, global ones against the output weight's name"],
    workloads=[
        Workload("effective", wl_effective, 2200, 20000,
                 require=["per-model-value-judged", "global-value-judged", "default-judged", "interior-of-gradient",
                          "required-missing-rejected", "deep"]),
    ],
)
