"""P24: references, recipes and options mean what was written, in every form they can be written in."""

import copy
import json
import os
import re
import shutil
import socket

import click
import torch
import yaml
from click.testing import CliRunner
from mergekit.common import ModelReference
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions, add_merge_options

from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.lora import write_adapter
from vk.models import llama_config, llama_shapes, rand_tensors, write_ckpt
from vk.recipes import recipe

WORDS = [
    "a", "model", "org/name", "./rel/m", "/abs/m", "../up", "~/m", "with space", " lead", "trail ", 'quo"te', "it's", "a:b", "#tag", "x #y", "%d", "{x}",
    "[l]", "*", "&x", "!tag", "|", ">", "null", "~", "yes", "No", "true", "1", "1e3", "0x1F", "1_000", ".5", ".inf", "2024-01-01", "=", "<<", "-", "--", "- a", "? b",
    "union", "base", "linear", "", "é", "模型", "a\u2028b", "tab\tx", "line\nbreak", "\\n", "C:\\m", "C:m", "@", "+", "a@b", "a+b", "a@b+c@d", "`x`", "😀", "a,b", "{}", "[]",
]


def word(rng):
    r = rng.random()
    if r < 0.7:
        return rng.choice(WORDS)
    return "".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))


def ref_dict(rng):
    d = dict(model=dict(path=word(rng)))
    if rng.random() < 0.3:
        d["model"]["revision"] = rng.choice([word(rng), "main", None])
    if rng.random() < 0.4:
        d["lora"] = dict(path=word(rng))
        if rng.random() < 0.3:
            d["lora"]["revision"] = word(rng)
    if rng.random() < 0.2:
        d["override_architecture"] = rng.choice(["LlamaForCausalLM", word(rng)])
    return d


def facts(r):
    """What a reference says, read off its fields."""
    return (r.model.path, r.model.revision, r.lora and (r.lora.path, r.lora.revision), r.override_architecture)


def said(d):
    lo = d.get("lora")
    return (d["model"]["path"], d["model"].get("revision"), lo and (lo["path"], lo.get("revision")), d.get("override_architecture"))


def parse(s):
    """The documented string form, read independently: path[@revision][+path[@revision]]; None if it is not one."""
    m = re.fullmatch(r"([^@+]*)(?:@([^@+]*))?(?:\+([^@+]*)(?:@([^@+]*))?)?", s, re.S)
    if not m:
        return None
    return (m[1], m[2], None if m[3] is None else (m[3], m[4]), None)


def wl_refs(ctx, rng):
    # the string form
    for _ in range(10):
        s = word(rng) + rng.choice(["", "", "@" + word(rng), "+" + word(rng), "@v1+" + word(rng), "+" + word(rng) + "@r2"])
        exp = parse(s)
        try:
            got = facts(ModelReference.model_validate(s))
        except Exception as e:
            ctx.ok(exp is None, "string-refused", lambda: f"{s!r}: {type(e).__name__} {str(e)[:200]}")
            ctx.event("bad-string")
            continue
        ctx.ok(exp is not None, "bad-string-accepted", lambda: f"{s!r} was read as {got}")
        ctx.ok(got == exp, "string-form", lambda: f"{s!r} was read as {got}, says {exp}")
        ctx.event("string-read")
    for _ in range(10):
        d = ref_dict(rng)
        held = copy.deepcopy(d)
        r = ModelReference.model_validate(d)
        ctx.ok(d == held, "input-changed", lambda: f"{held} became {d}")
        ctx.ok(facts(r) == said(d), "mapping-form", lambda: f"{d} was read as {facts(r)}")
        forms = dict(
            dict=lambda: r.model_dump(), json_dict=lambda: r.model_dump(mode="json"), json=lambda: json.loads(r.model_dump_json()),
            yaml=lambda: yaml.safe_load(yaml.safe_dump(r.model_dump(mode="json"))),
        )
        for k, f in forms.items():
            try:
                w = f()
                back = ModelReference.model_validate(w)
            except Exception as e:
                ctx.fail("reference-write", f"{d}: written as {k}: {type(e).__name__}: {str(e)[:200]}")
                continue
            ctx.ok(facts(back) == said(d), "reference-round-trip", lambda: f"{d} written as {k} is {w!r}, which reads {facts(back)}")
            ctx.ok(back == r and hash(back) == hash(r), "reference-equality", lambda: f"{d} via {k}")
            ctx.event("form:" + k)
        ctx.nontrivial(json.dumps(d, sort_keys=True))


def number(rng):
    return rng.choice([0, 1, -1, 0.5, 1e-5, 1e-30, 1e22, 3.0, 1 / 3, float("inf"), 12345678901234567, round(rng.uniform(-2, 2), 6), True, False, 0.1 + 0.2])


def setting(rng, depth=0):
    r = rng.random()
    if r < 0.4:
        return number(rng)
    if r < 0.6:
        return [number(rng) for _ in range(rng.randint(1, 5))]
    cond = lambda: dict(value=number(rng) if rng.random() < 0.6 else [number(rng) for _ in range(2)], **(dict(filter=rng.choice(["mlp", "*", "self_attn", word(rng)])) if rng.random() < 0.7 else {}))
    return cond() if r < 0.75 else [cond() for _ in range(rng.randint(1, 4))]


def params(rng):
    return {rng.choice(["weight", "density", "t", "lambda", "normalize", word(rng) or "x"]): setting(rng) for _ in range(rng.randint(1, 3))}


def maybe(rng, p, d, k, v):
    if rng.random() < p:
        d[k] = v()


def ref_any(rng):
    if rng.random() < 0.4:
        return rng.choice(["a", "org/b", "c@v2", "d+e", "with space", "/x/y z", "é", "f@r+g@s", "'q'", "1", "null"])
    d = ref_dict(rng)
    if rng.random() < 0.3 and "revision" not in d["model"]:
        d["model"] = d["model"]["path"] if not set(d["model"]["path"]) & set("@+") else d["model"]
    return d


def config(rng):
    inp = lambda: dict(model=ref_any(rng), **(dict(parameters=params(rng)) if rng.random() < 0.5 else {}))

    def sl():
        d = dict(sources=[dict(inp(), layer_range=rng.choice([[0, 4], [3, 4], (1, 9)])) for _ in range(rng.randint(1, 3))])
        maybe(rng, 0.3, d, "base_model", lambda: ref_any(rng))
        maybe(rng, 0.1, d, "residual_weight", lambda: 0.5)
        maybe(rng, 0.3, d, "parameters", lambda: params(rng))
        return d

    c = dict(merge_method=rng.choice(["linear", "ties", "slerp", word(rng)]))
    form = rng.choice(["models", "slices", "modules"])
    if form == "models":
        c["models"] = [inp() for _ in range(rng.randint(1, 4))]
    elif form == "slices":
        c["slices"] = [sl() for _ in range(rng.randint(1, 3))]
    else:
        c["modules"] = {}
        for nm in rng.sample(["default", "encoder", "decoder", "text_decoder", word(rng)], rng.randint(1, 3)):
            m = dict(models=[inp()]) if rng.random() < 0.5 else dict(slices=[sl()])
            maybe(rng, 0.3, m, "parameters", lambda: params(rng))
            c["modules"][nm] = m
    maybe(rng, 0.6, c, "base_model", lambda: ref_any(rng))
    maybe(rng, 0.5, c, "dtype", lambda: rng.choice(["float16", "bfloat16", "float32"]))
    maybe(rng, 0.3, c, "out_dtype", lambda: rng.choice(["float16", "bfloat16"]))
    maybe(rng, 0.5, c, "parameters", lambda: params(rng))
    maybe(rng, 0.4, c, "chat_template", lambda: rng.choice(["auto", "chatml", "{% for m in messages %}\n  {{ m['content'] }}\n{% endfor %}\n", "{{ 1 }}  \n\n", "null", word(rng) + "{}\t "]))
    src = lambda: rng.choice(["union", "base", ref_any(rng)])
    r = rng.random()
    if r < 0.2:
        c["tokenizer_source"] = src()
    elif r < 0.6:
        t = {}
        maybe(rng, 0.8, t, "source", src)
        maybe(rng, 0.3, t, "pad_to_multiple_of", lambda: rng.choice([1, 64]))
        if rng.random() < 0.7:
            t["tokens"] = {}
            for _ in range(rng.randint(1, 4)):
                e = {}
                k = rng.choice(["model", "token", "id", "zero", "none"])
                if k == "model":
                    e["source"] = ref_any(rng)
                elif k == "token":
                    e["source"] = dict(kind="model_token", model=ref_any(rng), token=word(rng))
                elif k == "id":
                    e["source"] = dict(kind="model_token", model=ref_any(rng), token_id=rng.randrange(9))
                elif k == "zero":
                    e["source"] = dict(kind="zero")
                maybe(rng, 0.5, e, "force", lambda: rng.random() < 0.5)
                t["tokens"][rng.choice(["<|im_start|>", "[PAD]", word(rng)])] = e
        c["tokenizer"] = t
    return c, form


def model_facts(ref):
    """A reference as a user wrote it in a recipe."""
    if isinstance(ref, str):
        return parse(ref)
    m, lo = ref["model"], ref.get("lora")
    part = lambda x: parse(x)[:2] if isinstance(x, str) else (x["path"], x.get("revision"))
    return part(m) + (lo and part(lo), ref.get("override_architecture"))


def same_number(a, b):
    return float(a) == float(b)


def check_setting(ctx, got, want, where):
    """The parsed setting says what was written: numbers, gradients and conditional values."""
    if isinstance(want, (int, float)):
        ok = isinstance(got, (int, float)) and same_number(got, want)
    elif isinstance(want, dict):
        got = got[0] if isinstance(got, list) and len(got) == 1 else got
        ok = getattr(got, "filter", 0) == want.get("filter")
        if ok:
            check_setting(ctx, got.value, want["value"], where)
    elif all(isinstance(x, (int, float)) for x in want):
        ok = isinstance(got, list) and len(got) == len(want) and all(same_number(x, y) for x, y in zip(got, want))
    else:
        ok = isinstance(got, list) and len(got) == len(want)
        if ok:
            for x, y in zip(got, want):
                check_setting(ctx, x, y, where)
    ctx.ok(ok, "setting-read", lambda: f"{where}: wrote {want}, read {got}")


def check_params(ctx, got, want, where):
    if want is not None:
        ctx.ok(got is not None and set(got) == set(want), "setting-names", lambda: f"{where}: {want} / {got}", stop=True)
        for k in want:
            check_setting(ctx, got[k], want[k], f"{where}.{k}")
    else:
        ctx.ok(not got, "setting-names", lambda: f"{where}: nothing written, {got} read")


def judge(ctx, cfg, c, how):
    """Compare the parsed configuration with what was written, field by field."""
    ref = lambda got, want, where: ctx.ok(
        (got is None) if want is None else (got is not None and not isinstance(got, str) and facts(got) == model_facts(want)),
        "recipe-model", lambda: f"{how} {where}: wrote {want}, read {got!r}")

    def source(got, want, where):
        if want in ("union", "base"):
            ctx.ok(got == want, "recipe-source", lambda: f"{how} {where}: wrote {want}, read {got!r}")
        else:
            ref(got, want, where)

    def inputs(got, want, where):
        ctx.ok(len(got) == len(want), "recipe-count", lambda: f"{how} {where}", stop=True)
        for i, (g, w) in enumerate(zip(got, want)):
            ref(g.model, w["model"], f"{where}[{i}]")
            check_params(ctx, g.parameters, w.get("parameters"), f"{how} {where}[{i}]")
            if "layer_range" in w:
                ctx.ok(tuple(g.layer_range) == tuple(w["layer_range"]), "recipe-range", lambda: f"{how} {where}[{i}]")

    def slices(got, want, where):
        ctx.ok(len(got) == len(want), "recipe-count", lambda: f"{how} {where}", stop=True)
        for i, (g, w) in enumerate(zip(got, want)):
            inputs(g.sources, w["sources"], f"{where}[{i}]")
            ref(g.base_model, w.get("base_model"), f"{where}[{i}].base_model")
            check_params(ctx, g.parameters, w.get("parameters"), f"{how} {where}[{i}]")

    for f in ("merge_method", "dtype", "out_dtype", "chat_template"):
        ctx.ok(getattr(cfg, f) == c.get(f), "recipe-field", lambda: f"{how} {f}: wrote {c.get(f)!r}, read {getattr(cfg, f)!r}")
    ref(cfg.base_model, c.get("base_model"), "base_model")
    check_params(ctx, cfg.parameters, c.get("parameters"), how)
    if "models" in c:
        inputs(cfg.models, c["models"], "models")
    if "slices" in c:
        slices(cfg.slices, c["slices"], "slices")
    if "modules" in c:
        ctx.ok(set(cfg.modules) == set(c["modules"]), "recipe-modules", how, stop=True)
        for k, w in c["modules"].items():
            g = cfg.modules[k]
            if "models" in w:
                inputs(g.models, w["models"], f"modules.{k}")
            else:
                slices(g.slices, w["slices"], f"modules.{k}")
            check_params(ctx, g.parameters, w.get("parameters"), f"{how} modules.{k}")
    if "tokenizer_source" in c:
        source(cfg.tokenizer_source, c["tokenizer_source"], "tokenizer_source")
    if "tokenizer" in c:
        t = c["tokenizer"]
        source(cfg.tokenizer.source, t.get("source", "union"), "tokenizer.source")
        ctx.ok(cfg.tokenizer.pad_to_multiple_of == t.get("pad_to_multiple_of"), "recipe-field", how)
        got = cfg.tokenizer.tokens or {}
        ctx.ok(set(got) == set(t.get("tokens", {})), "recipe-tokens", lambda: f"{how}: {sorted(got)} / {sorted(t.get('tokens', {}))}", stop=True)
        for k, w in t.get("tokens", {}).items():
            g, s = got[k], w.get("source")
            ctx.ok(g.force == w.get("force", False), "recipe-token", lambda: f"{how} {k!r}: {w} / {g}")
            if s is None:
                ctx.ok(g.source is None, "recipe-token", lambda: f"{how} {k!r}: {w} / {g}")
            elif isinstance(s, dict) and s.get("kind") == "zero":
                ctx.ok(getattr(g.source, "kind", None) == "zero", "recipe-token", lambda: f"{how} {k!r}: {w} / {g}")
            elif isinstance(s, dict) and "kind" in s:
                ctx.ok(getattr(g.source, "kind", None) == "model_token" and g.source.token == s.get("token") and g.source.token_id == s.get("token_id"),
                       "recipe-token", lambda: f"{how} {k!r}: {w} / {g}", stop=True)
                ref(g.source.model, s["model"], f"token {k!r}")
            else:
                ref(g.source, s, f"token {k!r}")


def wl_recipes(ctx, rng):
    c, form = config(rng)
    ctx.describe(c)
    held = copy.deepcopy(c)
    cfg = MergeConfiguration.model_validate(c)
    ctx.ok(c == held, "input-changed", lambda: f"{held} became {c}")
    judge(ctx, cfg, c, "dict")
    text = yaml.safe_dump(json.loads(json.dumps(c)), allow_unicode=rng.random() < 0.5, default_flow_style=rng.choice([None, True, False]), sort_keys=rng.random() < 0.5)
    judge(ctx, MergeConfiguration.model_validate(yaml.safe_load(text)), c, "yaml")
    try:
        y = cfg.to_yaml()
        forms = dict(to_yaml=yaml.safe_load(y), json=json.loads(cfg.model_dump_json()), dict=cfg.model_dump(), sparse=cfg.model_dump(exclude_defaults=True, mode="json"))
    except Exception as e:
        ctx.fail("recipe-write", f"{type(e).__name__}: {str(e)[:300]}", stop=True)
    for k, w in forms.items():
        if k == "json" and "Infinity" not in json.dumps(c):
            back = MergeConfiguration.model_validate(w)
        elif k == "json":
            continue  # JSON has no infinity
        else:
            back = MergeConfiguration.model_validate(w)
        judge(ctx, back, c, k)
        ctx.ok(back == cfg, "recipe-round-trip", lambda: f"via {k}: {w}")
        ctx.event("recipe-form:" + k)
    back = MergeConfiguration.model_validate(yaml.safe_load(y))
    ctx.ok(back.to_yaml() == y, "recipe-stable", "writing the recipe twice gives different text")
    ctx.ok(back.referenced_models() == cfg.referenced_models(), "recipe-models", "order of the referenced models")
    ctx.event("recipe:" + form)
    ctx.nontrivial(json.dumps(c, sort_keys=True, default=str))


NAMES = ["plain", "with space", "quo\"te", "it's", "a@b", "a+b", "x@y+z@w", "é模", "c:d", "#h", "{b}", "%s", "~", "null", "union", "base", "1", "-dash", "*", "a.b", "tab\tx", "`t`", "$HOME", "[x]"]


def network_used(*a, **k):
    raise OSError("no network")


def wl_rerun(ctx, rng):
    """Merges of models in oddly named places; the recipe left with the result is the recipe, and produces it again."""
    c, info = recipe(ctx, rng, tokenizer=None)
    names = rng.sample(NAMES, len(info["paths"]))
    rel = rng.random() < 0.5
    sub = rng.random() < 0.5
    where = {}
    for p, nm in zip(info["paths"], names):
        q = os.path.join(*(["in", nm] if sub else ["base_" if nm == "base" else nm]))
        os.makedirs(os.path.dirname(ctx.path(q)), exist_ok=True)
        os.rename(p, ctx.path(q))
        where[p] = q if rel else ctx.path(q)

    def place(x):
        if isinstance(x, dict):
            return {k: place(v) for k, v in x.items()}
        if isinstance(x, list):
            return [place(v) for v in x]
        if isinstance(x, str) and x in where:
            w = where[x]
            if set(w) & set("@+") or rng.random() < 0.2 or (w in ("union", "base")):
                return dict(model=dict(path=w))
            return w
        return x

    c = place(c)
    ctx.describe(dict(config=c, rel=rel))
    opts = dict(quiet=True, copy_tokenizer=rng.random() < 0.5)
    how = rng.choice(["api", "api", "api-source", "cli"])
    text = "# a comment\n" + yaml.safe_dump(c, allow_unicode=True) + "\n"
    real, cwd = socket.getaddrinfo, os.getcwd()
    os.chdir(ctx.scratch)
    socket.getaddrinfo = network_used
    try:
        if how == "api":
            cfg = MergeConfiguration.model_validate(copy.deepcopy(c))
            run_merge(cfg, "out", MergeOptions(**opts))
            if rng.random() < 0.5:
                # the configuration object can be used again
                run_merge(cfg, "again", MergeOptions(**opts))
                compare(ctx, "out", "again", "object-reused")
        elif how == "api-source":
            run_merge(MergeConfiguration.model_validate(c), "out", MergeOptions(**opts), config_source=text)
        else:
            from mergekit.scripts.run_yaml import main

            with open("recipe file.yml", "w", encoding="utf-8") as f:
                f.write(text)
            r = CliRunner().invoke(main, ["recipe file.yml", "out", "--quiet", "--copy-tokenizer" if opts["copy_tokenizer"] else "--no-copy-tokenizer"], catch_exceptions=True)
            if r.exception is not None:
                raise r.exception
        with open("out/mergekit_config.yml", encoding="utf-8") as f:
            left = f.read()
        with open("out/README.md", encoding="utf-8") as f:
            card = f.read()
        if how != "api":
            ctx.ok(left == text, "recipe-verbatim", lambda: f"{left!r} is not the given file")
        ctx.ok(left in card, "recipe-in-card", lambda: f"{card[-800:]!r}")
        for w in where.values():
            ctx.ok(w in card, "card-names-models", lambda: f"{w!r} is not in the model card")
        meta = yaml.safe_load(card.split("---\n")[1])
        ctx.ok("mergekit" in meta["tags"] and not set(meta["base_model"] or []) & set(where.values()), "card-metadata", lambda: f"{meta}")
        run_merge(MergeConfiguration.model_validate(yaml.safe_load(left)), "rerun", MergeOptions(**opts))
        compare(ctx, "out", "rerun", "recipe-reproduces")
    finally:
        socket.getaddrinfo = real
        os.chdir(cwd)
    ctx.event("run:" + how)
    ctx.event("paths:" + ("relative" if rel else "absolute"))
    ctx.nontrivial(info["method"], how, rel, tuple(names))


def compare(ctx, a, b, key):
    x, y = read_checkpoint(a)[0], read_checkpoint(b)[0]
    ctx.ok(set(x) == set(y), key, lambda: f"weights {sorted(set(x) ^ set(y))[:5]}", stop=True)
    for k in x:
        ctx.event("weight-compared")
        ctx.ok(x[k].dtype == y[k].dtype and torch.equal(torch.nan_to_num(x[k].float()), torch.nan_to_num(y[k].float())), key, lambda: f"{k} differs")
    for f in ("config.json", "tokenizer.json", "tokenizer_config.json"):
        p, q = os.path.join(a, f), os.path.join(b, f)
        ctx.ok(os.path.exists(p) == os.path.exists(q), key, lambda: f"{f} only in one of them")
        if os.path.exists(p):
            ctx.ok(json.load(open(p)) == json.load(open(q)), key, lambda: f"{f} differs")


def wl_adapter(ctx, rng):
    """Base and adapter in oddly named places, in string and mapping form."""
    from vk.models import tiny_llama

    base, ad = ctx.path(*rng.choice([["m"], ["with space"], ["b+c"], ["b@c"], ["é"]])), ctx.path("x", rng.choice(["ad", "a d", "a+d", "a@d", "a'd"]))
    tiny_llama(base, seed=rng.randrange(1 << 20), layers=1)
    t = read_checkpoint(base)[0]
    write_adapter(rng, ad, base, t, ["q_proj", "down_proj"])
    ref = dict(model=dict(path=base), lora=dict(path=ad))
    forms = [ref]
    if not set(base + ad) & set("@+"):
        forms.append(f"{base}+{ad}")
        ctx.event("string-form")
    got = []
    for i, r in enumerate(forms):
        c = dict(merge_method="linear", models=[dict(model=r, parameters=dict(weight=1.0))])
        out = ctx.path(f"out{i}")
        o = MergeOptions(quiet=True, copy_tokenizer=False, lora_merge_cache=ctx.path(f"cache{i}"))
        run_merge(MergeConfiguration.model_validate(c), out, o)
        got.append(read_checkpoint(out)[0])
        left = yaml.safe_load(open(os.path.join(out, "mergekit_config.yml"), encoding="utf-8"))
        run_merge(MergeConfiguration.model_validate(left), ctx.path(f"re{i}"), o)
        compare(ctx, out, ctx.path(f"re{i}"), "recipe-reproduces")
    for g in got[1:]:
        for k in g:
            ctx.ok(torch.equal(g[k], got[0][k]), "forms-agree", lambda: k)
    ctx.ok(any(not torch.equal(got[0][k], t[k]) for k in t), "adapter-applied", "nothing changed")
    ctx.event("adapter-run")
    ctx.nontrivial(os.path.basename(base), os.path.basename(ad), rng.random())


# flag -> (field, value); what the help text says
FLAGS = {
    "--allow-crimes": ("allow_crimes", True), "--no-allow-crimes": ("allow_crimes", False), "--cuda": ("cuda", True), "--no-cuda": ("cuda", False),
    "--low-cpu-memory": ("low_cpu_memory", True), "--copy-tokenizer": ("copy_tokenizer", True), "--no-copy-tokenizer": ("copy_tokenizer", False),
    "--clone-tensors": ("clone_tensors", True), "--no-clone-tensors": ("clone_tensors", False), "--trust-remote-code": ("trust_remote_code", True),
    "--no-trust-remote-code": ("trust_remote_code", False), "--lazy-unpickle": ("lazy_unpickle", True), "--no-lazy-unpickle": ("lazy_unpickle", False),
    "--write-model-card": ("write_model_card", True), "--no-write-model-card": ("write_model_card", False), "--safe-serialization": ("safe_serialization", True),
    "--no-safe-serialization": ("safe_serialization", False), "--quiet": ("quiet", True), "--no-quiet": ("quiet", False), "--read-to-gpu": ("read_to_gpu", True),
    "--multi-gpu": ("multi_gpu", True), "--no-multi-gpu": ("multi_gpu", False), "--gpu-rich": ("gpu_rich", True), "--async-write": ("async_write", True),
    "--no-async-write": ("async_write", False), "-v": ("verbosity", None),
}
VALUES = {
    "--transformers-cache": ("transformers_cache", lambda r: r.choice(["/c", "c d", "é"])), "--lora-merge-cache": ("lora_merge_cache", lambda r: r.choice(["/c", "x y"])),
    "--lora-merge-dtype": ("lora_merge_dtype", lambda r: r.choice(["float16", "bfloat16"])), "--device": ("device", lambda r: r.choice(["cpu", "auto", "cuda:1", "xpu", "mps"])),
    "--random-seed": ("random_seed", lambda r: r.choice([0, 1, 42, 2**31])), "--num-threads": ("num_threads", lambda r: r.choice([1, 3])), "-j": ("num_threads", lambda r: r.choice([2, 5])),
    "--write-threads": ("write_threads", lambda r: r.choice([1, 2, 9])),
    "--out-shard-size": ("out_shard_size", lambda r: f"{r.choice([1, 2, 5, 37, 1000])}{r.choice(['', 'k', 'K', 'm', 'M', 'b', 'B'])}"),
}
DEFAULTS = dict(
    allow_crimes=False, transformers_cache=None, lora_merge_cache=None, lora_merge_dtype=None, cuda=False, low_cpu_memory=False, out_shard_size=5 * 10**9,
    copy_tokenizer=True, clone_tensors=False, trust_remote_code=False, random_seed=None, lazy_unpickle=False, write_model_card=True, safe_serialization=True,
    verbosity=0, quiet=False, read_to_gpu=False, multi_gpu=False, num_threads=None, gpu_rich=False, async_write=False, write_threads=1,
)
UNIT = {"k": 10**3, "m": 10**6, "b": 10**9}


def wl_options(ctx, rng):
    held = []

    @click.command()
    @click.argument("x")
    @add_merge_options
    def tool(merge_options, x):
        held.append((x, merge_options))

    for _ in range(8):
        want, args, device = dict(DEFAULTS), [], None
        for f in rng.sample(sorted(FLAGS), rng.choice([0, 1, 2, 4, 8])):
            k, v = FLAGS[f]
            args.append([f])
            want[k] = v if v is not None else want[k]
        for f in rng.sample(sorted(VALUES), rng.choice([0, 1, 2, 4])):
            k, gen = VALUES[f]
            v = gen(rng)
            args.append([f, str(v)] if rng.random() < 0.6 or len(f) == 2 else [f"{f}={v}"])
            if k == "out_shard_size":
                v = int(v) if v[-1].isdigit() else int(v[:-1]) * UNIT[v[-1].lower()]
            want[k] = v
        rng.shuffle(args)
        last = {}
        for a in args:  # the later of two contradicting ones counts
            f = a[0].split("=")[0]
            if f in FLAGS and f != "-v":
                last[FLAGS[f][0]] = FLAGS[f][1]
            elif f == "-v":
                last["verbosity"] = last.get("verbosity", 0) + 1
            else:
                k = VALUES[f][0]
                v = a[1] if len(a) == 2 else a[0].split("=", 1)[1]
                last[k] = v
        want.update({k: v for k, v in last.items() if k in ("verbosity",) or isinstance(v, bool)})
        if "num_threads" in last:
            want["num_threads"] = int(last["num_threads"])
        if want["gpu_rich"]:
            for k in ("cuda", "low_cpu_memory", "read_to_gpu", "multi_gpu"):
                want[k] = True
        device = last.get("device")
        want["device"] = ("cuda" if want["cuda"] else "cpu") if device is None else "cpu" if device == "auto" else device
        flat = [x for a in args for x in a]
        r = CliRunner().invoke(tool, flat + ["arg"])
        if r.exception is not None:
            ctx.fail("options-refused", f"{flat}: {r.output[-300:]} {r.exception!r}", stop=True)
        x, o = held.pop()
        for k, v in want.items():
            ctx.ok(getattr(o, k) == v, "option-value", lambda: f"{flat}: {k} is {getattr(o, k)!r}, documented {v!r}")
            ctx.event("option-compared")
        # the same through the Python interface, from a dict that stays as it was
        d = {k: v for k, v in want.items() if v != DEFAULTS.get(k) and k != "device"}
        if device is not None:
            d["device"] = device
        keep = dict(d)
        p = MergeOptions.model_validate(d)
        ctx.ok(d == keep, "input-changed", lambda: f"{keep} became {d}")
        ctx.ok(p == o, "interfaces-agree", lambda: f"{flat}: {o} / {p}")
        ctx.nontrivial(tuple(sorted(flat)))
    bad = rng.choice(["5x", "k", "1.5.2b", "-", "five", "5 gb", "0x10", "B"])
    r = CliRunner().invoke(tool, ["--out-shard-size", bad, "arg"])
    ctx.ok(r.exception is not None and not held, "bad-size-accepted", lambda: f"{bad} was taken for {held[-1][1].out_shard_size}")
    ctx.event("bad-size")


def wl_seeds(ctx, rng):
    """A random seed, zero included, fixes everything a merge draws; another one gives another draw."""
    from mergekit.scripts.merge_raw_pytorch import main as raw_main
    from mergekit.scripts.run_yaml import main as yaml_main

    raw = rng.random() < 0.3
    cfg = llama_config(layers=1, hidden=32, inter=16, heads=2, vocab=64)
    paths = []
    for i in range(3):
        paths.append(ctx.path(f"m{i}"))
        write_ckpt(paths[-1], cfg, rand_tensors(llama_shapes(cfg), rng.randrange(1 << 30)), "st", None, rng)
    c = dict(merge_method=rng.choice(["dare_linear", "dare_ties", "della"]), base_model=paths[0], dtype="float32",
             models=[dict(model=p, parameters=dict(weight=0.5, density=0.5)) for p in paths[1:]])
    if raw:
        c["base_model"] += "/model.safetensors"
        for m in c["models"]:
            m["model"] += "/model.safetensors"
        ctx.event("raw")
    y = ctx.path("c.yml")
    with open(y, "w") as f:
        yaml.dump(c, f)
    seeds = [rng.choice([0, 0, 1, 42, 2**31, 2**32 - 1])]
    seeds.append(rng.choice([x for x in (0, 1, 7, 12345) if x != seeds[0]]))
    ctx.describe(dict(config=c, seeds=seeds))
    got = {}
    for k in range(2):
        for s in seeds:
            torch.manual_seed(rng.randrange(1 << 30))  # whatever the process drew before
            out = ctx.path(f"o{k}{s}")
            if raw or rng.random() < 0.5:
                r = CliRunner().invoke(raw_main if raw else yaml_main, [y, out, "--random-seed", str(s), "--quiet"] + ([] if raw else ["--no-copy-tokenizer"]))
                if r.exception is not None:
                    raise r.exception
            else:
                o = MergeOptions(random_seed=s, quiet=True, copy_tokenizer=False)
                o.apply_global_options()
                run_merge(MergeConfiguration.model_validate(c), out, o)
            got[k, s] = read_checkpoint(out)[0]
            ctx.event("seed:0" if s == 0 else "seed:other")
    for s in seeds:
        a, b = got[0, s], got[1, s]
        ctx.ok(all(torch.equal(a[n], b[n]) for n in a), "seed-reproduces", lambda: f"{c['merge_method']}: two runs with seed {s} differ")
    a, b = got[0, seeds[0]], got[0, seeds[1]]
    ctx.ok(any(not torch.equal(a[n], b[n]) for n in a), "seeds-differ", lambda: f"{c['merge_method']}: seeds {seeds} draw the same")
    ctx.nontrivial(c["merge_method"], tuple(seeds))


CHECK = Check(
    prop="P24",
    level="exploration",
    rule="references and whole recipes generated from a grammar over 70 hostile strings (YAML words and indicators, '@', '+', quotes, blanks, control and "
    "non-ASCII characters), every field judged against what was written after reading each of the dict, YAML, JSON and to_yaml forms; complete merges of models in "
    "hostile places re-run from the recipe left with the result and compared bit for bit, with name resolution refused by the monitor; random command lines judged "
    "against the documented table of options; distinct by reference, recipe, or command line",
    workloads=[
        Workload("refs", wl_refs, 400, 20000, require=["string-read", "bad-string", "form:yaml", "form:json", "form:dict"]),
        Workload("recipes", wl_recipes, 1500, 60000, require=["recipe:models", "recipe:slices", "recipe:modules", "recipe-form:to_yaml", "recipe-form:json"]),
        Workload("rerun", wl_rerun, 160, 4000, require=["run:api", "run:cli", "run:api-source", "paths:relative", "paths:absolute", "weight-compared"]),
        Workload("adapter", wl_adapter, 40, 600, require=["adapter-run", "string-form"]),
        Workload("seeds", wl_seeds, 40, 400, require=["seed:0", "seed:other", "raw"]),
        Workload("options", wl_options, 200, 5000, require=["option-compared", "bad-size"]),
    ],
)
