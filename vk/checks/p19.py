"""P19: a model reference with an adapter stands for the base model with the adapter merged in."""

import copy
import hashlib
import json
import os
import shutil
import subprocess
import sys
import warnings

import torch
import yaml
from mergekit.common import ModelReference
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk.archs import make
from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.lora import applied, write_adapter
from vk.methods import DT, EPS
from vk.models import write_ckpt
from vk.recipes import recipe
from vk.toks import CHARS, SPECIAL, load, write_tokenizer

warnings.simplefilter("ignore")
TARGETS = ["q_proj", "k_proj", "v_proj", "o_proj", "gate_proj", "up_proj", "down_proj"]


def digest(path):
    out = {}
    for root, _, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, path)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return out


def subst(c, m):
    """Replace model names throughout a configuration."""
    if isinstance(c, dict):
        return {k: subst(v, m) for k, v in c.items()}
    if isinstance(c, list):
        return [subst(v, m) for v in c]
    return m.get(c, c) if isinstance(c, str) else c


def equal(ctx, key, got, want, tol, what, absolute=1e-6):
    ctx.ok(set(got) == set(want), key + "-names", lambda: f"{what}: {sorted(set(got) ^ set(want))[:4]}", stop=True)
    for k in want:
        a, b = got[k], want[k]
        ctx.event("weight-compared")
        if not ctx.ok(a.shape == b.shape and a.dtype == b.dtype, key + "-kind", lambda: f"{what} {k}: {a.dtype} {tuple(a.shape)} / {b.dtype} {tuple(b.shape)}"):
            continue
        a, b = a.double(), b.double()
        nan = torch.isnan(a) & torch.isnan(b)
        ctx.ok(bool((((a - b).abs() <= tol * b.abs() + absolute * (tol > 0)) | nan).all()), key, lambda: f"{what} {k}: differs by {float((a - b).abs().max())}")


def options(rng, ctx, **kw):
    o = dict(quiet=True, copy_tokenizer=False, write_model_card=False, lora_merge_cache=ctx.path("cache"))
    if rng.random() < 0.2:
        o["lazy_unpickle"] = True
    if rng.random() < 0.2:
        o["multi_gpu"] = False
    o.update(kw)
    return MergeOptions(**o)


def wl_merge(ctx, rng):
    """A whole merge of references with adapters equals the merge of the models they stand for."""
    c, info = recipe(ctx, rng, dtypes=("float32", "float32", "bfloat16"), methods=["linear", "task_arithmetic", "ties", "passthrough", "slerp", "nuslerp", "breadcrumbs",
                                                                                 "sce", "karcher", "nearswap", "arcee_fusion", "model_stock"])
    lt = rng.choice([None, None, "float32", "bfloat16"])
    m1, m2 = {}, {}
    tie = info["cfg"]["tie_word_embeddings"]
    picked = [i for i in range(len(info["paths"])) if rng.random() < 0.6] or [0]
    before = {}
    # two references to the same base with different adapters, or to the same adapter
    onto = {}
    bi = info["paths"].index(c["base_model"]) if c.get("base_model") in info["paths"] else None
    if bi is not None and rng.random() < 0.4:
        # the base model of the merge with an adapter, beside the base model itself
        i = rng.choice([x for x in range(len(info["paths"])) if x != bi] or [bi])
        if i != bi:
            onto[i] = bi
            picked = sorted(({*picked} | {i}) - {bi})
            ctx.event("base-with-adapter")
    for i in picked:
        y = info["paths"][i]
        i_, i = i, onto.get(i, i)
        p = info["paths"][i]
        sm = ["lm_head.weight"] if not tie and rng.random() < 0.2 else []
        ap = ctx.path(f"ad{i_}")
        d, r = write_adapter(rng, ap, p, info["tensors"][i], rng.sample(TARGETS, rng.randint(1, 5)), rslora=False, save_modules=sm,
                             dtype=rng.choice([torch.float32, torch.float32, DT[info["cfg"]["torch_dtype"]]]), per_module=rng.random() < 0.3,
                             fmt=rng.choice(["st", "st", "bin"]))
        t = applied(info["tensors"][i], d, r, DT[lt] if lt else None)
        q = ctx.path(f"pre{i_}")
        write_ckpt(q, dict(info["cfg"], torch_dtype=lt or info["cfg"]["torch_dtype"]), t)
        for f in os.listdir(p):
            if f.startswith("tokenizer"):
                shutil.copy(os.path.join(p, f), q)
        m1[y], m2[y] = f"{p}+{ap}", q
        before[p], before[ap] = digest(p), digest(ap)
        ctx.event("adapter", len(d) + len(r))
        if sm:
            ctx.event("modules-to-save")
    ctx.describe(dict(config=subst(c, m1), lora_merge_dtype=lt, adapters=picked, onto=onto))
    o = options(rng, ctx, lora_merge_dtype=lt, copy_tokenizer=rng.random() < 0.5, write_model_card=rng.random() < 0.5)
    a, b = ctx.path("a"), ctx.path("b")
    run_merge(MergeConfiguration.model_validate(copy.deepcopy(subst(c, m2))), b, o)
    run_merge(MergeConfiguration.model_validate(copy.deepcopy(subst(c, m1))), a, o)
    dts = c.get("out_dtype") or c["dtype"]
    ra, rb = read_checkpoint(a)[0], read_checkpoint(b)[0]
    equal(ctx, "merge", ra, rb, 4 * EPS[dts], f"{info['method']}")
    if os.path.exists(os.path.join(b, "tokenizer.json")):
        ctx.ok(os.path.exists(os.path.join(a, "tokenizer.json")), "tokenizer", lambda: "tokenizer missing", stop=True)
        ta, tb = load(a), load(b)
        ctx.event("tokenizer")
        ctx.ok(ta.get_vocab() == tb.get_vocab(), "tokenizer", lambda: "different vocabulary")
    if o.write_model_card:
        with open(os.path.join(a, "README.md"), encoding="utf-8") as f:
            md = f.read()
        with open(os.path.join(a, "mergekit_config.yml"), encoding="utf-8") as f:
            md = md.replace(f.read().strip(), "")
        text = yaml.safe_dump(subst(c, m1))
        for y, q in m1.items():
            if q in text:
                ctx.event("named-in-card")
                ctx.ok(" + ".join(q.split("+")) in md, "card-names-adapter", lambda: f"{q} not in the card: {md[-800:]}")
    ca, cb = (json.load(open(os.path.join(x, "config.json"))) for x in (a, b))
    ca, cb = ({k: v for k, v in x.items() if k not in ("_name_or_path", "transformers_version", "torch_dtype", "dtype")} for x in (ca, cb))
    ctx.ok(ca == cb, "config", lambda: f"{ {k: (ca.get(k), cb.get(k)) for k in set(ca) | set(cb) if ca.get(k) != cb.get(k)} }")
    for p, h in before.items():
        ctx.ok(digest(p) == h, "source-changed", lambda: p)
    ctx.nontrivial(info["method"], tuple(picked), lt, info["form"])


def similar(stem, i, style):
    """Path components for the i-th of up to three models: distinct, but alike in one respect."""
    return [
        (f"d{i}", stem),  # same last component
        (f"{stem}{i}",),
        ([stem, stem.capitalize(), stem.upper()][i],),  # differ in case only
        ([f"{stem}_a", f"{stem}-a", f"{stem}.a"][i],),  # differ in punctuation only
        ([(stem, "a_b"), (f"{stem}_a", "b"), (stem, "a", "b")][i]),  # the same words, cut differently
        ([f"{stem}-1", f"{stem}-01", f"{stem}-1 "][i],),
        ([f"{stem}run", f"{stem}Run", f"{stem}RUN"][i], "out"),  # directories that differ in case only
    ][style]


def wl_cache(ctx, rng):
    """Merged copies: right for every base, adapter, dtype; never shared by mistake; never reused half written."""
    fam = rng.choice(["llama", "llama-tied", "mistral", "qwen2", "gemma", "gpt2", "auto-olmo", "auto-opt", "t5", "bert"])
    conv = fam == "gpt2"
    tg = {"gpt2": ["c_attn", "c_fc", "c_proj"], "auto-opt": ["q_proj", "fc1", "fc2"], "t5": ["q", "v", "wo"], "bert": ["query", "value", "dense"]}.get(fam, TARGETS)
    cache = ctx.path("cache")
    bases, adapters = [], []
    style = rng.randrange(7)
    for i in range(2):
        m = make(fam, seed=rng.randrange(1 << 20), dtype=torch.float32)
        # paths that are easily taken for one another
        p = ctx.path(*similar("model", i, style))
        m.save_pretrained(p)
        bases.append((p, {k: v for k, v in read_checkpoint(p)[0].items()}))
    for i in range(rng.choice([1, 2, 3])):
        p = ctx.path(*similar("adapter", i, style))
        # every base has the same shapes, so any adapter fits any base
        emb = ()
        targets = rng.sample(tg, rng.randint(1, len(tg)))
        if fam in ("llama", "mistral", "qwen2") and rng.random() < 0.25:
            targets.append("embed_tokens")
            emb = ("model.embed_tokens.weight",)
            ctx.event("embedding-adapter")
        d, r = write_adapter(rng, p, bases[0][0], bases[0][1], targets, conv1d=conv, embeddings=emb, per_module=rng.random() < 0.3 and fam != "t5",
                             r=4 if rng.random() < 0.2 else None, fmt=rng.choice(["st", "bin"]), task={"t5": "SEQ_2_SEQ_LM", "bert": "FEATURE_EXTRACTION"}.get(fam, "CAUSAL_LM"))
        ctx.ok(bool(d), "harness", "no weight adapted", stop=True)
        adapters.append((p, d, r))
    held = {p: digest(p) for p, *_ in bases + adapters}
    refs = []
    ctx.event("family:" + fam)
    log = []
    import safetensors.torch as st

    for step in range(rng.choice([3, 4, 6])):
        (bp, bt), (ap, d, r) = rng.choice(bases), rng.choice(adapters)
        lt = rng.choice([None, None, "float32", "bfloat16"])
        ref = ModelReference.model_validate(f"{bp}+{ap}")
        log.append([os.path.relpath(bp, ctx.scratch), os.path.relpath(ap, ctx.scratch), lt])
        ctx.describe(dict(family=fam, steps=log))
        if rng.random() < 0.35:
            # a failure at some point of writing the merged copy
            real = st.save_file
            count = [rng.choice([0, 0, 1])]
            where = rng.choice(["before", "partial", "after"])
            exc = rng.choice([OSError(28, "No space left on device"), KeyboardInterrupt(), MemoryError()])

            def broken(sd, fn, *a, **kw):
                if where == "partial":
                    with open(fn, "wb") as f:
                        f.write(b"\0" * 64)
                elif where == "after":
                    real(sd, fn, *a, **kw)
                raise exc

            import transformers.modeling_utils as mu

            held_mu = getattr(mu, "safe_save_file", None)
            st.save_file = broken
            if held_mu is not None:
                mu.safe_save_file = broken
            try:
                ref.merged(cache_dir=cache, lora_merge_dtype=lt)
            except BaseException as e:
                if e is not exc:
                    raise
                ctx.event("fault")
                log.append("fault " + where)
            finally:
                st.save_file = real
                if held_mu is not None:
                    mu.safe_save_file = held_mu
        res = ref.merged(cache_dir=cache, lora_merge_dtype=lt)
        ctx.ok(res.lora is None, "still-adapter", str(res), stop=True)
        want = applied(bt, d, r, DT[lt] if lt else None)
        if fam.endswith("tied") or fam in ("gpt2",):
            want.pop("lm_head.weight", None)
        loader = res.lazy_loader()
        got = {k: loader.get_tensor(k) for k in loader.index.tensor_paths}
        equal(ctx, "merged-copy", {k: got[k] for k in got if k in want} if set(want) <= set(got) else got, want, 0, f"{fam} {log[-1]}")
        refs.append((res, want))
    # copies made earlier are still right
    for res, want in refs:
        loader = res.lazy_loader()
        for k in want:
            g = loader.get_tensor(k)
            ctx.ok(g.dtype == want[k].dtype and torch.equal(g, want[k]), "copy-overwritten", lambda: k)
    for p, h in held.items():
        ctx.ok(digest(p) == h, "source-changed", lambda: p)
    ctx.nontrivial(fam, len(adapters), json.dumps(log))


CHILD = r"""
import json, os, sys, time
sys.path[:0] = ["/repo"]
job = json.loads(sys.argv[1])
import torch, warnings
warnings.simplefilter("ignore")
torch.set_num_threads(1)
import safetensors.torch as st, transformers.modeling_utils as mu
real = st.save_file
def slow(sd, fn, *a, **kw):
    if job["mode"] == "kill":
        open(fn, "wb").write(b"\0" * 64)
        os._exit(9)
    real(sd, fn, *a, **kw)
    if job["mode"] == "kill-after":
        os._exit(9)
st.save_file = slow
if hasattr(mu, "safe_save_file"): mu.safe_save_file = slow
from mergekit.common import ModelReference
import transformers
PM = transformers.PreTrainedModel
realsp = PM.save_pretrained
def sp(self, d, *a, **kw):
    open(job["flag"] + str(job["id"]), "w").close()
    time.sleep(job["delay"][0])
    r = realsp(self, d, *a, **kw)
    time.sleep(job["delay"][1])
    return r
PM.save_pretrained = sp
# meet at the door, then go
open(job["ready"] + str(job["id"]), "w").close()
t = time.time()
while job["wait"] and time.time() - t < 60 and not all(os.path.exists(f) for f in job["wait"]):
    time.sleep(0.005)
time.sleep(job["start"])
try:
    ref = ModelReference.model_validate(job["ref"]).merged(cache_dir=job["cache"])
    loader = ref.lazy_loader()
    out = {k: loader.get_tensor(k).double().sum().item() for k in loader.index.tensor_paths}
    print("@@" + json.dumps(dict(out=out)))
except BaseException as e:
    print("@@" + json.dumps(dict(error=f"{type(e).__name__}: {e}"[:300])))
"""


def wl_processes(ctx, rng):
    """Processes sharing a cache: killed ones leave nothing that is taken for a merged copy, concurrent ones do not disturb each other."""
    m = make("llama", seed=rng.randrange(1 << 20), dtype=torch.float32)
    p = ctx.path("model")
    m.save_pretrained(p)
    t = read_checkpoint(p)[0]
    ap = ctx.path("adapter")
    d, r = write_adapter(rng, ap, p, t, TARGETS[:4])
    want = applied(t, d, r)
    cache = ctx.path("cache")
    script = ctx.path("child.py")
    with open(script, "w") as f:
        f.write(CHILD)
    mode = ["kill", "race", "kill-after", "race"][ctx.case % 4]
    n = 3 if mode == "race" else 1
    ready = ctx.path("ready")
    procs = []
    for i in range(n):
        job = dict(mode=mode, ref=f"{p}+{ap}", cache=cache, id=i, flag=ctx.path("flag"), ready=ready, wait=[ready + str(j) for j in range(n)] if n > 1 else [],
                   start=rng.choice([0, 0, 0.05, 0.3]) * i, delay=[rng.choice([0, 0.1, 0.4]), rng.choice([0, 0.1, 0.4])])
        procs.append(subprocess.Popen([sys.executable, script, json.dumps(job)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    ctx.describe(dict(mode=mode, processes=n))
    for i, pr in enumerate(procs):
        out, err = pr.communicate(timeout=300)
        if mode != "race":
            ctx.ok(pr.returncode == 9, "harness", lambda: f"child was not killed: {out[-200:]} {err[-200:]}", stop=True)
            ctx.event("killed")
            continue
        line = [l for l in out.splitlines() if l.startswith("@@")]
        ctx.ok(bool(line), "harness", lambda: f"{err[-300:]}", stop=True)
        res = json.loads(line[0][2:])
        ctx.event("raced")
        ctx.ok("error" not in res, "race-error", lambda: f"process {i}: {res.get('error')}")
        for k, v in res.get("out", {}).items():
            ctx.ok(abs(v - want[k].double().sum().item()) < 1e-6, "race-value", lambda: k)
    res = ModelReference.model_validate(f"{p}+{ap}").merged(cache_dir=cache)
    loader = res.lazy_loader()
    for k in want:
        g = loader.get_tensor(k)
        ctx.event("weight-compared")
        ctx.ok(torch.equal(g, want[k]), "after-" + mode, lambda: k)
    ctx.nontrivial(mode, ctx.case)


def wl_tools(ctx, rng):
    """The other tools that take model references understand adapters too."""
    kind = rng.choice(["moe", "moe", "auto"])
    ctx.event("tool:" + kind)
    cache = ctx.path("cache")
    if kind == "auto":
        fam = rng.choice(["auto-olmo", "auto-opt", "auto-bloom"])
        tg = {"auto-opt": ["q_proj", "fc1"], "auto-bloom": ["query_key_value", "dense"]}.get(fam, TARGETS[:5])
        refs, pre, names = [], [], []
        for i in range(2):
            p = ctx.path(f"m{i}")
            make(fam, seed=rng.randrange(1 << 20)).save_pretrained(p)
            t = read_checkpoint(p)[0]
            ref = p
            if i == 0 or rng.random() < 0.5:
                d, r = write_adapter(rng, ctx.path(f"a{i}"), p, t, tg)
                t = applied(t, d, r)
                ref = f"{p}+{ctx.path(f'a{i}')}"
            refs.append(ref)
            pre.append(t)
        w = [0.25, 0.75]
        c = dict(merge_method="linear", dtype="float32", models=[dict(model=refs[i], parameters=dict(weight=w[i])) for i in range(2)])
        ctx.describe(c)
        run_merge(MergeConfiguration.model_validate(c), ctx.path("out"), options(rng, ctx))
        got = read_checkpoint(ctx.path("out"))[0]
        equal(ctx, "auto", got, {k: (pre[0][k].double() * 0.25 + pre[1][k].double() * 0.75).float() for k in pre[0]}, 1e-6, fam)
        ctx.nontrivial(kind, fam, tuple(refs))
        return
    from mergekit.scripts.moe import main as moe_main

    voc = SPECIAL + CHARS + [f"w{i}" for i in range(12)]
    paths, refs, pre = [], [], []
    for i in range(2):
        p = ctx.path(f"m{i}")
        m = make("llama", seed=rng.randrange(1 << 20))
        m.save_pretrained(p)
        write_tokenizer(p, voc, kind="WordLevel")
        t = read_checkpoint(p)[0]
        d, r = write_adapter(rng, ctx.path(f"a{i}"), p, t, rng.sample(TARGETS, 6))
        q = ctx.path(f"pre{i}")
        shutil.copytree(p, q)
        write_ckpt(q, None, applied(t, d, r))
        use = i == 0 or rng.random() < 0.5
        refs.append(f"{p}+{ctx.path(f'a{i}')}" if use else p)
        pre.append(q if use else p)
    for tag, src in (("a", refs), ("b", pre)):
        c = dict(base_model=src[0], gate_mode="cheap_embed", dtype="float32", architecture="mixtral",
                 experts=[dict(source_model=src[0], positive_prompts=["a b"]), dict(source_model=src[1], positive_prompts=["w1 w2 c"])])
        with open(ctx.path(tag + ".yml"), "w") as f:
            yaml.safe_dump(c, f)
        moe_main.main([ctx.path(tag + ".yml"), ctx.path("out" + tag), "--lora-merge-cache", cache], standalone_mode=False)
    ctx.describe(dict(kind=kind, refs=refs))
    equal(ctx, "moe", read_checkpoint(ctx.path("outa"))[0], read_checkpoint(ctx.path("outb"))[0], 1e-6, "moe")
    ctx.nontrivial(kind, tuple(r.count("+") for r in refs), ctx.case)


CHECK = Check(
    prop="P19",
    level="exploration",
    rule="merges, MoE merges and inferred-architecture merges of references with adapters (ranks 1-4, per-module ranks, saved modules, embedding adapters, "
    "Conv1D models, either file format) compared with the same merges of independently computed weights; sequences of merged() calls sharing one cache with "
    "failures injected while a copy is written; killed and concurrent processes sharing a cache; distinct by recipe, adapters and sequence",
    assumptions=["adapter values are dyadic so that base plus adapter has one correct rounding", "local directories; hub downloads are not exercised"],
    workloads=[
        Workload("merge", wl_merge, 160, 2500, require=["adapter", "weight-compared", "modules-to-save", "tokenizer", "named-in-card", "base-with-adapter"]),
        Workload("cache", wl_cache, 110, 1500, require=["fault", "embedding-adapter", "weight-compared", "family:gpt2", "family:llama"]),
        Workload("processes", wl_processes, 4, 60, require=["killed", "raced"]),
        Workload("tools", wl_tools, 16, 200, require=["tool:moe", "tool:auto"]),
    ],
)
