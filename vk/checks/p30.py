"""P30: a model's own code runs only where it is trusted, and works there."""

import json
import os
import random
import shutil
import sys

import numpy
import safetensors.torch
import torch
import transformers
import transformers.dynamic_module_utils as dmu
import transformers.utils.hub as hub
from click.testing import CliRunner
from transformers.models.auto.configuration_auto import CONFIG_MAPPING

from vk.checks.p25 import TOOLS as KNOWN
from vk import evo_standins
from vk.checks.p25 import dump, small
from vk.inferred import ZOO, make
from vk.core import Check, Workload

# ---- monitor: code objects the interpreter runs whose source lies with a model -------------------------------------------
RAN = dict(on=False, roots=(), files=[])


def hook(event, args):
    if RAN["on"] and event == "exec":
        f = getattr(args[0], "co_filename", "")
        if f.startswith(RAN["roots"]):
            RAN["files"].append(os.path.basename(f))


sys.addaudithook(hook)

CONFIG = """{note}
from transformers import {base} as Base
class VkConfig(Base):
    model_type = {mt!r}
"""
MODEL = """{note}
from transformers import {cls} as Base
from .configuration_vk import VkConfig
from .helper_vk import HELPED
class VkForCausalLM(Base):
    config_class = VkConfig
    helped = HELPED
"""
HELPER = """{note}
HELPED = 17
"""
TOKENIZER = """{note}
from transformers import PreTrainedTokenizerFast
class VkTokenizer(PreTrainedTokenizerFast):
    vk_marker = 23
"""


# models of which mergekit has no definition, so that it looks into the classes
KINDS = [e for e in ZOO if e.split(":")[0] in ("GPTJForCausalLM", "OPTForCausalLM", "OlmoForCausalLM", "HeliumForCausalLM", "NemotronForCausalLM", "PersimmonForCausalLM", "SeedOssForCausalLM")]


def t_inferred(ctx, rng):
    from mergekit.scripts.run_yaml import main

    e = rng.choice(KINDS)
    ps = []
    for i in range(2):
        ps.append(ctx.path("in", f"i{i}"))
        make(e, rng.randrange(1 << 30)).save_pretrained(ps[-1])
    c = dict(merge_method="linear", models=[dict(model=p, parameters=dict(weight=0.5)) for p in ps])
    return main, [dump(ctx, "c.yml", c), ctx.path("out")], True


def t_evolve(ctx, rng):
    evo_standins.install()
    from mergekit.scripts.evolve import main

    ps = [small(ctx, rng, f"m{i}", layers=1)[0] for i in range(2)]
    g = dict(models=ps, merge_method="linear")
    if rng.random() < 0.4:
        g.update(merge_method="task_arithmetic", models=ps[1:], base_model=ps[0])
    if rng.random() < 0.4:
        g["tokenizer_source"] = rng.choice(["union", "base"]) if "base_model" in g else "union"
    strategy = rng.choice(["pool", "memory", "serial", "buffered"])
    args = [dump(ctx, "e.yml", dict(genome=g, tasks=[dict(name="alpha")])), "--storage-path", ctx.path("out"), "--max-fevals", "2", "--force-population-size", "2", "--num-gpus", "1",
            "--no-merge-cuda", "--strategy", "pool" if strategy == "memory" else strategy, rng.choice(["--reshard", "--no-reshard"])]
    ctx.event("evolve:" + strategy)
    return main, args + ["--in-memory"] * (strategy == "memory"), False


TOOLS = dict(KNOWN, inferred=t_inferred, evolve=t_evolve)


class Mark:
    """What the code of the planted models leaves behind."""

    def __init__(self, ctx, rng):
        self.path = ctx.path("ran.txt")
        self.rng = rng

    def note(self, what):
        # (transformers does not run code again that it has seen before)
        return f"# {self.rng.getrandbits(64)}\nwith open({self.path!r}, 'a') as f: f.write({what!r} + '\\n')"

    def take(self):
        if not os.path.exists(self.path):
            return []
        with open(self.path) as f:
            out = f.read().split()
        os.remove(self.path)
        return out


def cache_of(ctx):
    d = os.path.join(ctx._scratch_root, f"modules-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    dmu.HF_MODULES_CACHE = hub.HF_MODULES_CACHE = d
    return d


def plant(mark, p, mt=None, config=True, model=True, tok=True, arch=False):
    """Give the model in p code of its own."""
    name = os.path.basename(p)
    done = []
    cp = os.path.join(p, "config.json")
    if (config or model) and os.path.exists(cp):
        with open(cp) as f:
            c = json.load(f)
        base, cls = CONFIG_MAPPING[c["model_type"]].__name__, (c.get("architectures") or ["LlamaForCausalLM"])[0]
        c["model_type"] = mt or c["model_type"]
        if mt or arch:
            c["architectures"] = ["VkForCausalLM"]
        am = c.setdefault("auto_map", {})
        if config:
            am["AutoConfig"] = "configuration_vk.VkConfig"
            done.append("config")
        if model:
            am.update(AutoModelForCausalLM="modeling_vk.VkForCausalLM", AutoModel="modeling_vk.VkForCausalLM")
            done.append("model")
        with open(cp, "w") as f:
            json.dump(c, f)
        for fn, src, what in (("configuration_vk", CONFIG, "config"), ("modeling_vk", MODEL, "model"), ("helper_vk", HELPER, "helper")):
            with open(os.path.join(p, fn + ".py"), "w") as f:
                f.write(src.format(note=mark.note(f"{name}/{what}"), base=base, cls=cls, mt=c["model_type"]))
    tp = os.path.join(p, "tokenizer_config.json")
    if tok and os.path.exists(tp):
        with open(tp) as f:
            c = json.load(f)
        c["auto_map"] = dict(AutoTokenizer=[None, "tokenization_vk.VkTokenizer"])
        with open(tp, "w") as f:
            json.dump(c, f)
        with open(os.path.join(p, "tokenization_vk.py"), "w") as f:
            f.write(TOKENIZER.format(note=mark.note(f"{name}/tokenizer")))
        done.append("tokenizer")
    return done


def models_in(ctx):
    return sorted(d for d, _, fs in os.walk(ctx.path("in")) if "config.json" in fs)


def call(ctx, main, args, seed, mods):
    random.seed(seed), numpy.random.seed(seed % 2**32), torch.manual_seed(seed)
    evo_standins.LOG.update(evals=[], asked=[], rng=random.Random(seed), fail=None, broken=None, load=True)
    RAN.update(on=True, roots=(ctx.path("") , mods), files=[])
    try:
        return CliRunner().invoke(main, args, input="y\n" * 20)
    finally:
        evo_standins.stop_loops()
        RAN["on"] = False


def result(p):
    """weights by name, and the tokenizer's vocabulary, of what a tool wrote"""
    out = {}
    for d, _, fs in sorted(os.walk(p)):
        for f in fs:
            if f.endswith(".safetensors"):
                for k, v in safetensors.torch.load_file(os.path.join(d, f)).items():
                    out[os.path.relpath(d, p), k] = v
        if "tokenizer.json" in fs:
            with open(os.path.join(d, "tokenizer.json")) as f:
                out[os.path.relpath(d, p), "vocab"] = json.load(f)["model"]["vocab"]
        if "tokenizer_config.json" in fs:
            with open(os.path.join(d, "tokenizer_config.json")) as f:
                t = json.load(f).get("chat_template")
            if "chat_template.jinja" in fs:
                with open(os.path.join(d, "chat_template.jinja")) as f:
                    t = f.read()
            out[os.path.relpath(d, p), "template"] = dict(template=t)
    return out


def templates(ctx, rng):
    """give models' tokenizers chat templates"""
    for m in models_in(ctx):
        p = os.path.join(m, "tokenizer_config.json")
        if os.path.exists(p) and rng.random() < 0.7:
            with open(p) as f:
                c = json.load(f)
            c["chat_template"] = rng.choice(["A", "A", "B"]) + "{% for m in messages %}{{ m.content }}{% endfor %}"
            with open(p, "w") as f:
                json.dump(c, f)
            ctx.event("templates")


def same(a, b, tool=None):
    if tool == "inferred":
        # (the models have no tokenizers; transformers may make one up)
        a, b = ({k: v for k, v in x.items() if k[1] not in ("vocab", "template")} for x in (a, b))
    if set(a) != set(b):
        return f"names {sorted(map(str, set(a) ^ set(b)))[:4]}"
    for k in a:
        if isinstance(a[k], dict):
            if a[k] != b[k]:
                return f"{k[1]} {k}: {str(a[k])[:100]} {str(b[k])[:100]}"
        elif a[k].shape != b[k].shape or not torch.equal(a[k].nan_to_num(7.0), b[k].nan_to_num(7.0)):
            return f"values of {k}: {(a[k] - b[k]).abs().max() if a[k].shape == b[k].shape else 0}"
    return None


def randomised(args):
    """whether the recipe draws random numbers while it runs"""
    for a in args:
        if a == "randn":
            return True
        if a.endswith(".yml") and os.path.exists(a):
            with open(a) as f:
                text = f.read()
            if "dare" in text or "della" in text or "noise" in text:
                return True
    return False


# ---- without trust ---------------------------------------------------------------------------------------------------
def wl_untrusted(ctx, rng):
    tool = rng.choice(sorted(TOOLS) + ["yaml", "yaml", "moe", "surgeon", "surgeon", "inferred"])
    main, args, merge_opts = TOOLS[tool](ctx, rng)
    templates(ctx, rng)
    mods = cache_of(ctx)
    mark = Mark(ctx, rng)
    seed = rng.randrange(1 << 30)
    opts = [o for o, pr in (("--lazy-unpickle", 0.3), ("--low-cpu-memory", 0.1), ("--clone-tensors", 0.1), ("--no-trust-remote-code", 0.2)) if merge_opts and rng.random() < pr]
    r0 = call(ctx, main, args + opts, seed, mods)
    plain = result(ctx.path("out")) if r0.exit_code == 0 else None
    why = repr(r0.exception)[:300]
    if not ctx.ok(r0.exit_code == 0, "runs", lambda: f"{tool}: {why}"):
        return
    for d in ("out", "cache"):
        shutil.rmtree(ctx.path(d), ignore_errors=True)
    os.makedirs(ctx.path("cache"), exist_ok=True)
    ms = models_in(ctx)
    how = rng.choice(["known", "known", "known", "unknown", "recipe", "some"])
    who = {}
    if tool == "pytorch":
        how = "recipe"
    if how == "recipe":
        cfgs = [a for a in args if a.startswith(ctx.path("cfg"))]
        if not cfgs:
            how = "known"
    if how == "recipe":
        with open(cfgs[0]) as f:
            text = f.read()
        tag = rng.choice(["!!python/object/apply:builtins.open", "!!python/object/new:builtins.open"])
        if rng.random() < 0.5:
            text = f"extra: {tag} [{mark.path!r}, a]\n" + text
        else:
            text += f"\n---\n{tag} [{mark.path!r}, a]\n" if tool == "multi" else f"\nextra: {tag} [{mark.path!r}, a]\n"
        with open(cfgs[0], "w") as f:
            f.write(text)
    else:
        chosen = ms if how != "some" else [m for m in ms if rng.random() < 0.5] or ms[:1]
        # (where no definition is looked up by it, the class may be one only the model has)
        arch = tool == "inferred" and rng.random() < 0.6
        for m in chosen:
            parts = [True, True, True] if how != "some" else [rng.random() < 0.6 for _ in range(3)]
            who[os.path.basename(m)] = plant(mark, m, "vkunknown" if how == "unknown" else None, *parts, arch=arch)
    ctx.describe(dict(tool=tool, args=args[1:], opts=opts, how=how, who=who))
    r = call(ctx, main, args + opts, seed, mods)
    left = mark.take()
    ctx.ok(not left and not (how == "recipe" and os.path.exists(mark.path)), "code-ran", lambda: f"{tool} {opts} {how}: {left} {who}")
    ctx.ok(not RAN["files"], "code-executed", lambda: f"{tool} {opts} {how}: {RAN['files'][:5]} {who}")
    ctx.event(f"untrusted:{tool}")
    ctx.event(f"how:{how}")
    if how in ("known", "some"):
        # the model's type is known, so that its own code is not needed
        why = repr(r.exception)[:300]
        if ctx.ok(r.exit_code == 0, "works-without", lambda: f"{tool} {opts}: {why}"):
            bad = None if randomised(args) else same(plain, result(ctx.path("out")), tool)
            ctx.ok(bad is None, "same-without", lambda: f"{tool} {opts}: {bad}")
            ctx.event("same-without")
    elif how == "unknown" and tool not in ("fill", "shuffle", "bakllama", "pytorch") or how == "recipe":
        ctx.ok(r.exit_code != 0, "refused", lambda: f"{tool} {opts} {how}: succeeded")
        ctx.event("refused")
    ctx.nontrivial(tool, how, tuple(opts), json.dumps(who, sort_keys=True), rng.random())


# ---- with trust ------------------------------------------------------------------------------------------------------
def wl_trusted(ctx, rng):
    tool = rng.choice(["yaml", "yaml", "yaml", "multi", "moe", "extract", "surgeon", "legacy", "shuffle", "inferred", "inferred", "evolve"])
    main, args, _ = TOOLS[tool](ctx, rng)
    templates(ctx, rng)
    mods = cache_of(ctx)
    mark = Mark(ctx, rng)
    seed = rng.randrange(1 << 30)
    ctx.describe(dict(tool=tool, args=args[1:]))
    r0 = call(ctx, main, args, seed, mods)
    why = repr(r0.exception)[:300]
    if not ctx.ok(r0.exit_code == 0, "runs", lambda: f"{tool}: {why}"):
        return
    plain = result(ctx.path("out"))
    for d in ("out", "cache"):
        shutil.rmtree(ctx.path(d), ignore_errors=True)
    os.makedirs(ctx.path("cache"), exist_ok=True)
    ms = models_in(ctx)
    # tools that convert one architecture into another have to know it
    mt = rng.choice(["vkcustom", None]) if tool in ("yaml", "multi", "legacy", "inferred") else None
    tok = rng.random() < 0.6 and tool != "inferred"
    who = {os.path.basename(m): plant(mark, m, mt, True, True, tok, arch=tool == "inferred") for m in ms}
    ctx.describe(dict(tool=tool, args=args[1:], model_type=mt, who=who))
    r = call(ctx, main, args + ["--trust-remote-code"], seed, mods)
    ran = mark.take()
    why = repr(r.exception)[:400]
    ctx.event(f"trusted:{tool}")
    if mt:
        ctx.event("trusted:new-type")
    if not ctx.ok(r.exit_code == 0, "works-with", lambda: f"{tool} {mt}: {why}"):
        return
    ctx.ok(any(x.endswith("/config") for x in ran), "code-used", lambda: f"{tool} {mt}: {ran}")
    if not randomised(args):
        # (random draws may come in another order)
        bad = same(plain, result(ctx.path("out")), tool)
        ctx.ok(bad is None, "same-with", lambda: f"{tool} {mt}: {bad}")
    if tool in ("moe", "extract"):
        ctx.nontrivial(tool, mt, tok, rng.random())
        return
    # the output is complete: it loads from where it is, once the inputs are gone
    shutil.rmtree(ctx.path("in"))
    outs = [d for d, _, fs in os.walk(ctx.path("out")) if "config.json" in fs]
    for o in outs:
        try:
            m = transformers.AutoModelForCausalLM.from_pretrained(o, trust_remote_code=True)
        except Exception as e:
            msg = repr(e)[:300]
            ctx.ok(False, "output-loads", lambda: f"{tool} {mt}: {msg} {sorted(os.listdir(o))}")
            continue
        if tool == "surgeon":
            continue
        ctx.ok(getattr(m, "helped", None) == 17, "output-class", lambda: f"{tool} {mt}: {type(m)}")
        ctx.event("output-loads")
        if tok and os.path.exists(os.path.join(o, "tokenizer_config.json")):
            try:
                t = transformers.AutoTokenizer.from_pretrained(o, trust_remote_code=True)
                got = getattr(t, "vk_marker", None), type(t).__name__
            except Exception as e:
                got = repr(e)[:300]
            ctx.ok(got[0] == 23, "output-tokenizer", lambda: f"{tool} {mt}: {got} {sorted(os.listdir(o))}")
            ctx.event("output-tokenizer")
    ctx.nontrivial(tool, mt, tok, rng.random())


CHECK = Check(
    prop="P30",
    level="exploration",
    rule="eleven command-line tools on generated inputs whose directories carry configuration, modelling and tokenizer code of their own (known and new model types, all or some of the models) or "
    "whose recipes carry Python tags; code leaves marks and every code object the interpreter executes is matched against the models' files; without trust nothing runs and known types "
    "give the same output; with trust the tools work, give the same values and their output loads by itself; distinct by tool, way and what was planted",
    assumptions=["transformers decides what is loaded for a given trust_remote_code"],
    workloads=[
        Workload("untrusted", wl_untrusted, 200, 4000, require=["untrusted:" + t for t in TOOLS] + ["how:known", "how:unknown", "how:recipe", "how:some", "same-without", "refused"]),
        Workload("trusted", wl_trusted, 100, 2000, require=["trusted:" + t for t in ("yaml", "multi", "moe", "extract", "surgeon", "legacy", "shuffle", "inferred", "evolve")] + ["trusted:new-type", "output-loads", "output-tokenizer"]),
    ],
)
