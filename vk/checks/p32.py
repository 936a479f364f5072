"""P32: a model named by its repository on the hub is worth what a local copy of that revision is."""

import json
import os
import re
import shutil

import safetensors.torch
import torch
import transformers
import yaml

from vk import hubserver as hub
from vk.checks.p25 import TOOLS as ALL
from vk.checks.p30 import Mark, cache_of, call, models_in, plant, randomised, result, same, t_evolve, t_inferred, templates
from vk.core import Check, Skip, Workload

TOOLS = {k: v for k, v in dict(ALL, inferred=t_inferred, evolve=t_evolve).items() if k != "pytorch"}
COUNT = [0]


def names(ctx):
    COUNT[0] += 1
    return f"o{os.getpid()}x{COUNT[0]}"


def dirs_in(ctx):
    return sorted(d for d, _, fs in os.walk(ctx.path("in")) if "config.json" in fs or "adapter_config.json" in fs)


def companions(ctx, rng, d):
    """files that come with a model and belong into an output"""
    def put(fn, text):
        p = os.path.join(d, fn)
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)

    if not os.path.exists(os.path.join(d, "config.json")):
        return
    if os.path.exists(os.path.join(d, "tokenizer_config.json")):
        k = rng.random()
        if k < 0.35:
            put("chat_template.jinja", "J%d{%% for m in messages %%}{{ m.content }}{%% endfor %%}" % rng.randrange(99))
            ctx.event("template-file")
            if rng.random() < 0.4:
                put("additional_chat_templates/tool_use.jinja", "T%d{%% for m in messages %%}{{ m.content }}{%% endfor %%}" % rng.randrange(99))
                ctx.event("several-templates")
        if rng.random() < 0.3:
            put("generation_config.json", json.dumps(dict(do_sample=True, temperature=0.5, transformers_version="5.0.0")))
        if rng.random() < 0.2:
            put("merges.txt", "#version: 0.2\na b\n")
            ctx.event("merges-file")
    if rng.random() < 0.2:
        put("preprocessor_config.json", json.dumps(dict(size=rng.randrange(99))))


def decoy(ctx, rng, d, n, same_format=False):
    """another state of the same repository"""
    out = ctx.path("decoy", str(n))
    shutil.copytree(d, out)
    ws = [f for f in os.listdir(d) if f.endswith((".safetensors", ".bin")) or ".index." in f]
    st = "model.safetensors" in ws or "model.safetensors.index.json" in ws
    if os.path.exists(os.path.join(d, "config.json")) and not same_format and rng.random() < 0.4:
        # which keeps its weights in the other format
        for f in ws:
            os.remove(os.path.join(out, f))
        t = {"lm_head.weight": torch.ones(2, 2)}
        torch.save(t, os.path.join(out, "pytorch_model.bin")) if st else safetensors.torch.save_file(t, os.path.join(out, "model.safetensors"), {"format": "pt"})
        ctx.event("other-format")
    for f in os.listdir(out):
        p = os.path.join(out, f)
        if f.endswith(".safetensors"):
            t = safetensors.torch.load_file(p)
            safetensors.torch.save_file({k: v + 3 if v.is_floating_point() else v for k, v in t.items()}, p, {"format": "pt"})
        elif f.endswith(".bin"):
            t = torch.load(p)
            torch.save({k: v + 3 if v.is_floating_point() else v for k, v in t.items()}, p)
        elif f == "config.json":
            with open(p) as fh:
                c = json.load(fh)
            c["vk_decoy"] = 1
            with open(p, "w") as fh:
                json.dump(c, fh)
        elif f == "tokenizer_config.json":
            with open(p) as fh:
                c = json.load(fh)
            c["chat_template"] = "DECOY" + "{% for m in messages %}{{ m.content }}{% endfor %}"
            with open(p, "w") as fh:
                json.dump(c, fh)
        elif f == "chat_template.jinja":
            with open(p, "w") as fh:
                fh.write("DECOY{% for m in messages %}{{ m.content }}{% endfor %}")
        elif f == "helper_vk.py":
            with open(p, "a") as fh:
                fh.write("HELPED = 99\n")
        elif f == "tokenization_vk.py":
            with open(p, "a") as fh:
                fh.write("    vk_marker = 99\n")
    return out


def listing(root, swap):
    """text of every other file of an output, by name, with the models' names made one"""
    swap = swap + [(a.split("@")[0], b) for a, b in swap if "@" in a]
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".safetensors", ".bin")) or f == "README.md":
                continue
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                t = fh.read()
            for a, b in swap:
                t = t.replace(a, b)
            if f.endswith(".json"):
                doc = json.loads(t)
                if f in ("config.json", "tokenizer_config.json", "adapter_config.json"):
                    for k in ("_name_or_path", "name_or_path", "auto_map", "revision", "is_local", "local_files_only"):
                        doc.pop(k, None)
                t = json.dumps(doc, sort_keys=True)
            out[os.path.relpath(os.path.join(d, f), root)] = t
    return out


def onto_hub(ctx, rng, org, pinned=True):
    """Publish the inputs; returns path -> reference, and path -> (name, commit)."""
    refs, where = {}, {}
    one = {}
    # all of them may be revisions of one repository
    joint = pinned and rng.random() < 0.25
    for i, d in enumerate(dirs_in(ctx)):
        name = f"m{i}" + rng.choice(["", "-7B", ".v0_1"])
        st = any(f.endswith(".safetensors") for f in os.listdir(d))
        if st and rng.random() < 0.5 and os.path.exists(os.path.join(d, "config.json")):
            # the same repository also has pickles
            torch.save({"lm_head.weight": torch.zeros(1)}, os.path.join(d, "pytorch_model.bin"))
            ctx.event("pickles-beside")
        elif not st and rng.random() < 0.5 and os.path.exists(os.path.join(d, "config.json")):
            # and the other way round: safetensors files that are not the model
            n = rng.choice(["onnx/model.safetensors", "adapter_model.safetensors", "checkpoint-10/model.safetensors"])
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            safetensors.torch.save_file({"x": torch.zeros(1)}, os.path.join(d, n))
            ctx.event("other-safetensors")
        revs = {"r1": d}
        if rng.random() < 0.7:
            revs["r2"] = decoy(ctx, rng, d, i)
        if joint:
            one.update({f"s{i:02}": d}, **({f"d{i:02}": revs["r2"]} if "r2" in revs else {}))
            continue
        main = "r2" if "r2" in revs and pinned and rng.random() < 0.75 else "r1"
        got = hub.publish(org, name, revs, main)
        sha = got["r1"]
        ref = f"{org}/{name}"
        if main == "r2":
            ref += "@" + rng.choice(["r1", sha])
            ctx.event("revision")
        elif pinned and rng.random() < 0.3:
            ref += "@" + rng.choice(["main", "r1", sha])
        refs[d], where[d] = ref, (name, sha)
    if joint:
        name = "all"
        got = hub.publish(org, name, one, rng.choice(sorted(one)))
        for r, d in one.items():
            if r[0] == "s":
                refs[d], where[d] = f"{org}/{name}@{rng.choice([r, got[r]])}", (name, got[r])
        if len(refs) > 1:
            ctx.event("same-repo")
    return refs, where


def subst(text, refs):
    for p in sorted(refs, key=len, reverse=True):
        text = text.replace(p, refs[p])
    return text


def rename(ctx, args, refs):
    for d, _, fs in os.walk(ctx.path("cfg")):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, encoding="utf-8") as fh:
                t = fh.read()
            with open(p, "w", encoding="utf-8") as fh:
                fh.write(subst(t, refs))
    return [subst(a, refs) for a in args]


def clear(ctx):
    for d in ("out", "cache"):
        shutil.rmtree(ctx.path(d), ignore_errors=True)
    os.makedirs(ctx.path("cache"), exist_ok=True)


def prepare(ctx, rng, tool, code=False):
    """the tool's inputs and what it makes of them locally"""
    main, args, merge_opts = TOOLS[tool](ctx, rng)
    templates(ctx, rng)
    if tool == "yaml" and rng.random() < 0.25:
        with open(args[0], encoding="utf-8") as f:
            c = yaml.safe_load(f)
        c["chat_template"] = "auto"
        with open(args[0], "w", encoding="utf-8") as f:
            yaml.safe_dump(c, f, sort_keys=False, allow_unicode=True)
        ctx.event("auto-template")
    for d in dirs_in(ctx):
        companions(ctx, rng, d)
    os.makedirs(ctx.path("cache"), exist_ok=True)
    opts = []
    if code:
        mark = Mark(ctx, rng)
        for m in models_in(ctx):
            plant(mark, m, None, True, tool != "moe", tool != "inferred" and rng.random() < 0.6, arch=tool == "inferred")
        opts.append("--trust-remote-code")
    if merge_opts:
        opts += [o for o, pr in (("--lazy-unpickle", 0.3), ("--low-cpu-memory", 0.1)) if rng.random() < pr]
    return main, args, merge_opts, opts


CACHED = ("yaml", "multi", "legacy", "shuffle", "surgeon", "moe", "extract", "inferred")


def own_code(ctx, org, tool, refs, mods):
    """outputs of models with code of their own work without the hub"""
    hub.forget(org)
    for n in os.listdir(mods):
        p = os.path.join(mods, n)
        if n != "__init__.py":
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for o in [d for d, _, fs in os.walk(ctx.path("out")) if "config.json" in fs]:
        try:
            m = transformers.AutoModelForCausalLM.from_pretrained(o, trust_remote_code=True)
            got = getattr(m, "helped", None)
        except Exception as e:
            got = repr(e)[:300]
        ctx.ok(got == 17, "output-code", lambda: f"{tool} {sorted(refs.values())}: {got} {sorted(os.listdir(o))}")
        with open(os.path.join(o, "config.json")) as f:
            am = json.load(f).get("auto_map")
        tc = os.path.join(o, "tokenizer_config.json")
        if os.path.exists(tc):
            with open(tc) as f:
                tam = json.load(f).get("auto_map")
            if tam:
                try:
                    got = getattr(transformers.AutoTokenizer.from_pretrained(o, trust_remote_code=True), "vk_marker", None)
                except Exception as e:
                    got = repr(e)[:300]
                ctx.ok(got == 23, "output-tokenizer-code", lambda: f"{tool} {sorted(refs.values())}: {got} {tam} {sorted(os.listdir(o))}")
        ctx.event("code-alone")


def wl_hub(ctx, rng):
    tool = rng.choice(sorted(TOOLS) + ["yaml", "yaml", "yaml", "surgeon", "evolve", "evolve"])
    org = names(ctx)
    code = tool in ("yaml", "multi", "legacy", "shuffle", "inferred", "surgeon", "evolve") and rng.random() < (0.5 if tool == "inferred" else 0.25)
    main, args, merge_opts, opts = prepare(ctx, rng, tool, code)
    mods = cache_of(ctx)
    seed = rng.randrange(1 << 30)
    try:
        r0 = call(ctx, main, args + opts, seed, mods)
        why = repr(r0.exception)[:300]
        ctx.describe(dict(tool=tool, args=args[1:], opts=opts))
        if not ctx.ok(r0.exit_code == 0, "runs", lambda: f"{tool} {opts}: {why}"):
            return
        # (evolve names its copies of the inputs after them)
        shutil.rmtree(ctx.path("out", "input_models"), ignore_errors=True)
        plain = result(ctx.path("out"))
        here = listing(ctx.path("out"), [])
        clear(ctx)
        refs, where = onto_hub(ctx, rng, org, pinned=tool != "fill")
        some = rng.random() < 0.2 and tool != "fill"
        if some and len(refs) > 1:
            # some of the models stay where they are
            keep = rng.choice(sorted(refs))
            del refs[keep]
            ctx.event("mixed")
        gone = {}
        for p in sorted(refs, key=len, reverse=True):
            if os.path.exists(p):
                shutil.rmtree(p)
        args = rename(ctx, args, refs)
        cdir = None
        if merge_opts and tool in CACHED and rng.random() < 0.4:
            cdir = ctx.path("hubcache")
            opts = opts + ["--transformers-cache", cdir]
        ctx.describe(dict(tool=tool, args=args[1:], opts=opts, refs=sorted(refs.values())))
        r = call(ctx, main, args + opts, seed, mods)
        why = repr(r.exception)[:400]
        ctx.event(f"hub:{tool}")
        if not ctx.ok(r.exit_code == 0, "works-from-hub", lambda: f"{tool} {opts} {sorted(refs.values())}: {why}"):
            return
        if tool == "evolve":
            # (where it keeps its downloads)
            for n in ("transformers_cache", "input_models"):
                shutil.rmtree(ctx.path("out", n), ignore_errors=True)
        bad = None if randomised(args) else same(plain, result(ctx.path("out")), tool)
        ctx.ok(bad is None, "same-output", lambda: f"{tool} {opts} {sorted(refs.values())}: {bad}")
        there = listing(ctx.path("out"), [(v, k) for k, v in sorted(refs.items(), key=lambda e: -len(e[1]))])
        miss = sorted(set(here) ^ set(there))
        ctx.ok(not miss, "same-files", lambda: f"{tool} {opts} {sorted(refs.values())}: {miss} local {sorted(here)}")
        diff = [k for k in here if k in there and here[k] != there[k] and os.path.basename(k) not in ("mergekit_config.yml", *["best_config.yaml"] * (tool == "evolve")) and not k.endswith(".py")]
        ctx.ok(not diff, "same-contents", lambda: f"{tool} {opts} {sorted(refs.values())}: {diff[0]}: {here[diff[0]][:200]} {there[diff[0]][:200]}")
        if tool == "extract":
            base = refs.get(ctx.path("in", "base"))
            with open(os.path.join(ctx.path("out"), "adapter_config.json")) as f:
                ac = json.load(f)
            if base is not None:
                got = ac["base_model_name_or_path"], ac.get("revision") or "main"
                ctx.ok(got == tuple((base + "@main").split("@")[:2]), "adapter-base", lambda: f"{base}: {got}")
        seen = hub.log(org, clear=True)
        gets = [l.split(" ", 3)[1:] for l in seen if l.startswith("GET ")]
        wanted = {n: {s for m, s in where.values() if m == n} for n in {where[d][0] for d in refs}}
        other = [g for g in gets if g[0] in wanted and g[1] not in wanted[g[0]]]
        ctx.ok(not other, "other-revision-read", lambda: f"{tool}: {other[:3]}")
        if tool != "fill":
            pickles = [g for g in gets if g[2] == "pytorch_model.bin" and any(x[:2] == g[:2] and x[2].endswith(".safetensors") for x in gets)]
            ctx.ok(not pickles, "pickles-fetched", lambda: f"{tool}: {pickles[:3]}")
        ctx.event("fetched", len(gets))
        twice = sorted({tuple(g) for g in gets if gets.count(g) > 1 and g[2].endswith((".safetensors", ".bin"))})
        if cdir is not None:
            # (transformers reads tokenizers, and models to run, by itself)
            low = [n for n in os.listdir(cdir)] if os.path.isdir(cdir) else []
            ctx.ok(bool(low) or tool in ("moe",), "cache-used", lambda: f"{tool} {opts}: {low}")
            ctx.event("own-cache")
        elif tool != "evolve":
            ctx.ok(not twice, "fetched-twice", lambda: f"{tool}: {twice[:3]}")
        card = os.path.join(ctx.path("out"), "README.md")
        if os.path.exists(card) and tool in ("yaml", "legacy", "shuffle", "inferred"):
            with open(card, encoding="utf-8") as f:
                t = f.read()
            with open(os.path.join(ctx.path("out"), "mergekit_config.yml"), encoding="utf-8") as f:
                t = t.replace(f.read().strip(), "")
            for v in sorted(refs.values()):
                for x in v.split("+"):
                    n = x.split("@")[0]
                    if n not in yaml.safe_dump(yaml.safe_load(open(os.path.join(ctx.path("out"), "mergekit_config.yml")))):
                        continue
                    ctx.ok(f"(https://huggingface.co/{n})" in t, "card-link", lambda: f"{tool}: {n} {t[:600]}")
                    ctx.event("card-link")
        # what was fetched is there to be used again
        if rng.random() < 0.5 and tool != "evolve":
            clear(ctx)
            r = call(ctx, main, args + opts, seed, mods)
            why = repr(r.exception)[:300]
            if ctx.ok(r.exit_code == 0, "works-again", lambda: f"{tool} {opts}: {why}"):
                again = [l for l in hub.log(org) if l.startswith("GET ")]
                ctx.ok(not again, "fetched-again", lambda: f"{tool} {opts}: {again[:4]}")
                bad = None if randomised(args) else same(plain, result(ctx.path("out")), tool)
                ctx.ok(bad is None, "same-again", lambda: f"{tool} {opts}: {bad}")
                ctx.event("reused")
        ctx.event("code" if code else "data")
        if code and tool != "surgeon":
            own_code(ctx, org, tool, refs, mods)
        ctx.nontrivial(tool, tuple(opts), tuple(sorted(v.split("/")[1] for v in refs.values())), rng.random())
    finally:
        hub.forget(org)


# ---- downloads that fail ---------------------------------------------------------------------------------------------
def wl_faults(ctx, rng):
    tool = rng.choice(["yaml", "yaml", "yaml", "multi", "moe", "extract", "surgeon", "legacy", "bakllama", "fill", "inferred"])
    org = names(ctx)
    main, args, merge_opts, opts = prepare(ctx, rng, tool)
    mods = cache_of(ctx)
    seed = rng.randrange(1 << 30)
    try:
        r0 = call(ctx, main, args + opts, seed, mods)
        why = repr(r0.exception)[:300]
        if not ctx.ok(r0.exit_code == 0, "runs", lambda: f"{tool} {opts}: {why}"):
            return
        plain = result(ctx.path("out"))
        clear(ctx)
        refs, where = onto_hub(ctx, rng, org, pinned=tool != "fill")
        for p in refs:
            if os.path.exists(p):
                shutil.rmtree(p)
        kind = rng.choice(["cut", "cut", "error", "gone", "no-repo", "no-revision", "no-file"])
        if tool == "fill" and kind == "no-revision":
            kind = "no-repo"
        good = dict(refs)
        used = args + [open(os.path.join(ctx.path("cfg"), f)).read() for f in (os.listdir(ctx.path("cfg")) if os.path.exists(ctx.path("cfg")) else [])]
        named = sorted(p for p in refs if any(p in a for a in used))
        hidden = None
        if kind in ("no-repo", "no-revision"):
            p = rng.choice(named)
            refs[p] = refs[p].split("@")[0] + ("-missing" if kind == "no-repo" else "@nowhere")
        elif kind == "no-file":
            # a shard the index speaks of is not there
            p = rng.choice(named)
            name, sha = where[p]
            d = os.path.join(hub.ROOT, "repos", org, name, sha)
            w = sorted(f for f in os.listdir(d) if f.endswith((".safetensors", ".bin")) and re.search(r"-of-", f))
            if not w:
                raise Skip("no shards")
            hidden = os.path.join(d, rng.choice(w))
            os.rename(hidden, ctx.path("hidden"))
        else:
            hub.fault(org, kind=kind, after=rng.randrange(8), part=rng.random(), stay=rng.random() < 0.5)
        bad_args = rename(ctx, args, refs)
        ctx.describe(dict(tool=tool, args=bad_args[1:], opts=opts, kind=kind, refs=sorted(refs.values())))
        r = call(ctx, main, bad_args + opts, seed, mods)
        hit = any(l.startswith("fault ") for l in hub.log(org))
        if kind in ("cut", "error", "gone") and not hit:
            raise Skip("nothing failed")
        ctx.event(f"fault:{kind}")
        if r.exit_code == 0:
            # what is optional may be missing, but only as a whole file of no importance: the weights are right
            got = result(ctx.path("out"))
            bad = None if randomised(bad_args) else same({k: v for k, v in plain.items() if not isinstance(v, dict)}, {k: v for k, v in got.items() if not isinstance(v, dict)}, tool)
            ctx.ok(kind in ("cut", "error", "gone") and bad is None, "failure-noticed", lambda: f"{tool} {opts} {kind} {sorted(refs.values())}: succeeded, {bad}")
            ctx.event("recovered")
        else:
            ctx.ok(bool(r.exception) and not isinstance(r.exception, (AttributeError, UnboundLocalError, NameError)), "failure-clear", lambda: f"{tool} {kind}: {r.exception!r}"[:300])
            ctx.event("refused")
        # and once the hub is well
        fp = os.path.join(hub.ROOT, "fault", org)
        if os.path.exists(fp):
            os.remove(fp)
        if hidden:
            os.rename(ctx.path("hidden"), hidden)
        clear(ctx)
        if refs != good:
            back = {refs[p]: good[p] for p in refs if refs[p] != good[p]}
            bad_args = rename(ctx, bad_args, back)
        r = call(ctx, main, bad_args + opts, seed, mods)
        why = repr(r.exception)[:400]
        if ctx.ok(r.exit_code == 0, "works-after", lambda: f"{tool} {opts} after {kind}: {why}"):
            bad = None if randomised(bad_args) else same(plain, result(ctx.path("out")), tool)
            ctx.ok(bad is None, "same-after", lambda: f"{tool} {opts} after {kind}: {bad}")
            ctx.event("retried")
        ctx.nontrivial(tool, kind, rng.random())
    finally:
        hub.forget(org)


# ---- a repository that moves on --------------------------------------------------------------------------------------
def wl_moves(ctx, rng):
    """a branch is what it is when asked for; a commit stays what it is"""
    from mergekit.scripts.run_yaml import main

    from vk.checks.p25 import dump, small

    org = names(ctx)
    try:
        a, ta = small(ctx, rng, "a", layers=1)
        b, tb = small(ctx, rng, "b", layers=1)
        a2 = decoy(ctx, rng, a, "a2", True)
        g = hub.publish(org, "a", dict(old=a, new=a2), "old")
        hub.publish(org, "b", dict(x=b), "x")
        ref = rng.choice([f"{org}/a", f"{org}/a@main", f"{org}/a@old", f"{org}/a@{g['old']}"])
        pinned = ref.endswith(("old", g["old"]))
        c = dict(merge_method="linear", models=[dict(model=ref, parameters=dict(weight=1.0)), dict(model=f"{org}/b", parameters=dict(weight=1.0))])
        if rng.random() < 0.4:
            c["tokenizer_source"] = rng.choice([ref, "union"])
        args = [dump(ctx, "c.yml", c), ctx.path("out")]
        mods = cache_of(ctx)
        seen = []
        when = rng.randrange(3)
        for i in range(3):
            if i == when:
                hub.move_main(org, "a", "new")
            shutil.rmtree(ctx.path("out"), ignore_errors=True)
            r = call(ctx, main, args, 1, mods)
            why = repr(r.exception)[:300]
            if not ctx.ok(r.exit_code == 0, "works-from-hub", lambda: f"{ref} run {i}: {why}"):
                return
            got = result(ctx.path("out"))
            new = i >= when and not pinned
            w = {k[1]: v for k, v in got.items() if not isinstance(v, dict)}
            for k in ta:
                v = ta[k] + 3 if new else ta[k]
                ctx.ok(torch.allclose(w[k], (v + tb[k]) / 2, atol=1e-5), "branch-as-is", lambda: f"{ref} run {i} (main moved at {when}): {k}")
            tm = [v["template"] for k, v in got.items() if k[1] == "template"]
            ctx.ok(all((str(t).startswith("DECOY")) == new for t in tm), "branch-tokenizer", lambda: f"{ref} run {i} (main moved at {when}): {tm}")
            with open(os.path.join(ctx.path("out"), "config.json")) as f:
                ctx.ok(("vk_decoy" in json.load(f)) == new, "branch-config", lambda: f"{ref} run {i} (main moved at {when})")
        ctx.event("pinned" if pinned else "followed")
        ctx.nontrivial(ref.split("@")[-1][:6], when, json.dumps(c, default=str)[:0], rng.random())
    finally:
        hub.forget(org)


CHECK = Check(
    prop="P32",
    level="exploration",
    rule="eleven command-line tools whose generated inputs are served by a hub on the loopback interface - plain, pinned to branches, tags or commits, beside other revisions and pickles, with companion "
    "files, templates, adapters and code - against the same run on local copies; what is requested of the hub is logged; broken, refused and missing downloads and repositories that move between runs; "
    "distinct by tool, options, references and fault",
    assumptions=["the hub's protocol is played as far as huggingface_hub 1.x uses it; large-file redirects and xet storage are not", "use without any connection is not claimed: mergekit always asks for the list of files"],
    workloads=[
        Workload("hub", wl_hub, 110, 3000, require=["hub:" + t for t in TOOLS] + ["revision", "pickles-beside", "auto-template", "other-format", "template-file", "several-templates", "merges-file", "mixed", "other-safetensors", "own-cache", "reused", "card-link", "code", "fetched"]),
        Workload("faults", wl_faults, 56, 1500, require=["fault:" + k for k in ("cut", "error", "gone", "no-repo", "no-revision", "no-file")] + ["refused", "retried"]),
        Workload("moves", wl_moves, 16, 400, require=["pinned", "followed"]),
    ],
)
