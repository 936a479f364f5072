"""P27: filling in a base model's parameters around a submodel takes every tensor from where it belongs."""

import json
import os
import subprocess
import sys

import torch
from click.testing import CliRunner

from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.models import write_ckpt

DT = [torch.float32, torch.float16, torch.bfloat16]


def gen(ctx, rng):
    """A base with a submodel's parameters under a prefix, around decoys that invite the wrong prefix."""
    prefix = rng.choice(["", "language_model", "language_model", "model", "thinker", "text"])
    n = rng.randint(1, 7)
    stem = rng.choice(["model.layers.%d.w", "layers.%d.w", "model.h%d", "w%d", "language_model.layers.%d.w"])
    sub_names = [stem % i for i in range(n)]
    if rng.random() < 0.5:
        sub_names.append("lm_head.weight")
    rng.shuffle(sub_names)
    pre = prefix + "." if prefix else ""
    base = [pre + s for s in sub_names]
    # parameters of the base alone
    for i in range(rng.randint(1, 4)):
        base.append(rng.choice(["vision.b%d", "projector.%d.weight", "language_model.extra%d", "v%d"]) % i)
    # the same names at other places of the base, for fewer parameters than the prefix gives
    decoy = None
    if rng.random() < 0.6 and len(sub_names) > 1:
        decoy = rng.choice(["", "audio", "vision", "language_model"])
        if decoy == prefix:
            decoy = "audio"
        d = decoy + "." if decoy else ""
        base += [d + s for s in rng.sample(sub_names, rng.randint(1, len(sub_names) - 1))]
        ctx.event("decoy")
    # parameters of the submodel that the base does not have
    extra = []
    if rng.random() < 0.3:
        extra = [f"only.{i}" for i in range(rng.choice([1, 2]))]
        ctx.event("extra-in-submodel")
    base = list(dict.fromkeys(base))
    rng.shuffle(base)
    counts = {}
    for p in dict.fromkeys([""] + [b.split(".")[0] for b in base if "." in b]):
        q = p + "." if p else ""
        counts[p] = sum(q + s in set(base) for s in sub_names + extra)
    top = max(counts.values())
    best = [p for p in counts if counts[p] == top]
    return prefix, sub_names + extra, base, counts, best


def tensors(rng, names):
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    return {k: torch.randn(rng.choice([(3, 2), (4,), (2, 2, 2)]), generator=g).to(rng.choice(DT)) for k in names}


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def bits(t):
    return t.dtype, tuple(t.shape), t.contiguous().view(torch.uint8).numpy().tobytes() if t.dim() else None


def setup(ctx, rng):
    prefix, sub, base, counts, best = gen(ctx, rng)
    bt, st = tensors(rng, base), tensors(rng, sub)
    write_ckpt(ctx.path("base"), dict(model_type="llama", architectures=["X"]), bt, "st", rng.choice([None, 2, 3]), rng)
    write_ckpt(ctx.path("sub"), dict(model_type="llama", architectures=["Y"]), st, "st", rng.choice([None, 2]), rng)
    for f in ("tokenizer.json", "sub dir/code.py", "sub dir/deep/notes.md"):
        if rng.random() < 0.5:
            os.makedirs(os.path.dirname(ctx.path("base", f)), exist_ok=True)
            with open(ctx.path("base", f), "w") as h:
                h.write(f)
    return prefix, sub, base, bt, st, counts, best


def wl_fill(ctx, rng):
    from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params, main

    prefix, sub, base, bt, st, counts, best = setup(ctx, rng)
    size = rng.choice([None, 20, 60, 10**6])
    ctx.describe(dict(prefix=prefix, sub=sub, base=base, counts=counts, shard=size))
    what = lambda: f"base {base}, submodel {sub}: "
    before = files(ctx.path("base")), files(ctx.path("sub"))
    default_out = rng.random() < 0.15
    out = ctx.path("base--sub") if default_out else ctx.path("o", "out")
    try:
        if rng.random() < 0.5:
            kw = {} if default_out else dict(output_dir=out)
            if size:
                kw["max_shard_size"] = size
            ret = copy_and_fill_missing_params(ctx.path("base"), ctx.path("sub"), **kw)
            ctx.ok(os.path.realpath(ret) == os.path.realpath(out), "returns-directory", lambda: what() + f"returned {ret}")
        else:
            r = CliRunner().invoke(main, [ctx.path("base"), ctx.path("sub")] + (["--max_shard_size", str(size)] if size else []) + ([] if default_out else ["--output_dir", out]))
            if r.exception:
                raise r.exception
        err = None
    except (AssertionError, ValueError) as e:
        err = e
    ctx.ok((files(ctx.path("base")), files(ctx.path("sub"))) == before, "inputs-untouched", lambda: what() + "a given directory changed")
    must_refuse = len(base) <= len(sub) or not max(counts.values())
    if must_refuse:
        ctx.ok(err is not None, "misfit-refused", lambda: what() + "a submodel that cannot be part of the base was accepted")
        ctx.event("refused")
        return
    if not ctx.ok(err is None, "fits-accepted", lambda: what() + repr(err)):
        return
    got, _ = read_checkpoint(out, "safetensors")[:2]
    ctx.ok(set(got) == set(bt), "names-of-the-base", lambda: what() + f"missing {sorted(set(bt) - set(got))}, added {sorted(set(got) - set(bt))}")
    fits = []
    for p in best if "" not in best else [""]:
        q = p + "." if p else ""
        want = {k: st[k[len(q) :]] if k.startswith(q) and k[len(q) :] in st else v for k, v in bt.items()}
        wrong = [k for k in want if k in got and bits(got[k]) != bits(want[k])]
        fits.append((len(wrong), p, wrong))
    fits.sort()
    ctx.ok(fits[0][0] == 0, "tensors-from-their-place", lambda: what() + f"prefix {fits[0][1]!r}: {fits[0][2]} are not as expected")
    ctx.event("filled", len(got))
    if best[0] and "" not in best:
        ctx.event("prefixed")
    kept = {k: v for k, v in before[0].items() if not k.endswith((".safetensors", ".bin", ".index.json"))}
    now = files(out)
    ctx.ok(all(now.get(k) == v for k, v in kept.items()), "other-files-copied", lambda: what() + f"{[k for k in kept if now.get(k) != kept[k]]}")
    ctx.nontrivial(tuple(base), tuple(sub), size)


def wl_misfit(ctx, rng):
    """A submodel no parameter of which is in the base must not give a copy of the base."""
    from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params

    base = [f"model.language_model.layers.{i}.w" for i in range(4)] + ["model.visual.x"]
    sub = rng.choice([["model.layers.0.w", "model.layers.1.w"], ["language_model.layers.0.w"], ["transformer.h.0.w"], ["w"]])
    bt, st = tensors(rng, base), tensors(rng, sub)
    write_ckpt(ctx.path("base"), {}, bt, "st", None, rng)
    write_ckpt(ctx.path("sub"), {}, st, "st", None, rng)
    # 'model' is a prefix that fits the second of these
    fits = all(f"model.{s}" in base for s in sub)
    try:
        copy_and_fill_missing_params(ctx.path("base"), ctx.path("sub"), output_dir=ctx.path("out"))
        err = None
    except (AssertionError, ValueError) as e:
        err = e
    ctx.ok((err is None) == fits, "misfit-refused", lambda: f"base {base}, submodel {sub}: " + (repr(err) if err else "accepted, and the output is the base alone"))
    ctx.event("misfit")
    ctx.nontrivial(tuple(sub), rng.random())


def wl_script(ctx, rng):
    """As documented, from the command line and under any hash seed."""
    prefix, sub, base, bt, st, counts, best = setup(ctx, rng)
    while len(base) <= len(sub):
        for d in ("base", "sub"):
            for f in files(ctx.path(d)):
                os.remove(ctx.path(d, f))
        prefix, sub, base, bt, st, counts, best = setup(ctx, rng)
    outs = []
    for i in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1000)))
        out = ctx.path(f"out{i}")
        r = subprocess.run([sys.executable, "-m", "mergekit.scripts.fill_missing_params", ctx.path("base"), ctx.path("sub"), "--output_dir", out], env=env, cwd=ctx.path("."), capture_output=True, text=True, timeout=300)
        if not ctx.ok(r.returncode == 0, "runs-as-script", lambda: r.stderr.strip().splitlines()[-1][:300] if r.stderr.strip() else str(r.returncode)):
            return
        outs.append({k: bits(v) for k, v in read_checkpoint(out, "safetensors")[0].items()})
        ctx.event("script-run")
    ctx.ok(outs[0] == outs[1], "same-under-hash-seeds", lambda: f"base {base}, submodel {sub}, best prefixes {best}: the outputs differ")
    ctx.nontrivial("script", tuple(base), tuple(sub))


CHECK = Check(
    prop="P27",
    level="exploration",
    rule="generated pairs of base and submodel (prefix or none, shards, data types, decoy copies of the submodel's names under other prefixes, parameters only one of them has), through the "
    "function and the command line; each output tensor is matched bit by bit with the only place it can come from; script runs under two hash seeds each; distinct by parameter names",
    assumptions=["safetensors checkpoints"],
    workloads=[
        Workload("fill", wl_fill, 800, 20000, require=["filled", "prefixed", "decoy", "extra-in-submodel", "refused"]),
        Workload("misfit", wl_misfit, 20, 200, require=["misfit"]),
        Workload("script", wl_script, 6, 120, require=["script-run"]),
    ],
)
